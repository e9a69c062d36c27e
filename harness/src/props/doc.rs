//! Shared by P08 to P14: documents with known contents, what a syntax tree
//! holds, and what its HTML shows.

use crate::gen::{self, atoms_in, B, DIVS, I, Li, WRAPS};
use crate::html::Dom;
use crate::ops::{self, Conf, Info};
use crate::props::robust::{random_faults, RULES};
use crate::rng::Rng;
use crate::runner::Outcome;
use crate::site::{Answers, Faults, Record, Site};
use crate::trace::{self, Budget, End};
use ftml::tree::{ContainerType, Element, LinkLabel, LinkLocation, ListItem, SyntaxTree};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

/// A document of known contents (`blocks`), or any text.
#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct DocCase {
    #[serde(default)]
    pub blocks: Option<Vec<B>>,
    #[serde(default)]
    pub text: String,
    /// Pieces of the text instead of the text: numbers below `MARKS` are
    /// marks, all others words.
    #[serde(default)]
    pub pieces: Vec<u16>,
    #[serde(default)]
    pub damage: Vec<String>,
    #[serde(default)]
    pub conf: Conf,
    #[serde(default)]
    pub info: Info,
    #[serde(default)]
    pub faults: Faults,
    /// Keeps what is known to go wrong (recorded findings).
    #[serde(default)]
    pub unclean: bool,
}

// ---- what a document says ---------------------------------------------------

#[derive(Clone, Debug, Default)]
pub struct Model {
    every: bool,
    /// Every word which is shown, in source order.
    pub words: Vec<usize>,
    /// Words which are in the source but not shown by either renderer.
    pub gone: BTreeSet<usize>,
    /// Words which the text renderer leaves out.
    pub not_in_text: BTreeSet<usize>,
    pub notes: Vec<Vec<usize>>,
    /// (level, listed, words, words with the hidden ones)
    pub heads: Vec<(usize, bool, Vec<usize>, Vec<usize>)>,
    /// (contents, name, language)
    pub codes: Vec<(String, Option<String>, Option<String>)>,
    /// Also those whose name is taken, or which are in a false condition.
    pub every_code: Vec<(String, Option<String>, Option<String>)>,
    pub every_html: Vec<String>,
    pub htmls: Vec<String>,
    /// (title, hidden, entries as (label, words))
    pub bibs: Vec<(bool, bool, Vec<(String, Vec<usize>)>)>,
    pub cites: Vec<String>,
    pub noteblocks: Vec<(bool, bool)>,
    pub tocs: usize,
}

#[derive(Clone, Copy, Default)]
struct At {
    gone: bool,
    note: bool,
    quiet: bool,
}

impl Model {
    pub fn of(blocks: &[B]) -> Model {
        let mut m = Model::default();
        m.blocks(blocks, At::default());
        m
    }

    /// With all that may show if constructs which hide it become text.
    pub fn loose(blocks: &[B]) -> Model {
        let mut m = Model {
            every: true,
            ..Model::default()
        };
        m.blocks(blocks, At::default());
        m
    }

    fn inlines(&mut self, list: &[I], at: At) -> Vec<usize> {
        let mut head = vec![];
        for x in list {
            match x {
                I::A(n) => {
                    if at.gone {
                        self.gone.insert(*n);
                        continue;
                    }
                    self.words.push(*n);
                    if at.quiet || at.note {
                        self.not_in_text.insert(*n);
                    }
                    if !at.quiet {
                        head.push(*n);
                    }
                }
                I::Wrap(k, c) => {
                    let name = WRAPS[*k as usize % WRAPS.len()].2;
                    let quiet = at.quiet || name == "hidden" || name == "invisible";
                    let inner = self.inlines(c, At { quiet, ..at });
                    head.extend(inner);
                }
                I::Foot(c) => {
                    let slot = self.notes.len();
                    if !at.gone {
                        self.notes.push(vec![]);
                    }
                    let from = self.words.len();
                    self.inlines(c, At { note: true, ..at });
                    if !at.gone {
                        self.notes[slot] = self.words[from..].to_vec();
                    }
                }
                I::Cite(n) => {
                    if !at.gone {
                        self.cites.push(gen::label_name(*n));
                    }
                }
                I::Code(name, lang) => self.code(*name, *lang, 1, at),
                I::Html(n) => {
                    self.every_html.push(format!("<p>{n}</p>"));
                    if !at.gone {
                        self.htmls.push(format!("<p>{n}</p>"));
                    }
                }
                _ => (),
            }
        }
        head
    }

    fn code(&mut self, name: u8, lang: u8, lines: u8, at: At) {
        let label = (name > 0).then(|| format!("name{name}"));
        let lang = gen::LANGS[lang as usize % gen::LANGS.len()].to_lowercase();
        let contents = ops::prepared(&gen::code_text(name, lines));
        let block = (contents, label, (!lang.is_empty()).then_some(lang));
        self.every_code.push(block.clone());
        if at.gone || block.1.is_some() && self.codes.iter().any(|c| c.1 == block.1) {
            return; // a name which is taken: literal text
        }
        self.codes.push(block);
    }

    fn items(&mut self, items: &[Li], at: At) {
        for i in items {
            self.inlines(&i.c, at);
            self.items(&i.sub, at);
        }
    }

    fn blocks(&mut self, list: &[B], at: At) {
        for b in list {
            match b {
                B::P(c) => {
                    self.inlines(c, at);
                }
                B::H { level, hidden, c } => {
                    let slot = self.heads.len();
                    let level = usize::from(level % 6) + 1;
                    if !at.gone {
                        self.heads.push((level, !*hidden, vec![], vec![]));
                    }
                    let from = self.words.len();
                    let words = self.inlines(c, at);
                    if !at.gone {
                        self.heads[slot].2 = words;
                        self.heads[slot].3 = self.words[from..].to_vec();
                    }
                }
                B::L(_, items) => self.items(items, at),
                B::Q(l) | B::Lines(l) | B::Def(l) => {
                    for c in l {
                        self.inlines(c, at);
                    }
                }
                B::T(rows) => {
                    for c in rows.iter().flatten() {
                        self.inlines(c, at);
                    }
                }
                B::Div(_, c) => self.blocks(c, at),
                B::Cond(yes, c) => self.blocks(
                    c,
                    At {
                        gone: at.gone || !yes && !self.every,
                        ..at
                    },
                ),
                B::Tabs(tabs) => {
                    for t in tabs {
                        self.blocks(t, at);
                    }
                }
                B::Code { name, lang, lines } => self.code(*name, *lang, *lines, at),
                B::Html(n) => {
                    self.every_html.push(ops::prepared(&gen::html_text(*n)));
                    if !at.gone {
                        self.htmls.push(ops::prepared(&gen::html_text(*n)));
                    }
                }
                B::Toc(_) => self.tocs += usize::from(!at.gone),
                B::Notes { title, hide } => {
                    if !at.gone {
                        self.noteblocks.push((*title, *hide));
                    }
                }
                B::Bib { title, hide, items } => {
                    let mut entries: Vec<(String, Vec<usize>)> = vec![];
                    for (label, c) in items {
                        let label = gen::label_name(*label);
                        let again = entries.iter().any(|e| e.0 == label);
                        let inner = At {
                            gone: at.gone || again || *hide,
                            quiet: true,
                            ..at
                        };
                        let from = self.words.len();
                        let noted = self.notes.len();
                        self.inlines(c, inner);
                        if !again {
                            // The words of footnotes are not the entry's.
                            let notes = &self.notes[noted..];
                            let words = self.words[from..].iter().filter(|w| !notes.iter().any(|n| n.contains(w)));
                            entries.push((label, words.copied().collect()));
                        }
                    }
                    if !at.gone {
                        self.bibs.push((*title, *hide, entries));
                    }
                }
                B::Hr | B::Math(_) | B::X(_) | B::Open(_) => (),
            }
        }
    }
}

/// Takes out what is known to go wrong: footnotes and code in bibliography
/// entries which are not displayed; and, where parse rules are made to fail so that
/// contents become text, contents with marks.
///
/// Takes out as well what is not safe to have anywhere in a document whose
/// contents are to be known: a `"` which begins a string that lasts to the
/// next one, an `_` which joins lines, pieces of rulers, blocks
/// which take the rest of their line, blocks within headings where they may
/// become text and end these, brackets which become part of another,
/// and names of images and users which go on to the next `]]`.
const UNSAFE: &[&str] = &["\"", "_", "--", "~~~~", "|", "@@@@", "<<", ">>", "[[lines 2]]", "[[target here]]", "http://x.example/"];
const UNSAFE_OPENS: &[&str] = &["[[image", "[[user", "]]", "]]]", "[[", "[[[", "@@", "@<", "[[later]]"];

/// An unfinished construct, and a piece of text which finishes it.
const FINISHED_BY: &[(&str, &str)] = &[
    ("[https://b.example/", "]"),
    ("[#anchor", "]"),
    ("[[$", "$]]"),
    ("[!-", "--]"),
    ("@<", ">@"),
    ("##", "|"),
];

/// All pieces of text in the document.
fn pieces(v: &serde_json::Value, out: &mut Vec<String>) {
    match v {
        serde_json::Value::Array(a) => a.iter().for_each(|x| pieces(x, out)),
        serde_json::Value::Object(o) => {
            for (k, x) in o {
                match x {
                    serde_json::Value::String(s) if k == "X" => out.push(s.clone()),
                    _ => pieces(x, out),
                }
            }
        }
        _ => (),
    }
}

fn safe(list: &mut Vec<B>, faulty: bool) {
    let mut all = vec![];
    pieces(&serde_json::to_value(&*list).unwrap(), &mut all);
    let mut ends: Vec<&str> = FINISHED_BY
        .iter()
        .filter(|f| all.iter().any(|x| x.contains(f.1)))
        .map(|f| f.0)
        .collect();
    if faulty {
        ends.extend(FAILING);
    }
    safe_in(list, &ends);
}

/// Pieces of text which become marks when the rule for them fails.
const FAILING: &[&str] = &["@@raw **x**@@", "@<&amp;>@", "[!-- hidden --]", "[[$ x^2 $]]", "[# top]", "[#anchor top]"];

fn safe_in(list: &mut Vec<B>, ends: &[&str]) {
    fn inner(list: &mut Vec<I>, ends: &[&str]) {
        list.retain(|x| match x {
            I::X(s) => {
                let s = s.as_str();
                gen::MISC.contains(&s) && !UNSAFE.contains(&s) && !ends.contains(&s)
            }
            I::Open(k) => {
                let open = gen::OPENS[*k as usize % gen::OPENS.len()].0;
                !UNSAFE_OPENS.contains(&open) && !ends.contains(&open)
            }
            _ => true,
        });
        for x in list {
            match x {
                I::Wrap(_, c) | I::Foot(c) => inner(c, ends),
                // An address goes on until the next space.
                I::Link(k, _) if *k % 8 == 5 => *x = I::W,
                _ => (),
            }
        }
    }
    fn items(list: &mut [Li], ends: &[&str]) {
        for i in list {
            inner(&mut i.c, ends);
            items(&mut i.sub, ends);
        }
    }
    for b in list {
        match b {
            B::P(c) | B::H { c, .. } => inner(c, ends),
            B::Q(l) | B::Lines(l) | B::Def(l) => l.iter_mut().for_each(|c| inner(c, ends)),
            B::T(r) => r.iter_mut().flatten().for_each(|c| inner(c, ends)),
            B::L(_, l) => items(l, ends),
            B::Bib { items, .. } => items.iter_mut().for_each(|c| inner(&mut c.1, ends)),
            B::Div(_, c) | B::Cond(_, c) => safe_in(c, ends),
            B::Tabs(t) => t.iter_mut().for_each(|c| safe_in(c, ends)),
            _ => (),
        }
    }
}

fn no_code(list: &mut [I]) {
    for x in list {
        match x {
            I::Code(..) | I::Html(_) => *x = I::W,
            I::Wrap(_, c) | I::Foot(c) => no_code(c),
            _ => (),
        }
    }
}

fn clean(list: &mut Vec<B>, faulty: bool) {
    fn no_notes(list: &mut [I]) {
        for x in list {
            match x {
                I::Code(..) | I::Html(_) => *x = I::W,
                I::Foot(c) => {
                    no_notes(c);
                    *x = I::Wrap(0, std::mem::take(c));
                }
                I::Wrap(_, c) => no_notes(c),
                _ => (),
            }
        }
    }
    for b in list {
        match b {
            B::Bib { hide, items, .. } => {
                let mut seen = vec![];
                for (label, c) in items {
                    if *hide || seen.contains(label) {
                        no_notes(c);
                    }
                    seen.push(*label);
                }
            }
            B::Div(_, c) | B::Cond(_, c) => clean(c, faulty),
            B::Tabs(t) => t.iter_mut().for_each(|c| clean(c, faulty)),
            B::H { c, .. } if faulty => no_code(c),
            B::Code { lines, .. } if faulty => *lines = 1,
            B::Html(n) if faulty => *n = 3,
            _ => (),
        }
    }
}

/// Code blocks with a name which is taken come out as text: one line of it,
/// and none within a line.
fn plain_duplicates(list: &mut Vec<B>, names: &mut Vec<u8>) {
    fn inner(list: &mut [I], names: &mut Vec<u8>) {
        for x in list {
            match x {
                I::Code(n, _) => {
                    if names.contains(n) {
                        *n = 0;
                    }
                    names.extend((*n > 0).then_some(*n));
                }
                I::Wrap(_, c) | I::Foot(c) => inner(c, names),
                _ => (),
            }
        }
    }
    fn items(list: &mut [Li], names: &mut Vec<u8>) {
        for i in list {
            inner(&mut i.c, names);
            items(&mut i.sub, names);
        }
    }
    for b in list {
        match b {
            B::P(c) | B::H { c, .. } => inner(c, names),
            B::Q(l) | B::Lines(l) | B::Def(l) => l.iter_mut().for_each(|c| inner(c, names)),
            B::T(r) => r.iter_mut().flatten().for_each(|c| inner(c, names)),
            B::L(_, l) => items(l, names),
            B::Bib { items, .. } => items.iter_mut().for_each(|c| inner(&mut c.1, names)),
            B::Div(_, c) | B::Cond(_, c) => plain_duplicates(c, names),
            B::Tabs(t) => t.iter_mut().for_each(|c| plain_duplicates(c, names)),
            B::Code { name, lines, .. } => {
                if names.contains(name) {
                    *lines = 1;
                }
                if *name > 0 {
                    names.push(*name);
                }
            }
            _ => (),
        }
    }
}

/// Without pieces of words, which markup between them could hide.
fn whole_words(text: &str) -> String {
    let mut out = String::new();
    let mut rest = text;
    while let Some(at) = rest.find("zq") {
        out.push_str(&rest[..at]);
        rest = &rest[at + 2..];
        let digits = rest.bytes().take_while(u8::is_ascii_digit).count();
        if (1..10).contains(&digits) && rest[digits..].starts_with("qz") {
            out.push_str("zq");
            out.push_str(&rest[..digits + 2]);
            rest = &rest[digits + 2..];
        } else {
            out.push_str("yq");
        }
    }
    out + rest
}

impl DocCase {
    /// The text, and what it says if that is known.
    pub fn source(&self) -> (String, Option<Model>, Option<Model>) {
        if !self.pieces.is_empty() {
            let mut text = String::new();
            let mut words = 0;
            for p in &self.pieces {
                match super::blocks::MARKS.get(usize::from(*p)) {
                    Some(m) => text.push_str(m),
                    None => {
                        text.push_str(&gen::atom(words));
                        words += 1;
                    }
                }
            }
            return (text, None, None);
        }
        let Some(blocks) = &self.blocks else {
            return (whole_words(&self.text), None, None);
        };
        let mut blocks = blocks.clone();
        let faulty = !self.faults.rules.is_empty();
        if !self.unclean {
            safe(&mut blocks, faulty);
            clean(&mut blocks, faulty);
        }
        plain_duplicates(&mut blocks, &mut vec![]);
        if faulty {
            // What follows `##` may be taken for a colour's name, and a mark
            // which failed to begin something can end up doing so where it
            // was to end it: so each is used once at most.
            let mut text = serde_json::to_string(&blocks).unwrap();
            for mark in 0..9 {
                let key = format!("{{\"Wrap\":[{mark},");
                if let Some(first) = text.find(&key) {
                    let from = if mark == 8 { first } else { first + key.len() };
                    let rest = text.split_off(from).replace(&key, "{\"Wrap\":[9,");
                    text.push_str(&rest);
                }
            }
            blocks = serde_json::from_str(&text).unwrap();
        }
        let (blocks, _) = gen::resolve(&blocks);
        (gen::emit(&blocks), Some(Model::of(&blocks)), Some(Model::loose(&blocks)))
    }

    /// Documents of known contents, with parse rules made to fail in some.
    pub fn known(rng: &mut Rng, feat: gen::Feat) -> DocCase {
        let budget = rng.range(4, 45);
        let max = rng.range(2, 8);
        let mut feat = feat;
        if rng.chance(1, 3) {
            feat.opens = 0;
        }
        let blocks = gen::Gen { rng, feat, budget }.blocks(max, 3);
        let faults = if rng.chance(1, 2) { random_faults(rng, 3) } else { Faults::default() };
        DocCase {
            blocks: Some(blocks),
            conf: page_conf(rng),
            faults,
            ..DocCase::default()
        }
    }

    pub fn any(rng: &mut Rng) -> DocCase {
        let (text, damage) = crate::props::robust::damaged(rng);
        DocCase {
            text,
            damage,
            conf: page_conf(rng),
            faults: if rng.chance(1, 2) { random_faults(rng, 3) } else { Faults::default() },
            ..DocCase::default()
        }
    }
}

/// Settings with page syntax and true ids.
pub fn page_conf(rng: &mut Rng) -> Conf {
    Conf {
        mode: 0,
        layout: rng.below(2) as u8,
        flip: if rng.chance(1, 2) { 0 } else { (rng.below(64) as u8) & 0b111010 },
    }
}

pub fn rule_names() -> &'static [&'static str] {
    RULES
}

// ---- what a tree holds --------------------------------------------------------

#[derive(Clone, Debug, Default)]
pub struct Tree {
    /// Footnote elements in the order of the document.
    pub notes: usize,
    /// (level, listed, text if it is simple, within a footnote)
    pub heads: Vec<(usize, bool, Option<String>, bool)>,
    pub codes: Vec<(String, Option<String>, bool)>,
    pub htmls: Vec<(String, bool)>,
    pub bibs: Vec<(usize, Option<String>, bool)>,
    pub cites: Vec<String>,
    pub noteblocks: Vec<(Option<String>, bool)>,
    pub tocs: usize,
    pub tabs: Vec<usize>,
    /// (page or url, label, type)
    pub links: Vec<String>,
    pub users: Vec<String>,
    pub images: Vec<String>,
    /// Pages whose titles are shown, with the site if it is given.
    pub titled: Vec<(Option<String>, String)>,
    pub hidden_bib: bool,
    pub includes: usize,
    pub modules: usize,
}

struct Walk<'a, 't> {
    tree: &'a SyntaxTree<'t>,
    out: Tree,
    note: bool,
    next_note: usize,
    depth: usize,
}

/// The text of elements which are only text and formatting; with what is
/// hidden or without.
pub fn simple_text(list: &[Element], hidden: bool, out: &mut String) -> bool {
    list.iter().all(|e| match e {
        Element::Text(t) | Element::Raw(t) | Element::Email(t) => {
            out.push_str(t);
            true
        }
        Element::Color { elements, .. } | Element::Anchor { elements, .. } => simple_text(elements, hidden, out),
        Element::AnchorName(_) | Element::Footnote => true,
        Element::Container(c) => match c.ctype() {
            ContainerType::Hidden => !hidden || simple_text(c.elements(), hidden, out),
            ContainerType::Invisible | ContainerType::Ruby | ContainerType::RubyText => false,
            _ => simple_text(c.elements(), hidden, out),
        },
        _ => false,
    })
}

impl Walk<'_, '_> {
    fn list(&mut self, list: &[Element]) {
        for e in list {
            self.element(e);
        }
    }

    fn element(&mut self, e: &Element) {
        match e {
            Element::Container(c) => {
                if let ContainerType::Header(h) = c.ctype() {
                    let mut text = String::new();
                    let simple = simple_text(c.elements(), false, &mut text);
                    self.out
                        .heads
                        .push((usize::from(h.level.value()), h.has_toc, simple.then_some(text), self.note));
                }
                self.list(c.elements());
            }
            Element::Table(t) => {
                for cell in t.rows.iter().flat_map(|r| &r.cells) {
                    self.list(&cell.elements);
                }
            }
            Element::TabView(tabs) => {
                self.out.tabs.push(tabs.len());
                for t in tabs {
                    self.list(&t.elements);
                }
            }
            Element::Anchor { elements, .. }
            | Element::Collapsible { elements, .. }
            | Element::Color { elements, .. } => self.list(elements),
            Element::Include { elements, .. } => {
                self.out.includes += 1;
                self.list(elements);
            }
            Element::List { items, .. } => {
                for i in items {
                    match i {
                        ListItem::Elements { elements, .. } => self.list(elements),
                        ListItem::SubList { element } => self.element(element),
                    }
                }
            }
            Element::DefinitionList(items) => {
                for i in items {
                    self.list(&i.key_elements);
                    self.list(&i.value_elements);
                }
            }
            Element::Footnote => {
                let i = self.next_note;
                self.next_note += 1;
                self.out.notes += 1;
                let tree = self.tree;
                if let (Some(contents), false) = (tree.footnotes.get(i), self.note) {
                    self.note = true;
                    self.list(contents);
                    self.note = false;
                }
            }
            Element::Code { contents, language } => self.out.codes.push((
                contents.to_string(),
                language.as_ref().map(|l| l.to_string()),
                self.note,
            )),
            Element::Html { contents } => self.out.htmls.push((contents.to_string(), self.note)),
            Element::BibliographyBlock { index, title, hide } => {
                self.out.bibs.push((*index, title.as_ref().map(|t| t.to_string()), *hide));
                self.out.hidden_bib |= *hide;
                if !*hide && self.depth < 100 {
                    self.depth += 1;
                    let tree = self.tree;
                    for (_, c) in tree.bibliographies.get_bibliography(*index).slice() {
                        self.list(c);
                    }
                    self.depth -= 1;
                }
            }
            Element::BibliographyCite { label, .. } => self.out.cites.push(label.to_string()),
            Element::FootnoteBlock { title, hide } => self
                .out
                .noteblocks
                .push((title.as_ref().map(|t| t.to_string()), *hide)),
            Element::TableOfContents { .. } => self.out.tocs += usize::from(!self.note),
            Element::Module(_) => self.out.modules += 1,
            Element::Link { link, label, .. } => {
                if let (LinkLocation::Page(p), LinkLabel::Page) = (link, label) {
                    self.out.titled.push((p.site().map(String::from), p.page().into()));
                }
                self.out.links.push(match link {
                    LinkLocation::Page(p) => p.to_string(),
                    LinkLocation::Url(u) => u.to_string(),
                });
            }
            Element::Image { source, .. } => self.out.images.push(crate::site::image_name(source)),
            Element::User { name, .. } => self.out.users.push(name.to_string()),
            _ => (),
        }
    }
}

impl Tree {
    pub fn of(tree: &SyntaxTree) -> Tree {
        let mut w = Walk {
            tree,
            out: Tree::default(),
            note: false,
            next_note: 0,
            depth: 0,
        };
        w.list(&tree.elements);
        w.out
    }

    /// What is in the contents of the footnotes, shown in order or not.
    pub fn of_footnotes(tree: &SyntaxTree) -> Tree {
        let mut w = Walk {
            tree,
            out: Tree::default(),
            note: true,
            next_note: 0,
            depth: 0,
        };
        for contents in &tree.footnotes {
            w.list(contents);
        }
        w.out
    }
}

/// Entries of a table of contents: (depth, address, label).
pub fn toc_entries(list: &[Element], depth: usize, out: &mut Vec<(usize, String, String)>) -> Result<(), String> {
    for e in list {
        match e {
            Element::List { items, .. } => {
                for i in items {
                    match i {
                        ListItem::Elements { elements, .. } => toc_entries(elements, depth + 1, out)?,
                        ListItem::SubList { element } => {
                            toc_entries(std::slice::from_ref(&**element), depth + 1, out)?
                        }
                    }
                }
            }
            Element::Link { link, label, .. } => {
                let LinkLocation::Url(url) = link else {
                    return Err("an entry links to a page".into());
                };
                let LinkLabel::Text(label) = label else {
                    return Err("an entry has no text".into());
                };
                out.push((depth, url.to_string(), label.to_string()));
            }
            other => return Err(format!("a {} in the table of contents", other.name())),
        }
    }
    Ok(())
}

// ---- running a case ------------------------------------------------------------

pub struct Ran {
    pub source: String,
    /// Known findings are not to be left out.
    pub unclean: bool,
    pub model: Option<Model>,
    /// What may show at most.
    pub loose: Option<Model>,
    pub clean: bool,
    pub tree: Tree,
    pub dom: Dom,
    pub html: String,
    pub text: String,
    pub record: Record,
    pub output: ftml::render::html::HtmlOutput,
}

const CAP: u64 = 1_500_000;

/// Parses and renders the case. `f` gets the syntax tree.
pub fn with_run<T>(
    out: &mut Outcome,
    case: &DocCase,
    answers: Option<Answers>,
    f: impl FnOnce(&mut Outcome, &SyntaxTree, &Ran) -> T,
) -> Option<T> {
    let (source, model, loose) = case.source();
    if std::env::var_os("FTMLSIM_SOURCE").is_some() {
        eprintln!("{source}\n--");
    }
    let settings = case.conf.settings();
    let info = case.info.page_info();
    let cap = || Budget {
        cancel_at: None,
        cap: Some(CAP),
    };
    let site = Site::new(case.faults.clone(), answers);
    site.install();
    let mut text = source.clone();
    let (end, _) = trace::call(cap(), || ftml::preprocess(&mut text));
    let fine = matches!(end, End::Returned(()));
    let tokens;
    let done = 'run: {
        if !fine {
            break 'run None;
        }
        let (end, _) = trace::call(cap(), || ftml::tokenize(&text));
        let End::Returned(t) = end else { break 'run None };
        tokens = t;
        let (end, _) = trace::call(cap(), || ftml::parse(&tokens, &info, &settings));
        let End::Returned(outcome) = end else { break 'run None };
        let (tree, _): (SyntaxTree, _) = outcome.into();
        let (end, _) = trace::call(cap(), || ops::render_html(&tree, &info, &settings));
        let End::Returned(html) = end else { break 'run None };
        let (end, _) = trace::call(cap(), || ops::render_text(&tree, &info, &settings));
        let End::Returned(plain) = end else { break 'run None };
        Some((tree, html, plain))
    };
    Site::remove();
    for n in site.record.borrow().rule_faults.values() {
        out.count("fault.rule made to fail", *n);
    }
    for d in &case.damage {
        out.count(&format!("fault.source {d}"), 1);
    }
    let Some((tree, output, plain)) = done else {
        out.count("calls which did not return (judged by P16)", 1);
        return None;
    };
    let dom = match Dom::parse(&output.body) {
        Ok(d) => d,
        Err(_) => {
            out.count("HTML which was not well-formed (judged by P21)", 1);
            return None;
        }
    };
    let record = site.record.take();
    let ran = Ran {
        source,
        clean: record.rule_faults.is_empty() && case.damage.is_empty(),
        unclean: case.unclean,
        model,
        loose,
        tree: Tree::of(&tree),
        dom,
        html: output.body.clone(),
        text: plain,
        record,
        output,
    };
    Some(f(out, &tree, &ran))
}

/// Whether `part` is what remains of `whole` after leaving some out.
pub fn subsequence<T: PartialEq>(part: &[T], whole: &[T]) -> bool {
    let mut rest = whole.iter();
    part.iter().all(|x| rest.any(|y| x == y))
}

pub fn words_of(list: &[Element]) -> Vec<usize> {
    // Everything below, by way of JSON, without text which is there twice.
    fn collect(v: &serde_json::Value, out: &mut String) {
        match v {
            serde_json::Value::String(s) if s.contains("zq") => {
                out.push(' ');
                out.push_str(s);
                out.push(' ');
            }
            serde_json::Value::Array(a) => a.iter().for_each(|x| collect(x, out)),
            serde_json::Value::Object(o) => {
                for (k, x) in o {
                    if k != "key-string" {
                        collect(x, out);
                    }
                }
            }
            _ => (),
        }
    }
    let mut out = String::new();
    for e in list {
        collect(&serde_json::to_value(e).unwrap_or_default(), &mut out);
    }
    atoms_in(&out)
}

#[allow(dead_code)]
pub fn div_name(k: u8) -> &'static str {
    DIVS[k as usize % DIVS.len()].2
}

/// One more rendering of a tree.
pub struct Again {
    pub output: ftml::render::html::HtmlOutput,
    pub html: Record,
    pub text: String,
    pub plain: Record,
}

pub fn again(case: &DocCase, tree: &SyntaxTree, answers: &Answers) -> Option<Again> {
    let settings = case.conf.settings();
    let info = case.info.page_info();
    let cap = || Budget {
        cancel_at: None,
        cap: Some(CAP),
    };
    let site = Site::new(Faults::default(), Some(answers.clone()));
    site.install();
    let (end, _) = trace::call(cap(), || ops::render_html(tree, &info, &settings));
    let html = site.record.take();
    let output = match end {
        End::Returned(o) => Some(o),
        _ => None,
    };
    let (end, _) = trace::call(cap(), || ops::render_text(tree, &info, &settings));
    let plain = site.record.take();
    Site::remove();
    let End::Returned(text) = end else { return None };
    Some(Again {
        output: output?,
        html,
        text,
        plain,
    })
}
