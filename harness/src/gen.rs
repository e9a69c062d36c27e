//! Generators: documents as small syntax trees of our own, so that what
//! should come out is known, and free-form or damaged text.

use crate::ops::{Conf, Doc, Info};
use crate::rng::Rng;
use serde::{Deserialize, Serialize};

/// Inline content.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum I {
    /// A word, unique in the document (numbered in source order).
    W,
    #[serde(skip)]
    A(usize),
    Wrap(u8, Vec<I>),
    Foot(Vec<I>),
    Cite(u8),
    Link(u8, u8),
    User(bool, u8),
    Img(u8),
    /// Text without words.
    X(String),
    /// The start of something which is never finished.
    Open(u8),
    /// Code, in the middle of a line.
    Code(u8, u8),
    /// An HTML block in the middle of a line.
    Html(u8),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Li {
    pub c: Vec<I>,
    #[serde(default)]
    pub sub: Vec<Li>,
}

/// Block content.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum B {
    P(Vec<I>),
    H { level: u8, hidden: bool, c: Vec<I> },
    L(bool, Vec<Li>),
    Q(Vec<Vec<I>>),
    T(Vec<Vec<Vec<I>>>),
    Def(Vec<Vec<I>>),
    Div(u8, Vec<B>),
    Cond(bool, Vec<B>),
    Tabs(Vec<Vec<B>>),
    Code { name: u8, lang: u8, lines: u8 },
    Html(u8),
    Toc(u8),
    Hr,
    Notes { title: bool, hide: bool },
    Bib { title: bool, hide: bool, items: Vec<(u8, Vec<I>)> },
    Math(u8),
    X(String),
    Open(u8),
    /// Lines directly below each other.
    Lines(Vec<Vec<I>>),
}

/// A comment, which is no element.
pub const NOTHING: &str = "[!-- hidden --]";

pub fn atom(n: usize) -> String {
    format!("zq{n}qz")
}

/// All word numbers in the string, in order.
pub fn atoms_in(s: &str) -> Vec<usize> {
    let mut out = vec![];
    let mut rest = s;
    while let Some(at) = rest.find("zq") {
        rest = &rest[at + 2..];
        let digits = rest.bytes().take_while(u8::is_ascii_digit).count();
        if digits > 0 && rest[digits..].starts_with("qz") {
            out.push(rest[..digits].parse().unwrap_or(usize::MAX));
            rest = &rest[digits + 2..];
        }
    }
    out
}

/// Pairs of marks around inline content: (open, close, name of the mark).
pub const WRAPS: &[(&str, &str, &str)] = &[
    ("**", "**", "**"),
    ("//", "//", "//"),
    ("__", "__", "__"),
    ("^^", "^^", "^^"),
    (",,", ",,", ",,"),
    ("{{", "}}", "{{"),
    ("--", "--", "--"),
    ("~~", "~~", "~~"),
    ("##red|", "##", "##"),
    ("[[span]]", "[[/span]]", "span"),
    ("[[span class=\"cls\"]]", "[[/span]]", "span"),
    ("[[b]]", "[[/b]]", "b"),
    ("[[i]]", "[[/i]]", "i"),
    ("[[u]]", "[[/u]]", "u"),
    ("[[s]]", "[[/s]]", "s"),
    ("[[sup]]", "[[/sup]]", "sup"),
    ("[[sub]]", "[[/sub]]", "sub"),
    ("[[tt]]", "[[/tt]]", "tt"),
    ("[[mark]]", "[[/mark]]", "mark"),
    ("[[ins]]", "[[/ins]]", "ins"),
    ("[[del]]", "[[/del]]", "del"),
    ("[[size 120%]]", "[[/size]]", "size"),
    ("[[hidden]]", "[[/hidden]]", "hidden"),
    ("[[invisible]]", "[[/invisible]]", "invisible"),
    ("[[a href=\"https://a.example/\"]]", "[[/a]]", "a"),
];

/// Block containers: (head, tail, name).
pub const DIVS: &[(&str, &str, &str)] = &[
    ("[[div]]", "[[/div]]", "div"),
    ("[[div class=\"box\"]]", "[[/div]]", "div"),
    ("[[div_ style=\"color: red\"]]", "[[/div]]", "div"),
    ("[[blockquote]]", "[[/blockquote]]", "blockquote"),
    ("[[collapsible]]", "[[/collapsible]]", "collapsible"),
    (
        "[[collapsible show=\"+ open\" hide=\"- close\"]]",
        "[[/collapsible]]",
        "collapsible",
    ),
    ("[[=]]", "[[/=]]", "="),
    ("[[<]]", "[[/<]]", "<"),
    ("[[>]]", "[[/>]]", ">"),
    ("[[==]]", "[[/==]]", "=="),
    ("[[ul]]\n[[li]]", "[[/li]]\n[[/ul]]", "ul"),
    ("[[ol]]\n[[li]]", "[[/li]]\n[[/ol]]", "ol"),
    (
        "[[table]]\n[[row]]\n[[cell]]",
        "[[/cell]]\n[[/row]]\n[[/table]]",
        "table",
    ),
];

/// Unfinished inline constructs.
pub const OPENS: &[(&str, &str)] = &[
    ("**", "**"),
    ("//", "//"),
    ("__", "__"),
    ("^^", "^^"),
    (",,", ",,"),
    ("{{", "{{"),
    ("##red|", "##"),
    ("[[span]]", "span"),
    ("[[b]]", "b"),
    ("[[size 50%]]", "size"),
    ("[[mark]]", "mark"),
    ("@@", "@@"),
    ("@<", "@<"),
    ("[https://b.example/", "["),
    ("[#anchor", "["),
    ("[[[", "[[["),
    ("[[", "[[x"),
    ("[[unknownblock]]", "unknownblock"),
    ("[[/span]]", "span"),
    ("[[/b]]", "b"),
    ("[[/mark]]", "mark"),
    ("]]", "]]"),
    ("]]]", "]]]"),
    ("##", "##"),
    ("##|", "##"),
    ("[[user", "[[y"),
    ("[[image", "[[z"),
    ("[[$", "[[$"),
    ("((bibcite", "(("),
    ("((", "(("),
    ("}}", "{{"),
    (">@", "@<"),
    ("--]", "[!--"),
    ("[[eref]]", "eref"),
    ("[[size]]", "size"),
    ("[[date xyzzy]]", "date"),
    ("[[char nosuchentity]]", "char"),
    ("[[lines many]]", "lines"),
    ("[[ruby]]", "ruby"),
    ("[[rt]]", "rt"),
    ("[[footnote]]", "footnote"),
    ("[[/footnote]]", "footnote"),
    ("||", "||"),
    ("~~~~~", "~~~~~"),
    ("[[later]]", "later"),
    ("[!-", "[!--"),
    ("%%", "%%"),
    ("$]]", "[[$"),
    ("{$var}", "{$var}"),
];

/// Unfinished block constructs.
pub const BOPENS: &[(&str, &str)] = &[
    ("[[div]]", "div"),
    ("[[blockquote]]", "blockquote"),
    ("[[collapsible]]", "collapsible"),
    ("[[=]]", "="),
    ("[[>]]", ">"),
    ("[[tabview]]", "tab"),
    ("[[tabview]]\n[[tab one]]", "tab"),
    ("[[tab stray]]", "tab"),
    ("[[ul]]", "ul"),
    ("[[ul]]\n[[li]]", "ul"),
    ("[[table]]", "table"),
    ("[[table]]\n[[row]]", "table"),
    ("[[table]]\n[[row]]\n[[cell]]", "table"),
    ("[[row]]", "row"),
    ("[[li]]", "li"),
    ("[[/div]]", "div"),
    ("[[/collapsible]]", "collapsible"),
    ("[[/table]]", "table"),
    ("[[code]]", "code"),
    ("[[html]]", "html"),
    ("[[math]]", "math"),
    ("[[iftags +tale]]", "iftags"),
    ("[[bibliography]]", "bibliography"),
    ("[[module css]]", "module"),
    ("[[module unknownmodule]]", "module"),
    ("[[embed]]", "embed"),
    ("[[iframe]]", "iframe"),
    ("[[include-elements]]", "include-elements"),
    ("[[ruby]]", "ruby"),
    ("[[checkbox x=y]]", "checkbox"),
    ("[[p]]", "p"),
    ("[[ifcategory _default]]", "ifcategory"),
    ("[[toc unclosed", "toc"),
    ("[[footnoteblock unclosed", "footnoteblock"),
    ("+++++++", "+++++++"),
    ("||", "||"),
    ("|| unfinished", "||"),
    (": unfinished", ":"),
    ("[[include]]", "include"),
];

pub const LANGS: &[&str] = &["", "python", "c++", "RUST"];
pub const SITES: &[&str] = &["https://c.example/", "http://d.example/p?q=1&r=2", "https://e.example/#f"];
pub const PAGES: &[&str] = &["page-one", "cat:page-two", "page-three", "missing", "Page Four"];
pub const USERS: &[&str] = &["alice", "bob-x", "carol y", "dave"];
pub const IMAGES: &[&str] = &["one.png", "https://f.example/two.png", "page-one/three.png", "site/page/four.png"];

/// Emits documents as text.
#[derive(Default)]
pub struct Emit {
    pub out: String,
}

impl Emit {
    fn inlines(&mut self, list: &[I]) {
        for (i, x) in list.iter().enumerate() {
            if i > 0 {
                self.out.push(' ');
            }
            self.inline(x);
        }
    }

    fn inline(&mut self, x: &I) {
        match x {
            I::W => self.out.push_str("word"),
            I::A(n) => self.out.push_str(&atom(*n)),
            I::Wrap(k, c) => {
                let (open, close, _) = WRAPS[*k as usize % WRAPS.len()];
                self.out.push_str(open);
                self.inlines(c);
                self.out.push_str(close);
            }
            I::Foot(c) => {
                self.out.push_str("[[footnote]]");
                self.inlines(c);
                self.out.push_str("[[/footnote]]");
            }
            I::Cite(n) => self.out.push_str(&format!("((bibcite {}))", label_name(*n))),
            I::Link(kind, n) => {
                let page = PAGES[*n as usize % PAGES.len()];
                let url = SITES[*n as usize % SITES.len()];
                let s = match kind % 8 {
                    0 => format!("[[[{page}]]]"),
                    1 => format!("[[[{page}|label]]]"),
                    2 => format!("[[[{page}|]]]"),
                    3 => format!("[{url} label]"),
                    4 => format!("[*{url} label]"),
                    5 => url.to_string(),
                    6 => format!("[[[*{page}|label]]]"),
                    _ => format!("[[[:other-site:{page}|label]]]"),
                };
                self.out.push_str(&s);
            }
            I::User(star, n) => self.out.push_str(&format!(
                "[[{}user {}]]",
                if *star { "*" } else { "" },
                USERS[*n as usize % USERS.len()]
            )),
            I::Img(n) => self
                .out
                .push_str(&format!("[[image {}]]", IMAGES[*n as usize % IMAGES.len()])),
            I::X(s) => self.out.push_str(s),
            I::Open(k) => self.out.push_str(OPENS[*k as usize % OPENS.len()].0),
            I::Code(name, lang) => {
                self.code(*name, *lang, 1);
            }
            I::Html(n) => self.out.push_str(&format!("[[html]]\n<p>{}</p>\n[[/html]]", n)),
        }
    }

    fn code(&mut self, name: u8, lang: u8, lines: u8) {
        self.out.push_str("[[code");
        if name > 0 {
            self.out.push_str(&format!(" name=\"name{name}\""));
        }
        let lang = LANGS[lang as usize % LANGS.len()];
        if !lang.is_empty() {
            self.out.push_str(&format!(" type=\"{lang}\""));
        }
        self.out.push_str("]]\n");
        self.out.push_str(&code_text(name, lines));
        self.out.push_str("\n[[/code]]");
    }

    fn items(&mut self, ord: bool, items: &[Li], depth: usize) {
        for item in items {
            self.line();
            for _ in 0..depth {
                self.out.push(' ');
            }
            self.out.push_str(if ord { "# " } else { "* " });
            self.inlines(&item.c);
            self.items(ord, &item.sub, depth + 1);
        }
    }

    fn line(&mut self) {
        if !self.out.is_empty() && !self.out.ends_with('\n') {
            self.out.push('\n');
        }
    }

    pub fn blocks(&mut self, list: &[B]) {
        for (i, b) in list.iter().enumerate() {
            if i > 0 {
                self.out.push_str("\n\n");
            }
            self.block(b);
        }
    }

    fn block(&mut self, b: &B) {
        match b {
            B::P(c) => self.inlines(c),
            B::H { level, hidden, c } => {
                for _ in 0..(level % 6) + 1 {
                    self.out.push('+');
                }
                if *hidden {
                    self.out.push('*');
                }
                self.out.push(' ');
                self.inlines(c);
            }
            B::L(ord, items) => self.items(*ord, items, 0),
            B::Q(lines) => {
                for c in lines {
                    self.line();
                    self.out.push_str("> ");
                    self.inlines(c);
                }
            }
            B::T(rows) => {
                for row in rows {
                    self.line();
                    self.out.push_str("||");
                    for cell in row {
                        self.out.push(' ');
                        self.inlines(cell);
                        self.out.push_str(" ||");
                    }
                }
            }
            B::Def(items) => {
                for c in items {
                    self.line();
                    self.out.push_str(": key : ");
                    self.inlines(c);
                }
            }
            B::Div(k, body) => {
                let (head, tail, _) = DIVS[*k as usize % DIVS.len()];
                self.out.push_str(head);
                self.out.push('\n');
                self.blocks(body);
                self.line();
                self.out.push_str(tail);
            }
            B::Cond(yes, body) => {
                self.out
                    .push_str(if *yes { "[[iftags +tale]]\n" } else { "[[iftags -tale]]\n" });
                self.blocks(body);
                self.line();
                self.out.push_str("[[/iftags]]");
            }
            B::Tabs(tabs) => {
                self.out.push_str("[[tabview]]");
                for (i, body) in tabs.iter().enumerate() {
                    self.out.push_str(&format!("\n[[tab title{i}]]\n"));
                    self.blocks(body);
                    self.line();
                    self.out.push_str("[[/tab]]");
                }
                self.out.push_str("\n[[/tabview]]");
            }
            B::Code { name, lang, lines } => self.code(*name, *lang, *lines),
            B::Html(n) => self.out.push_str(&format!(
                "[[html]]\n{}\n[[/html]]",
                html_text(*n)
            )),
            B::Toc(k) => self.out.push_str(match k % 3 {
                0 => "[[toc]]",
                1 => "[[f<toc]]",
                _ => "[[f>toc]]",
            }),
            B::Hr => self.out.push_str("------"),
            B::Notes { title, hide } => {
                self.out.push_str("[[footnoteblock");
                if *title {
                    self.out.push_str(" title=\"My notes\"");
                }
                if *hide {
                    self.out.push_str(" hide=\"true\"");
                }
                self.out.push_str("]]");
            }
            B::Bib { title, hide, items } => {
                self.out.push_str("[[bibliography");
                if *title {
                    self.out.push_str(" title=\"My books\"");
                }
                if *hide {
                    self.out.push_str(" hide=\"true\"");
                }
                self.out.push_str("]]");
                for (label, c) in items {
                    self.out.push_str(&format!("\n: {} : ", label_name(*label)));
                    self.inlines(c);
                }
                self.out.push_str("\n[[/bibliography]]");
            }
            B::Math(n) => {
                if n % 2 == 0 {
                    self.out.push_str(&format!("[[math eq{n}]]\nx^{n}\n[[/math]]"));
                } else {
                    self.out.push_str(&format!("[[math]]\ny_{n}\n[[/math]]"));
                }
            }
            B::X(s) => self.out.push_str(s),
            B::Open(k) => self.out.push_str(BOPENS[*k as usize % BOPENS.len()].0),
            B::Lines(lines) => {
                for c in lines {
                    self.line();
                    self.inlines(c);
                }
            }
        }
    }
}

pub fn code_text(name: u8, lines: u8) -> String {
    let mut out = format!("let v{name} = <{name}> & \"x\";");
    for i in 1..(lines % 8).max(1) {
        match i % 4 {
            1 => out.push_str(&format!("\n  **b{i}** [[div]]")),
            2 => out.push_str("\n\n[[/div]] @@ //"),
            3 => out.push_str(&format!("\n+ line {i}")),
            _ => out.push_str("\n\ttab || * x"),
        }
    }
    out
}

pub fn html_text(n: u8) -> String {
    match n % 4 {
        0 => format!("<p id=\"h{n}\">a & b</p>"),
        1 => format!("<script>\n\nif (a < {n}) {{ [[div]] }}\n</script>"),
        2 => format!("**{n}**\n\n+ not a heading"),
        _ => format!("{n}"),
    }
}

pub fn emit(blocks: &[B]) -> String {
    let mut e = Emit::default();
    e.blocks(blocks);
    e.out
}

/// Numbers the words, and removes what would make the meaning of a generated
/// document unclear: nothing nested in itself, no broken mark whose kind is
/// also used properly or twice.
pub struct Fix {
    next: usize,
    used: Vec<&'static str>,
    opened: Vec<&'static str>,
    active: Vec<&'static str>,
    in_note: bool,
    pub code_names: Vec<u8>,
}

pub fn resolve(blocks: &[B]) -> (Vec<B>, usize) {
    let mut used = vec![];
    for b in blocks {
        used_b(b, &mut used);
    }
    let mut fix = Fix {
        next: 0,
        used,
        opened: vec![],
        active: vec![],
        in_note: false,
        code_names: vec![],
    };
    let out = fix.blocks(blocks);
    (out, fix.next)
}

fn used_i(x: &I, out: &mut Vec<&'static str>) {
    match x {
        I::Wrap(k, c) => {
            out.push(WRAPS[*k as usize % WRAPS.len()].2);
            c.iter().for_each(|x| used_i(x, out));
        }
        I::Foot(c) => {
            out.push("footnote");
            c.iter().for_each(|x| used_i(x, out));
        }
        I::Link(..) => out.extend(["[", "[[["]),
        I::Cite(_) => out.push("(("),
        I::Code(..) => out.push("code"),
        I::Html(_) => out.push("html"),
        _ => (),
    }
}

fn used_li(x: &Li, out: &mut Vec<&'static str>) {
    x.c.iter().for_each(|x| used_i(x, out));
    x.sub.iter().for_each(|x| used_li(x, out));
}

fn used_b(b: &B, out: &mut Vec<&'static str>) {
    match b {
        B::P(c) | B::H { c, .. } => c.iter().for_each(|x| used_i(x, out)),
        B::L(_, items) => items.iter().for_each(|x| used_li(x, out)),
        B::Q(l) | B::Lines(l) => l.iter().flatten().for_each(|x| used_i(x, out)),
        B::Def(l) => {
            out.push(":");
            l.iter().flatten().for_each(|x| used_i(x, out));
        }
        B::T(rows) => {
            out.push("||");
            rows.iter().flatten().flatten().for_each(|x| used_i(x, out));
        }
        B::Div(k, c) => {
            out.push(DIVS[*k as usize % DIVS.len()].2);
            c.iter().for_each(|x| used_b(x, out));
        }
        B::Cond(_, c) => {
            out.push("iftags");
            c.iter().for_each(|x| used_b(x, out));
        }
        B::Tabs(t) => {
            out.push("tab");
            t.iter().flatten().for_each(|x| used_b(x, out));
        }
        B::Code { .. } => out.push("code"),
        B::Html(_) => out.push("html"),
        B::Math(_) => out.push("math"),
        B::Toc(_) => out.push("toc"),
        B::Notes { .. } => out.push("footnoteblock"),
        B::Bib { items, .. } => {
            out.extend(["bibliography", ":"]);
            items.iter().flat_map(|x| &x.1).for_each(|x| used_i(x, out));
        }
        _ => (),
    }
}

impl Fix {
    fn word(&mut self) -> I {
        self.next += 1;
        I::A(self.next - 1)
    }

    fn inlines(&mut self, list: &[I]) -> Vec<I> {
        let mut out = vec![];
        for x in list {
            match x {
                I::W | I::A(_) => {
                    let w = self.word();
                    out.push(w);
                }
                I::Wrap(k, c) => {
                    let name = WRAPS[*k as usize % WRAPS.len()].2;
                    if self.active.contains(&name) {
                        let c = self.inlines(c);
                        out.extend(c);
                    } else {
                        self.active.push(name);
                        let c = self.inlines(c);
                        self.active.pop();
                        if !c.is_empty() {
                            out.push(I::Wrap(*k, c));
                        }
                    }
                }
                I::Foot(c) => {
                    if self.in_note {
                        let c = self.inlines(c);
                        out.extend(c);
                    } else {
                        self.in_note = true;
                        let mut c = self.inlines(c);
                        self.in_note = false;
                        if c.is_empty() {
                            c.push(self.word());
                        }
                        out.push(I::Foot(c));
                    }
                }
                I::Open(k) => {
                    let name = OPENS[*k as usize % OPENS.len()].1;
                    if !self.used.contains(&name) && !self.opened.contains(&name) {
                        self.opened.push(name);
                        out.push(x.clone());
                    }
                }
                other => out.push(other.clone()),
            }
        }
        out
    }

    /// As above, never empty and starting with a word.
    fn line(&mut self, list: &[I]) -> Vec<I> {
        if matches!(list.first(), Some(I::W | I::A(_))) {
            return self.inlines(list);
        }
        let mut out = vec![self.word()];
        out.extend(self.inlines(list));
        out
    }

    fn items(&mut self, items: &[Li]) -> Vec<Li> {
        items
            .iter()
            .map(|i| Li {
                c: self.line(&i.c),
                sub: self.items(&i.sub),
            })
            .collect()
    }

    pub fn blocks(&mut self, list: &[B]) -> Vec<B> {
        let mut out = vec![];
        for b in list {
            let b = match b {
                B::P(c) => B::P(self.line(c)),
                B::H { level, hidden, c } => B::H {
                    level: *level,
                    hidden: *hidden,
                    c: self.line(c),
                },
                B::L(o, items) if !items.is_empty() => B::L(*o, self.items(items)),
                B::Q(l) if !l.is_empty() => B::Q(l.iter().map(|c| self.line(c)).collect()),
                B::Lines(l) if !l.is_empty() => B::Lines(l.iter().map(|c| self.line(c)).collect()),
                B::Def(l) if !l.is_empty() => B::Def(l.iter().map(|c| self.line(c)).collect()),
                B::T(rows) if rows.iter().all(|r| !r.is_empty()) && !rows.is_empty() => B::T(
                    rows.iter()
                        .map(|r| r.iter().map(|c| self.line(c)).collect())
                        .collect(),
                ),
                B::Div(k, body) => {
                    let name = DIVS[*k as usize % DIVS.len()].2;
                    if self.active.contains(&name) {
                        out.extend(self.blocks(body));
                        continue;
                    }
                    self.active.push(name);
                    let mut body = self.blocks(body);
                    self.active.pop();
                    if body.is_empty() {
                        body.push(B::P(vec![self.word()]));
                    }
                    B::Div(*k, body)
                }
                B::Cond(yes, body) => {
                    if self.active.contains(&"iftags") {
                        out.extend(self.blocks(body));
                        continue;
                    }
                    self.active.push("iftags");
                    let mut body = self.blocks(body);
                    self.active.pop();
                    if body.is_empty() {
                        body.push(B::P(vec![self.word()]));
                    }
                    B::Cond(*yes, body)
                }
                B::Tabs(tabs) => {
                    if self.active.contains(&"tab") || tabs.is_empty() {
                        for t in tabs {
                            out.extend(self.blocks(t));
                        }
                        continue;
                    }
                    self.active.push("tab");
                    let tabs = tabs
                        .iter()
                        .map(|t| {
                            let mut t = self.blocks(t);
                            if t.is_empty() {
                                t.push(B::P(vec![self.word()]));
                            }
                            t
                        })
                        .collect();
                    self.active.pop();
                    B::Tabs(tabs)
                }
                B::Code { name, lang, lines } => B::Code {
                    name: *name,
                    lang: *lang,
                    lines: *lines,
                },
                B::Bib { title, hide, items } => B::Bib {
                    title: *title,
                    hide: *hide,
                    items: items
                        .iter()
                        .map(|(l, c)| match c.as_slice() {
                            [I::X(s)] if s == NOTHING => (*l, c.clone()),
                            _ => (*l, self.line(c)),
                        })
                        .collect(),
                },
                B::Open(k) => {
                    let name = BOPENS[*k as usize % BOPENS.len()].1;
                    if self.used.contains(&name) || self.opened.contains(&name) {
                        continue;
                    }
                    self.opened.push(name);
                    b.clone()
                }
                B::L(..) | B::Q(_) | B::Lines(_) | B::Def(_) | B::T(_) => continue,
                other => other.clone(),
            };
            out.push(b);
        }
        out
    }
}

/// What may occur in generated documents.
#[derive(Clone, Copy, Default)]
pub struct Feat {
    pub notes: usize,
    pub cites: usize,
    pub links: usize,
    pub users: usize,
    pub images: usize,
    pub opens: usize,
    pub headings: usize,
    pub code: usize,
    pub html: usize,
    pub bibs: usize,
    pub toc: usize,
    pub noteblock: usize,
    pub cond: usize,
    pub math: usize,
    pub tabs: usize,
    pub inline_code: usize,
    pub misc: usize,
}

/// Short inline snippets without words.
pub const MISC: &[&str] = &[
    "@@raw **x**@@", "@<&amp;>@", "[!-- hidden --]", "[[date 1600000000]]", "[[checkbox]]", "[[char 65]]",
    "[[*user alice]]", "[[$ x^2 $]]", "[[eref eq2]]", "--", "...", "<<", ">>", "``quoted''", "a@b.example",
    "[# top]", "[#anchor top]", "[[# here]]", "[[lines 2]]", "~~~~", "{$name}", "&", "<b>", "\"", "|", "@@@@",
    "[[radio grp]]", "[[ruby]]x[[rt]]y[[/rt]][[/ruby]]", "[[rb x|y]]", "http://x.example/", "[[span]][[/span]]",
    "\u{e9}\u{4e2d}\u{1f600}", "_", "[[a_ name=\"x\"]]y[[/a]]", "[[target here]]",
];

pub struct Gen<'r> {
    pub rng: &'r mut Rng,
    pub feat: Feat,
    pub budget: usize,
}

impl Gen<'_> {
    fn take(&mut self) -> bool {
        if self.budget == 0 {
            return false;
        }
        self.budget -= 1;
        true
    }

    fn label(&mut self) -> u8 {
        let most = *self.rng.pick(&[3, 6, 10]);
        self.rng.below(most) as u8
    }

    pub fn inlines(&mut self, depth: usize) -> Vec<I> {
        let n = self.rng.range(1, 4);
        (0..n).map(|_| self.inline(depth)).collect()
    }

    fn inline(&mut self, depth: usize) -> I {
        if !self.take() || depth == 0 {
            return I::W;
        }
        let f = self.feat;
        let weights = [
            10,
            6,
            f.notes,
            f.cites,
            f.links,
            f.users,
            f.images,
            f.opens,
            f.inline_code,
            f.misc,
        ];
        let total: usize = weights.iter().sum();
        let mut r = self.rng.below(total);
        let mut k = 0;
        while r >= weights[k] {
            r -= weights[k];
            k += 1;
        }
        match k {
            0 => I::W,
            1 => I::Wrap(self.rng.below(WRAPS.len()) as u8, self.inlines(depth - 1)),
            2 => I::Foot(self.inlines(depth - 1)),
            3 => I::Cite(self.label()),
            4 => I::Link(self.rng.below(8) as u8, self.rng.below(5) as u8),
            5 => I::User(self.rng.chance(1, 2), self.rng.below(4) as u8),
            6 => I::Img(self.rng.below(4) as u8),
            7 => I::Open(self.rng.below(OPENS.len()) as u8),
            8 => {
                if self.rng.chance(1, 2) {
                    I::Code(self.rng.below(5) as u8, self.rng.below(4) as u8)
                } else {
                    I::Html(self.rng.below(9) as u8)
                }
            }
            _ => I::X(self.rng.pick(MISC).to_string()),
        }
    }

    fn items(&mut self, depth: usize) -> Vec<Li> {
        (0..self.rng.range(1, 3))
            .map(|_| Li {
                c: self.inlines(2),
                sub: if depth > 0 && self.rng.chance(1, 3) {
                    self.items(depth - 1)
                } else {
                    vec![]
                },
            })
            .collect()
    }

    pub fn blocks(&mut self, max: usize, depth: usize) -> Vec<B> {
        let n = self.rng.range(1, max);
        (0..n).map(|_| self.block(depth)).collect()
    }

    fn block(&mut self, depth: usize) -> B {
        if !self.take() {
            return B::P(vec![I::W]);
        }
        let f = self.feat;
        let deep = usize::from(depth > 0);
        let weights = [
            10,
            f.headings,
            3,
            2,
            2,
            1,
            5 * deep,
            f.cond * deep,
            f.tabs * deep,
            f.code,
            f.html,
            f.toc,
            1,
            f.noteblock,
            f.bibs,
            f.math,
            f.opens,
            3,
        ];
        let total: usize = weights.iter().sum();
        let mut r = self.rng.below(total);
        let mut k = 0;
        while r >= weights[k] {
            r -= weights[k];
            k += 1;
        }
        match k {
            0 => B::P(self.inlines(3)),
            1 => B::H {
                level: self.rng.below(6) as u8,
                hidden: self.rng.chance(1, 6),
                c: self.inlines(2),
            },
            2 => B::L(self.rng.chance(1, 2), self.items(2)),
            3 => B::Q((0..self.rng.range(1, 3)).map(|_| self.inlines(2)).collect()),
            4 => B::T(
                (0..self.rng.range(1, 3))
                    .map(|_| (0..self.rng.range(1, 3)).map(|_| self.inlines(2)).collect())
                    .collect(),
            ),
            5 => B::Def((0..self.rng.range(1, 3)).map(|_| self.inlines(2)).collect()),
            6 => B::Div(self.rng.below(DIVS.len()) as u8, self.blocks(3, depth - 1)),
            7 => B::Cond(self.rng.chance(1, 2), self.blocks(2, depth - 1)),
            8 => B::Tabs((0..self.rng.range(1, 3)).map(|_| self.blocks(2, depth - 1)).collect()),
            9 => B::Code {
                name: if self.rng.chance(1, 2) { 0 } else { self.rng.below(6) as u8 },
                lang: self.rng.below(4) as u8,
                lines: self.rng.below(8) as u8,
            },
            10 => B::Html(self.rng.below(12) as u8),
            11 => B::Toc(self.rng.below(3) as u8),
            12 => B::Hr,
            13 => B::Notes {
                title: self.rng.chance(1, 2),
                hide: self.rng.chance(1, 4),
            },
            14 => B::Bib {
                title: self.rng.chance(1, 2),
                hide: false,
                items: (0..self.rng.range(0, 4))
                    .map(|_| {
                        // Some entries have no contents at all.
                        let label = self.label();
                        if self.rng.chance(1, 6) {
                            return (label, vec![I::X(NOTHING.to_string())]);
                        }
                        (label, self.inlines(2))
                    })
                    .collect(),
            },
            15 => B::Math(self.rng.below(6) as u8),
            16 => B::Open(self.rng.below(BOPENS.len()) as u8),
            _ => B::Lines((0..self.rng.range(1, 4)).map(|_| self.inlines(3)).collect()),
        }
    }
}

pub fn all_features() -> Feat {
    Feat {
        notes: 2,
        cites: 2,
        links: 3,
        users: 1,
        images: 1,
        opens: 1,
        headings: 3,
        code: 2,
        html: 1,
        bibs: 1,
        toc: 1,
        noteblock: 1,
        cond: 2,
        math: 1,
        tabs: 2,
        inline_code: 1,
        misc: 3,
    }
}

// ---- free-form text ------------------------------------------------------

pub fn corpus() -> &'static [String] {
    use std::sync::OnceLock;
    static CORPUS: OnceLock<Vec<String>> = OnceLock::new();
    CORPUS.get_or_init(|| serde_json::from_str(include_str!("corpus.json")).unwrap())
}

pub const TOKENS: &[&str] = &[
    "[[", "]]", "[[[", "]]]", "[[*", "[[/", "**", "//", "__", "^^", ",,", "{{", "}}", "--", "~~", "@@", "@<", ">@",
    "||", "||~", "||=", "||<", "||>", "##", "\n", "\n\n", " ", "* ", "# ", "> ", ">> ", "+ ", "++ ", "+* ", ": ", " : ",
    "----", "~~~~~", "= ", "[!--", "--]", "((bibcite ", "))", "[#", "[*", "[https://", "]", "[", "|", "\"", "=", "&",
    "[[$", "$]]", "{$a}", "%%x%%", "\\", "_\n", " _\n", "\u{a0}", "\t", "\u{e9}", "\u{1f600}", "<<", ">>", "``", "''", "...",
    "[[footnote]]", "[[/footnote]]", "[[div]]", "[[/div]]", "[[code]]", "[[/code]]", "[[tabview]]", "[[tab x]]",
    "[[/tab]]", "[[/tabview]]", "[[html]]", "[[/html]]", "[[iftags x]]", "[[/iftags]]", "[[ul]]", "[[li]]", "[[/li]]",
    "[[/ul]]", "[[bibliography]]", "[[/bibliography]]", "[[toc]]", "[[footnoteblock]]", "[[module css]]", "[[/module]]",
    "[[math]]", "[[/math]]", "[[span", "[[size ", "[[user ", "[[image ", "[[date ", "[[include ", "[[table]]", "[[row]]",
    "[[cell]]", "[[/cell]]", "[[/row]]", "[[/table]]", "http://a.b/", "javascript:x", "a@b.c", "word", "[[a href=\"",
    "[[collapsible show=\"", "[[/collapsible]]", "[[ruby]]", "[[rt]]", "[[/rt]]", "[[/ruby]]", "[[include-elements ",
    "[[iframe https://a.b/ ]]", "[[embed youtube]]", "[[/embed]]", "[[=]]", "[[/=]]", "[[char ", "[[lines ", "[[eref ",
    "[[later]]", "[[checkbox]]", "[[radio ", "[[target ", "[[anchor ", "[[u]]", "[[/u]]", "name=\"x\"", "hide=\"true\"",
    "\u{0}", "\r\n", "\u{2028}", "\u{feff}", "~", "`", "'", ",", "-", "^", "{", "}", "$", "@", "_", "#", "*", "+", ">", "<",
];

pub fn soup(rng: &mut Rng, max: usize) -> String {
    let n = rng.range(1, max);
    let mut out = String::new();
    for _ in 0..n {
        if rng.chance(1, 3) {
            out.push_str("w ");
        }
        out.push_str(*rng.pick::<&str>(TOKENS));
    }
    out
}

fn char_at(s: &str, i: usize) -> usize {
    let mut i = i.min(s.len());
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// One fault of storage or transport on a text.
/// Labels of a bibliography, which differ in little.
pub fn label_name(n: u8) -> String {
    const NAMES: &[&str] = &["lab1", "Lab1", "lab", "lab11", "LAB1", "l\u{e4}b1", "L\u{c4}B1", "lab-1", "lab_1", "1"];
    match NAMES.get(usize::from(n)) {
        Some(name) => name.to_string(),
        None => format!("lab{n}"),
    }
}

/// Letters of one to four bytes each, some which change their length in
/// another case, combine, or are spaces.
const LETTERS: &[char] = &[
    'a', 'Z', '0', '\u{e9}', '\u{df}', '\u{130}', '\u{131}', '\u{17f}', '\u{301}', '\u{3042}', '\u{1f600}', '\u{212a}', '\u{fb01}',
    '\u{1e9e}', '\u{a0}', '\u{3000}', '\u{ff10}', '\u{200d}', '\u{feff}', '\u{2028}', '\u{661}', '\u{10ffff}',
];

/// A long word, with few kinds of letters, at each offset of its bytes.
pub fn long_word(rng: &mut Rng) -> String {
    let mut word = String::new();
    for _ in 0..rng.below(5) {
        word.push(rng.range(b'a' as usize, b'z' as usize) as u8 as char);
    }
    let letters: Vec<char> = (0..rng.range(1, 3)).map(|_| *rng.pick(LETTERS)).collect();
    let bits = rng.range(1, 10);
    for _ in 0..rng.range(1, 1 << bits) {
        word.push(*rng.pick(&letters));
    }
    word
}

pub fn damage(rng: &mut Rng, s: &str) -> (String, &'static str) {
    let n = s.len();
    let a = char_at(s, rng.below(n + 1));
    let b = char_at(s, rng.below(n + 1));
    let (lo, hi) = (a.min(b), a.max(b));
    match rng.below(10) {
        0 | 1 => (s[..a].to_string(), "torn"),
        8 => {
            // The letters around a place.
            let lo = s[..a].trim_end_matches(char::is_alphanumeric).len();
            let hi = n - s[a..].trim_start_matches(char::is_alphanumeric).len();
            (format!("{}{}{}", &s[..lo], long_word(rng), &s[hi..]), "word replaced")
        }
        2 => {
            let hi = char_at(s, (lo + 1 + rng.below(8)).min(n)).max(lo);
            (format!("{}{}", &s[..lo], &s[hi..]), "lost")
        }
        3 => {
            let hi = char_at(s, (lo + 1 + rng.below(40)).min(n)).max(lo);
            (format!("{}{}{}", &s[..hi], &s[lo..hi], &s[hi..]), "duplicated")
        }
        4 => {
            let mid = char_at(s, lo + (hi - lo) / 2);
            (
                format!("{}{}{}{}", &s[..lo], &s[mid..hi], &s[lo..mid], &s[hi..]),
                "reordered",
            )
        }
        5 => {
            let mut bytes = s.as_bytes().to_vec();
            if !bytes.is_empty() {
                let i = rng.below(bytes.len());
                bytes[i] ^= 1 << rng.below(8);
            }
            (String::from_utf8_lossy(&bytes).into_owned(), "bit flipped")
        }
        6 => (
            format!("{}{}{}", &s[..a], rng.pick(TOKENS), &s[a..]),
            "inserted",
        ),
        7 => {
            let other = rng.pick(corpus());
            let c = char_at(other, rng.below(other.len() + 1));
            (format!("{}{}", &s[..a], &other[c..]), "spliced")
        }
        _ => (s[lo..].to_string(), "head lost"),
    }
}

pub fn random_conf(rng: &mut Rng) -> Conf {
    Conf {
        mode: if rng.chance(1, 2) { 0 } else { rng.below(5) as u8 },
        layout: rng.below(2) as u8,
        flip: if rng.chance(1, 2) { 0 } else { rng.below(64) as u8 },
    }
}

pub fn random_info(rng: &mut Rng) -> Info {
    let mut info = Info::default();
    if rng.chance(1, 2) {
        info.page = rng.pick(&["main", "system:x", "scp-001", "a/b", ""]).to_string();
        info.category = if rng.chance(1, 2) { Some("fragment".into()) } else { None };
        info.site = rng.pick(&["sandbox", "scp-wiki", "other"]).to_string();
        info.title = rng.pick(&["T", "A & B", "\u{e9}"]).to_string();
        info.alt_title = if rng.chance(1, 2) { Some("alt <x>".into()) } else { None };
        info.score = rng.below(100) as f64 - 20.0;
        info.tags = match rng.below(3) {
            0 => vec![],
            1 => vec!["tale".into()],
            _ => vec!["scp".into(), "safe".into(), "_image".into()],
        };
        info.language = rng.pick(&["default", "en", "de"]).to_string();
    }
    info
}

pub fn structured(rng: &mut Rng, feat: Feat, budget: usize, max: usize) -> String {
    let mut g = Gen { rng, feat, budget };
    let blocks = g.blocks(max, 2);
    let (blocks, _) = resolve(&blocks);
    emit(&blocks)
}

/// Text of any kind, undamaged.
pub fn any_text(rng: &mut Rng) -> String {
    match rng.below(8) {
        0 => soup(rng, 24),
        1 | 2 => {
            let mut out = rng.pick(corpus()).clone();
            if rng.chance(1, 2) {
                out.push_str(if rng.chance(1, 2) { "\n\n" } else { "\n" });
                out.push_str(rng.pick::<String>(corpus()));
            }
            out
        }
        _ => {
            let budget = rng.range(4, 40);
            let mut feat = all_features();
            if rng.chance(1, 2) {
                feat.opens = 0;
            }
            structured(rng, feat, budget, 6)
        }
    }
}

pub fn any_doc(rng: &mut Rng) -> Doc {
    let mut doc = Doc::new(any_text(rng));
    doc.conf = random_conf(rng);
    doc.info = random_info(rng);
    if rng.chance(1, 3) {
        let mut pages = vec![];
        for name in ["inc-a", "inc-b", ":other:inc-c"] {
            if rng.chance(2, 3) {
                let body = any_text(rng);
                doc.store
                    .insert(name.to_string(), format!("{body}\nval {{$v}} {{$w}}"));
            }
            if rng.chance(1, 2) {
                pages.push(format!("[[include {name} v=1 | w=two words]]"));
            }
        }
        for p in pages {
            if rng.chance(1, 2) {
                doc.text = format!("{p}\n{}", doc.text);
            } else {
                doc.text = format!("{}\n{p}", doc.text);
            }
        }
    }
    doc
}

/// A document which differs from the given one in a single respect.
pub fn sibling(rng: &mut Rng, doc: &Doc) -> Doc {
    let mut d = doc.clone();
    match rng.below(7) {
        0 => d.conf.layout ^= 1,
        1 => d.conf.flip ^= 1 << rng.below(6),
        2 => d.conf.mode = (d.conf.mode + 1 + rng.below(4) as u8) % 5,
        3 => d.info = random_info(rng),
        4 => {
            for v in d.store.values_mut() {
                v.push_str(" changed");
            }
            d.info.site.push('2');
        }
        5 => d.text = damage(rng, &doc.text).0,
        _ => {
            // Same length, other contents.
            d.text = doc
                .text
                .chars()
                .map(|c| match c {
                    '1' => '2',
                    '2' => '3',
                    'a' => 'o',
                    c => c,
                })
                .collect();
        }
    }
    d
}
