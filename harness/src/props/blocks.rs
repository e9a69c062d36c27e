//! P10 footnotes, P11 table of contents, P12 code and HTML blocks,
//! P13 citations, P14 no text lost.

use super::doc::*;
use crate::gen::{self, atoms_in};
use crate::html::Dom;
use crate::rng::{hash_str, mix, Rng};
use crate::runner::{Outcome, Prop};
use crate::site::Answers;
use ftml::tree::SyntaxTree;
use serde_json::Value;
use std::collections::BTreeSet;

pub struct Blocks(pub u8);

const MEASURE: &str = "(source, settings, rule faults)";

impl Prop for Blocks {
    fn id(&self) -> &'static str {
        match self.0 {
            10 => "P10",
            11 => "P11",
            12 => "P12",
            13 => "P13",
            _ => "P14",
        }
    }
    fn cases(&self) -> (u64, u64) {
        match self.0 {
            14 => (60_000, 1_500_000),
            _ => (40_000, 1_200_000),
        }
    }
    fn rule(&self) -> &'static str {
        match self.0 {
            10 => "A case is one document: two thirds of known contents (words, footnotes, wrapping constructs, constructs never finished), half of those with up to 3 parse rules made to fail; a third is damaged text. Footnotes in the tree, and references, previews and entries in the HTML are compared with each other and with what the document says. Non-trivial: documents with at least one footnote which had an unfinished construct, a failed rule or damage.",
            11 => "As P10, with headings and tables of contents. Non-trivial: documents with at least one listed heading which had an unfinished construct, a failed rule or damage.",
            12 => "As P10, with code and HTML blocks. Non-trivial: documents with at least one such block which had an unfinished construct, a failed rule or damage.",
            13 => "As P10, with bibliographies and citations. Non-trivial: documents with at least one citation or entry which had an unfinished construct, a failed rule or damage.",
            _ => "A case is one document in which each word is unique: half of known contents with unfinished constructs and up to 3 parse rules made to fail, half a random sequence of words and marks which fit together badly. Words in the HTML and the text are compared with the source. Non-trivial: all but documents without unfinished or failed constructs.",
        }
    }
    fn measure(&self) -> &'static str {
        MEASURE
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["parse rules failing on demand (hook)", "damage to the source", "clock", "entropy", "the site's own stub answers"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        match self.0 {
            10 => &["footnotes in bibliography entries which are not displayed are left out (known finding)",
                "numbers of equations in footnotes are not compared (known finding)"],
            11 => &["headings within footnotes are left out of the comparison with the HTML (known finding)", "settings with true ids, as links to headings are documented to work only with these"],
            12 => &["blocks within footnotes are shown twice, in the preview and in the footnote block"],
            13 => &["bibliographies which are hidden define labels all the same"],
            _ => &["words within hidden elements, footnotes and bibliographies are not part of the text output, by design"],
        }
    }

    fn generate(&self, rng: &mut Rng, _index: u64) -> Value {
        let mut feat = gen::all_features();
        feat.opens = 2;
        let case = match self.0 {
            10 => {
                feat.notes = 8;
                feat.noteblock = 2;
                pick(rng, feat)
            }
            11 => {
                feat.headings = 10;
                feat.toc = 3;
                feat.notes = 1;
                pick(rng, feat)
            }
            12 => {
                feat.code = 8;
                feat.html = 5;
                feat.inline_code = 4;
                pick(rng, feat)
            }
            13 => {
                feat.bibs = 6;
                feat.cites = 8;
                pick(rng, feat)
            }
            _ => {
                if rng.chance(1, 2) {
                    feat.opens = 4;
                    feat.toc = 0;
                    DocCase::known(rng, feat)
                } else {
                    marks(rng)
                }
            }
        };
        serde_json::to_value(case).unwrap()
    }

    fn run(&self, case: &Value) -> Outcome {
        let Ok(case) = serde_json::from_value::<DocCase>(case.clone()) else {
            return Outcome::invalid();
        };
        let mut out = Outcome::default();
        // Asks the site for nothing but the messages, so that these are known.
        let answers = Answers::default();
        with_run(&mut out, &case, Some(answers), |out, tree, ran| {
            let stress = !ran.clean || ran.model.is_none() || has_open(&case);
            let relevant = match self.0 {
                10 => {
                    notes(out, tree, ran);
                    ran.tree.notes > 0
                }
                11 => {
                    contents(out, tree, ran);
                    ran.tree.heads.iter().any(|h| h.1)
                }
                12 => {
                    codes(out, tree, ran);
                    ran.tree.codes.len() + ran.tree.htmls.len() > 0
                }
                13 => {
                    cites(out, tree, ran);
                    ran.tree.cites.len() + ran.tree.bibs.len() > 0
                }
                _ => {
                    words(out, &case, ran);
                    true
                }
            };
            out.evals += 1;
            if relevant && stress {
                out.nontrivial += 1;
                out.prints.push(mix(hash_str(&ran.source) ^ hash_str(&format!("{:?}{:?}", case.conf, case.faults))));
            }
            if has_open(&case) {
                out.count("fault.construct never finished", 1);
            }
        });
        out
    }
}

fn pick(rng: &mut Rng, feat: gen::Feat) -> DocCase {
    if rng.chance(2, 3) {
        DocCase::known(rng, feat)
    } else {
        DocCase::any(rng)
    }
}

fn has_open(case: &DocCase) -> bool {
    match &case.blocks {
        Some(b) => serde_json::to_string(b).unwrap_or_default().contains("\"Open\""),
        None => false,
    }
}

// ---- P10 ---------------------------------------------------------------------

fn in_class(dom: &Dom, el: usize, classes: &[&str]) -> bool {
    classes.iter().any(|c| dom.within(el, c))
}

/// Without the numbers of equations (known finding).
fn unnumbered(ran: &Ran, el: usize) -> String {
    ran.dom.text_without(el, &|d, e| !ran.unclean && d.is(e, "wj-equation-number"))
}

fn notes(out: &mut Outcome, tree: &SyntaxTree, ran: &Ran) {
    let n = tree.footnotes.len();
    let certain = ran.unclean || ran.model.is_some() || !ran.source.to_lowercase().contains("[[bibliography");
    if certain && n != ran.tree.notes {
        return out.fail(
            "listed footnotes",
            format!("the tree lists {n} footnotes, {} occur in it", ran.tree.notes),
        );
    }
    let listed: Vec<Vec<usize>> = tree.footnotes.iter().map(|f| words_of(f)).collect();
    if let Some(model) = &ran.model {
        let right = if ran.clean { listed == model.notes } else { subsequence(&listed, &ran.loose.as_ref().unwrap_or(model).notes) };
        if !right {
            return out.fail(
                "footnote contents",
                format!("footnotes with the words {listed:?}, the document has {:?}", model.notes),
            );
        }
    }
    if !certain || ran.tree.hidden_bib && ran.model.is_none() {
        return;
    }
    // In the HTML.
    let dom = &ran.dom;
    let refs: Vec<usize> = dom
        .of_class(0, "wj-footnote-ref")
        .into_iter()
        .filter(|r| !in_class(dom, *r, &["wj-footnote-list", "wj-bibliography-ref"]))
        .collect();
    if refs.len() != n {
        return out.fail("footnote references", format!("{} references are shown for {n} footnotes", refs.len()));
    }
    let mut previews = vec![];
    for (i, r) in refs.iter().enumerate() {
        let number = (i + 1).to_string();
        let marker = dom.child_of_class(*r, "wj-footnote-ref-marker");
        let shown = marker.map(|m| (dom.text(m), dom.attr(m, "data-id").unwrap_or("").to_string()));
        if shown != Some((number.clone(), number.clone())) {
            return out.fail("footnote numbers", format!("reference {number} is shown as {shown:?}"));
        }
        let contents = dom.of_class(*r, "wj-footnote-ref-contents");
        let Some(contents) = contents.first() else {
            return out.fail("footnote references", format!("reference {number} has no contents"));
        };
        let text = unnumbered(ran, *contents);
        let label = dom.of_class(*r, "wj-footnote-ref-tooltip-label");
        let label = label.first().map(|l| dom.text(*l)).unwrap_or_default();
        if !label.ends_with(&format!(" {number}.")) {
            return out.fail("footnote numbers", format!("reference {number} has the label {label:?}"));
        }
        let unlinked = dom.text_without(*contents, &|d, e| d.is(e, "wj-bibliography-ref"));
        if sure(ran, &tree.footnotes[i]).is_some_and(|w| w != atoms_in(&unlinked)) {
            return out.fail(
                "footnote contents",
                format!("reference {number} shows {unlinked:?}, the footnote has the words {:?}", listed[i]),
            );
        }
        previews.push(text);
    }
    let lists: Vec<usize> = dom
        .of_class(0, "wj-footnote-list")
        .into_iter()
        .filter(|r| !in_class(dom, *r, &["wj-footnote-list", "wj-bibliography-ref"]))
        .collect();
    let blocks: Vec<&(Option<String>, bool)> = ran.tree.noteblocks.iter().filter(|b| !b.1).collect();
    let expected = if n == 0 { 0 } else { blocks.len() };
    if lists.len() != expected {
        return out.fail("footnote block", format!("{} footnote blocks are shown instead of {expected}", lists.len()));
    }
    if ran.clean {
        if let Some(model) = &ran.model {
            let mut asked: Vec<(bool, bool)> = model.noteblocks.clone();
            if asked.is_empty() {
                asked.push((false, false));
            }
            let held: Vec<(bool, bool)> = ran.tree.noteblocks.iter().map(|b| (b.0.is_some(), b.1)).collect();
            if asked != held {
                return out.fail("footnote block", format!("footnote blocks {held:?}, the document has {asked:?}"));
            }
        }
    }
    for (list, block) in lists.iter().zip(&blocks) {
        let title = dom.child_of_class(*list, "wj-title").map(|t| dom.text(t));
        let right = match &block.0 {
            Some(t) => title == Some(t.replace('\0', " ")),
            None => title.is_some(),
        };
        if !right {
            return out.fail("footnote block", format!("the title is {title:?}, not {:?}", block.0));
        }
        let items: Vec<usize> = dom
            .of_class(*list, "wj-footnote-list-item")
            .into_iter()
            .filter(|i| dom.depth_within(*i, &|d, e| d.is(e, "wj-footnote-list")) == 1)
            .collect();
        if items.len() != n {
            return out.fail("footnote block", format!("{} entries for {n} footnotes", items.len()));
        }
        for (i, item) in items.iter().enumerate() {
            let number = (i + 1).to_string();
            let marker = dom.child_of_class(*item, "wj-footnote-list-item-marker").map(|m| dom.text(m));
            if dom.attr(*item, "data-id") != Some(number.as_str()) || marker != Some(format!("{number}.")) {
                return out.fail(
                    "footnote numbers",
                    format!("entry {number} is shown as {:?}, {marker:?}", dom.attr(*item, "data-id")),
                );
            }
            let text = dom.child_of_class(*item, "wj-footnote-list-item-contents").map(|c| unnumbered(ran, c));
            if text.as_ref() != Some(&previews[i]) {
                return out.fail(
                    "footnote contents",
                    format!("entry {number} shows {text:?}, its reference {:?}", previews[i]),
                );
            }
        }
    }
    out.count("footnotes compared", n as u64);
}

// ---- P11 ---------------------------------------------------------------------

fn letters(s: &str) -> String {
    s.split_whitespace().collect()
}

fn contents(out: &mut Outcome, tree: &SyntaxTree, ran: &Ran) {
    let mut entries = vec![];
    if let Err(e) = toc_entries(&tree.table_of_contents, 0, &mut entries) {
        return out.fail("table of contents", e);
    }
    let heads: Vec<&(usize, bool, Option<String>, bool)> = ran.tree.heads.iter().filter(|h| h.1).collect();
    let certain = ran.unclean || ran.model.is_some() || !ran.source.to_lowercase().contains("[[bibliography");
    if !certain {
        return;
    }
    if heads.len() != entries.len() {
        return out.fail(
            "table of contents",
            format!("{} entries for {} headings", entries.len(), heads.len()),
        );
    }
    for (i, (entry, head)) in entries.iter().zip(&heads).enumerate() {
        if entry.1 != format!("#toc{i}") {
            return out.fail("entry address", format!("entry {i} links to {}", entry.1));
        }
        if entry.0 != head.0 {
            return out.fail(
                "entry level",
                format!("entry {i} is at depth {}, its heading of level {}", entry.0, head.0),
            );
        }
        if let Some(text) = &head.2 {
            if letters(text) != letters(&entry.2) {
                return out.fail("entry text", format!("entry {i} is {:?}, its heading {text:?}", entry.2));
            }
        }
    }
    if let Some(model) = &ran.model {
        let held: Vec<(usize, Vec<usize>)> = entries.iter().map(|e| (e.0, atoms_in(&e.2))).collect();
        let asked: Vec<(usize, Vec<usize>)> =
            model.heads.iter().filter(|h| h.1).map(|h| (h.0, h.2.clone())).collect();
        let right = if ran.clean {
            held == asked
        } else {
            // Constructs which hide words may have become text.
            let mut rest = ran.loose.as_ref().unwrap_or(model).heads.iter().filter(|h| h.1);
            held.iter().all(|e| {
                rest.any(|h| {
                    h.0 == e.0 && h.2.iter().all(|w| e.1.contains(w)) && e.1.iter().all(|w| h.3.contains(w))
                })
            })
        };
        if !right {
            return out.fail("table of contents", format!("entries {held:?}, the document has {asked:?}"));
        }
    }
    // In the HTML.
    let dom = &ran.dom;
    let copies = ["wj-footnote-list", "wj-bibliography-ref"];
    if heads.iter().any(|h| h.3) && !ran.unclean {
        out.count("documents with headings in footnotes (not compared with the HTML)", 1);
        return;
    }
    let shown: Vec<usize> = (1..dom.els.len())
        .filter(|e| {
            let t = &dom.els[*e].tag;
            t.len() == 2 && t.starts_with('h') && t != "hr" && !in_class(dom, *e, &copies)
        })
        .collect();
    let hidden_bib = ran.tree.hidden_bib && ran.model.is_none();
    if hidden_bib {
        return;
    }
    if shown.len() != ran.tree.heads.len() {
        return out.fail(
            "headings",
            format!("{} headings are shown of {}", shown.len(), ran.tree.heads.len()),
        );
    }
    let mut i = 0;
    for (el, head) in shown.iter().zip(&ran.tree.heads) {
        let tag = &dom.els[*el].tag;
        if *tag != format!("h{}", head.0) {
            return out.fail("headings", format!("a heading of level {} is shown as <{tag}>", head.0));
        }
        let id = dom.attr(*el, "id").unwrap_or("");
        if !head.1 {
            if id.starts_with("toc") {
                return out.fail("headings", format!("a heading which is not listed has the id {id}"));
            }
            continue;
        }
        if id != format!("toc{i}") {
            return out.fail("entry address", format!("heading {i} has the id {id}"));
        }
        let text = dom.text_without(*el, &|d, e| {
            ["wj-footnote-ref", "wj-footnote-list", "wj-bibliography-ref", "wj-hidden", "wj-invisible"]
                .iter()
                .any(|c| d.is(e, c))
                || d.attr(e, "id") == Some("wj-toc")
        });
        if atoms_in(&letters(&text)) != atoms_in(&letters(&entries[i].2)) {
            return out.fail("entry text", format!("entry {i} is {:?}, its heading shows {text:?}", entries[i].2));
        }
        i += 1;
    }
    // Each table of contents which is shown.
    let mut tocs: Vec<Vec<usize>> = vec![];
    let mut last = 0;
    for el in 1..dom.els.len() {
        if dom.attr(el, "id") != Some("wj-toc-list") {
            continue;
        }
        if el < last || in_class(dom, el, &copies) || dom.within(el, "wj-footnote-ref") {
            continue;
        }
        last = dom.els[el].end;
        tocs.push(
            (el..last)
                .filter(|a| dom.attr(*a, "data-link-type") == Some("table-of-contents"))
                .collect(),
        );
    }
    if tocs.len() != ran.tree.tocs {
        return out.fail("table of contents", format!("{} are shown instead of {}", tocs.len(), ran.tree.tocs));
    }
    for links in &tocs {
        let held: Vec<(usize, String, String)> = links
            .iter()
            .map(|a| {
                let depth = dom.depth_within(*a, &|d, e| d.els[e].tag == "ul" && {
                    // Lists of the table itself.
                    let mut p = e;
                    while p != 0 && d.attr(p, "id") != Some("wj-toc-list") {
                        p = d.els[p].parent;
                    }
                    p != 0
                });
                (depth, dom.attr(*a, "href").unwrap_or("").to_string(), dom.text(*a))
            })
            .collect();
        let asked: Vec<(usize, String, String)> =
            entries.iter().map(|e| (e.0, e.1.clone(), e.2.replace('\0', " "))).collect();
        if held != asked {
            return out.fail("table of contents", format!("shown are {held:?}, of {asked:?}"));
        }
    }
    if ran.clean {
        if let Some(model) = &ran.model {
            if model.tocs != ran.tree.tocs {
                return out.fail("table of contents", format!("{} instead of {}", ran.tree.tocs, model.tocs));
            }
        }
    }
    out.count("headings compared", heads.len() as u64);
}

// ---- P12 ---------------------------------------------------------------------

fn codes(out: &mut Outcome, tree: &SyntaxTree, ran: &Ran) {
    let certain = ran.unclean || ran.model.is_some() || !ran.source.to_lowercase().contains("[[bibliography");
    if !certain {
        return;
    }
    let listed: Vec<String> = tree.code_blocks.iter().map(|c| c.contents.to_string()).collect();
    let held: Vec<String> = ran.tree.codes.iter().map(|c| c.0.clone()).collect();
    if listed != held {
        return out.fail("code blocks", format!("the tree lists {listed:?} and holds {held:?}"));
    }
    let html: Vec<String> = tree.html_blocks.iter().map(|c| c.to_string()).collect();
    let held: Vec<String> = ran.tree.htmls.iter().map(|c| c.0.clone()).collect();
    if html != held {
        return out.fail("HTML blocks", format!("the tree lists {html:?} and holds {held:?}"));
    }
    let mut names = BTreeSet::new();
    for c in &tree.code_blocks {
        if let Some(name) = &c.name {
            if !names.insert(name.to_string()) {
                return out.fail("code block names", format!("two code blocks are called {name}"));
            }
        }
    }
    if let Some(model) = &ran.model {
        let held: Vec<(String, Option<String>, Option<String>)> = tree
            .code_blocks
            .iter()
            .zip(&ran.tree.codes)
            .map(|(c, e)| (c.contents.to_string(), c.name.as_ref().map(|n| n.to_string()), e.1.clone()))
            .collect();
        let right = if ran.clean { held == model.codes } else { subsequence(&held, &model.every_code) };
        if !right {
            return out.fail("code blocks", format!("the tree has {held:?}, the document {:?}", model.codes));
        }
        let right = if ran.clean { html == model.htmls } else { subsequence(&html, &model.every_html) };
        if !right {
            return out.fail("HTML blocks", format!("the tree has {html:?}, the document {:?}", model.htmls));
        }
    }
    // In the HTML.
    if ran.tree.hidden_bib && ran.model.is_none() {
        return;
    }
    let dom = &ran.dom;
    let copies = ["wj-footnote-list", "wj-bibliography-ref"];
    let shown: Vec<(String, Option<String>)> = (1..dom.els.len())
        .filter(|e| dom.els[*e].tag == "wj-code" && !in_class(dom, *e, &copies))
        .map(|e| {
            let code = dom.of_tag(e, "pre").first().map(|p| dom.text(*p)).unwrap_or_default();
            let language = dom.attr(e, "class").and_then(|c| {
                c.split(' ')
                    .find_map(|c| c.strip_prefix("wj-language-"))
                    .map(str::to_string)
            });
            (code, language)
        })
        .collect();
    let asked: Vec<(String, Option<String>)> = ran
        .tree
        .codes
        .iter()
        .map(|c| (c.0.replace('\0', " "), Some(c.1.as_ref().map_or("none".into(), |l| l.split(' ').next().unwrap_or("").to_string()))))
        .collect();
    if shown.len() != asked.len()
        || shown.iter().zip(&asked).any(|(a, b)| a.0 != b.0 || (ran.model.is_some() && a.1 != b.1))
    {
        return out.fail("code shown", format!("shown are {shown:?}, of {asked:?}"));
    }
    let notes = ran.tree.codes.iter().any(|c| c.2) || ran.tree.htmls.iter().any(|h| h.1);
    let cited = !ran.tree.cites.is_empty() && !ran.tree.bibs.is_empty();
    if !notes && !cited {
        let sent: Vec<(usize, String)> = held_indexed(&ran.tree.codes);
        if ran.record.code != sent {
            return out.fail(
                "code given to the site",
                format!("the site got {:?} instead of {sent:?}", ran.record.code),
            );
        }
        if ran.record.html != html {
            return out.fail("HTML given to the site", format!("the site got {:?} of {html:?}", ran.record.html));
        }
    }
    out.count("blocks compared", (listed.len() + html.len()) as u64);
}

fn held_indexed(codes: &[(String, Option<String>, bool)]) -> Vec<(usize, String)> {
    codes.iter().enumerate().map(|(i, c)| (i + 1, c.0.clone())).collect()
}

// ---- P13 ---------------------------------------------------------------------

fn cites(out: &mut Outcome, tree: &SyntaxTree, ran: &Ran) {
    let dom = &ran.dom;
    // Bibliographies in the tree are those of the document, each once.
    let indices: Vec<usize> = ran.tree.bibs.iter().map(|b| b.0).collect();
    if ran.model.is_some() && indices != (0..tree_bibs(tree)).collect::<Vec<_>>() {
        return out.fail(
            "bibliographies",
            format!("blocks {indices:?} for {} bibliographies", tree_bibs(tree)),
        );
    }
    let held: Vec<Vec<(String, Vec<usize>)>> = (0..tree_bibs(tree))
        .map(|i| {
            tree.bibliographies
                .get_bibliography(i)
                .slice()
                .iter()
                .map(|(l, c)| (l.to_string(), words_of(c)))
                .collect()
        })
        .collect();
    for b in &held {
        for (i, e) in b.iter().enumerate() {
            if b[..i].iter().any(|x| x.0 == e.0) {
                return out.fail("bibliography labels", format!("{} occurs twice in {b:?}", e.0));
            }
        }
    }
    if let Some(model) = &ran.model {
        if ran.clean {
            let asked: Vec<&Vec<(String, Vec<usize>)>> = model.bibs.iter().map(|b| &b.2).collect();
            let same = held.len() == asked.len()
                && held.iter().zip(&model.bibs).zip(&ran.tree.bibs).all(|((h, m), t)| {
                    let labels = h.iter().map(|e| &e.0).eq(m.2.iter().map(|e| &e.0));
                    // Words of hidden ones are not counted as shown.
                    labels && (m.1 || *h == m.2) && t.2 == m.1 && t.1.is_some() == m.0
                });
            if !same {
                return out.fail("bibliographies", format!("the tree has {held:?}, the document {asked:?}"));
            }
            if !ran.tree.hidden_bib && model.cites != ran.tree.cites {
                return out.fail(
                    "citations",
                    format!("the tree has {:?}, the document {:?}", ran.tree.cites, model.cites),
                );
            }
        }
    }
    if tree.footnotes.len() != ran.tree.notes {
        return; // footnotes in entries which are not displayed, see P10
    }
    // The blocks in the HTML.
    let copies = ["wj-footnote-list", "wj-bibliography-ref"];
    let shown: Vec<usize> = dom
        .of_class(0, "wj-bibliography")
        .into_iter()
        .filter(|e| !in_class(dom, *e, &copies))
        .collect();
    let blocks: Vec<&(usize, Option<String>, bool)> = ran.tree.bibs.iter().filter(|b| !b.2).collect();
    if shown.len() != blocks.len() {
        return out.fail("bibliographies", format!("{} are shown of {}", shown.len(), blocks.len()));
    }
    for (el, block) in shown.iter().zip(&blocks) {
        let title = dom.child_of_class(*el, "wj-bibliography-title").map(|t| dom.text(t));
        if title.is_none() || block.1.is_some() && title != block.1.as_ref().map(|t| t.replace('\0', " ")) {
            return out.fail("bibliographies", format!("the title is {title:?} instead of {:?}", block.1));
        }
        let Some(bib) = held.get(block.0) else {
            return out.fail("bibliographies", format!("block {} has no entries", block.0));
        };
        let items: Vec<usize> = dom.els[*el]
            .kids
            .iter()
            .filter_map(|k| match k {
                crate::html::Kid::El(i) if dom.is(*i, "wj-bibliography-item") => Some(*i),
                _ => None,
            })
            .collect();
        if items.len() != bib.len() {
            return out.fail("bibliographies", format!("{} entries are shown of {}", items.len(), bib.len()));
        }
        for (i, (item, entry)) in items.iter().zip(bib).enumerate() {
            let (b, e) = (block.0 + 1, i + 1);
            let id = format!("wj-bibliography-item-{b}-{e} bibitem-{b}-{e}");
            let marker = dom.child_of_class(*item, "wj-bibliography-item-marker").map(|m| dom.text(m));
            if dom.attr(*item, "id") != Some(id.as_str()) || marker != Some(format!("{e}.")) {
                return out.fail(
                    "entry numbers",
                    format!("entry {e} of bibliography {b} is {:?}, {marker:?}", dom.attr(*item, "id")),
                );
            }
            let text = dom.text_without(*item, &|d, x| d.is(x, "wj-bibliography-ref") || d.is(x, "wj-footnote-ref"));
            let elements = entry_of(tree, block.0, i);
            if sure(ran, elements).is_some_and(|w| w != atoms_in(&text)) {
                return out.fail("entry contents", format!("entry {e} shows {text:?} of {entry:?}"));
            }
        }
    }
    // The citations: where each of them leads.
    let missing = "Bibliography item not found";
    let refs: Vec<usize> = (1..dom.els.len())
        .filter(|e| {
            (dom.is(*e, "wj-bibliography-ref")
                || dom.is(*e, "wj-error-inline") && dom.els[*e].kids.len() == 1 && dom.text(*e) == missing)
                && !in_class(dom, *e, &copies)
        })
        .collect();
    if refs.len() != ran.tree.cites.len() {
        return out.fail("citations", format!("{} are shown of {}", refs.len(), ran.tree.cites.len()));
    }
    for (el, label) in refs.iter().zip(&ran.tree.cites) {
        let found = held.iter().enumerate().find_map(|(b, bib)| {
            let at = bib.iter().position(|e| e.0 == *label)?;
            Some((b, at))
        });
        let is_ref = dom.is(*el, "wj-bibliography-ref");
        let Some((b, at)) = found else {
            if is_ref {
                return out.fail("citations", format!("{label} is cited, which nothing defines"));
            }
            continue;
        };
        if !is_ref {
            return out.fail("citations", format!("{label} is said not to exist"));
        }
        let number = (at + 1).to_string();
        let marker = dom.child_of_class(*el, "wj-bibliography-ref-marker");
        let numbers = marker.map(|m| (dom.text(m), dom.attr(m, "data-id").unwrap_or("").to_string()));
        if numbers != Some((number.clone(), number.clone())) {
            return out.fail("citation numbers", format!("{label} is {number}, shown as {numbers:?}"));
        }
        let contents = dom.of_class(*el, "wj-bibliography-ref-contents");
        let Some(contents) = contents.first() else {
            return out.fail("citations", format!("{label} is cited without its contents"));
        };
        let text = dom.text_without(*contents, &|d, x| d.is(x, "wj-bibliography-ref") || d.is(x, "wj-footnote-ref"));
        let elements = entry_of(tree, b, at);
        if sure(ran, elements).is_some_and(|w| w != atoms_in(&text)) {
            return out.fail(
                "citation contents",
                format!("{label} shows {text:?}, it has the words {:?}", held[b][at].1),
            );
        }
    }
    out.count("citations compared", refs.len() as u64);
}

fn tree_bibs(tree: &SyntaxTree) -> usize {
    tree.bibliographies.next_index()
}

fn entry_of<'a>(tree: &'a SyntaxTree, bib: usize, entry: usize) -> &'a [ftml::tree::Element<'a>] {
    &tree.bibliographies.get_bibliography(bib).slice()[entry].1
}

/// The words shown of these elements, if that is known.
fn sure(ran: &Ran, elements: &[ftml::tree::Element]) -> Option<Vec<usize>> {
    let mut text = String::new();
    if ran.model.is_some() {
        Some(words_of(elements))
    } else {
        simple_text(elements, true, &mut text).then(|| atoms_in(&text))
    }
}

// ---- P14 ---------------------------------------------------------------------

/// Marks which never swallow the words around them, however they are put
/// together.
pub const MARKS: &[&str] = &[
    "**", "//", "__", "^^", ",,", "{{", "}}", "--", "~~", "@@", "||", "||~", "||=", "\n", "\n\n", "\n", "\n\n", "\n* ", "\n# ", "\n * ",
    "\n> ", "\n>> ", "\n+ ", "\n++ ", "\n+* ", "\n: ", " : ", "\n= ", "\n----\n", "\n~~~~\n", "\n||", "||\n", " _\n", "((", "))", " ]] ",
    " ] ", "{", "}", "<<", ">>", "``", "''", "...", "[[div]]", "\n[[div]]\n", "[[/div]]", "\n[[/div]]\n", "[[span]]", "[[/span]]", "[[div_]]",
    "[[span_]]", "[[footnote]]", "[[/footnote]]", "\n[[ul]]\n", "[[li]]", "[[/li]]", "\n[[/ul]]\n", "[[ol]]", "[[/ol]]",
    "\n[[table]]\n", "[[row]]", "[[cell]]", "[[/cell]]", "[[/row]]", "\n[[/table]]\n", "[[hcell]]", "[[/hcell]]", "\n[[tabview]]\n",
    "\n[[tab x]]\n", "\n[[/tab]]\n", "\n[[/tabview]]\n", "\n[[collapsible]]\n", "\n[[/collapsible]]\n", "[[size 90%]]", "[[/size]]",
    "\n[[=]]\n", "\n[[/=]]\n", "\n[[<]]\n", "\n[[/<]]\n", "\n[[==]]\n", "\n[[/==]]\n", "[[b]]", "[[/b]]", "[[i]]", "[[/i]]", "[[u]]",
    "[[/u]]", "[[s]]", "[[/s]]", "[[sup]]", "[[/sup]]", "[[sub]]", "[[/sub]]", "[[tt]]", "[[/tt]]", "[[mark]]", "[[/mark]]", "[[ins]]",
    "[[/ins]]", "[[del]]", "[[/del]]", "[[a href=\"/x\"]]", "[[/a]]", "[[a]]", "\n[[blockquote]]\n", "\n[[/blockquote]]\n",
    "[[ruby]]", "[[rt]]", "[[/rt]]", "[[/ruby]]", "[[rb a|b]]", "[[hidden]]", "[[/hidden]]", "[[invisible]]", "[[/invisible]]",
    "\n[[iftags +tale]]\n", "\n[[/iftags]]\n", "\n[[p]]\n", "\n[[/p]]\n", "[[lines 2]]", "[[checkbox]]", "[[char 65]]", "[[later]]",
    "\n[[bibliography]]\n", "\n[[/bibliography]]\n", "\n: lab : ", "((bibcite lab))", "[[footnoteblock]]", "[[/code]]", "[[/html]]",
    "[[/math]]", "[[/module]]", "[[*a href=\"/y\"]]", "[[unknown]]", "[[/unknown]]", "[[/div ", "[[/span ", "[[/b ", "[[div ",
    "[[span ", "[[cell ", "[[/footnote ", "[[/li ", " ]]", "]]", "]] ", "[#top ", "[*https://y.example/ ", "[/y ", "[[[page|x", "[[[*page|x", "##red|x", "$]]", "@<", ">@",
    "--]", "\u{a0}", " ", " ", " ", "_", "'", "\"", "|", "=", "+", "*", ":", "&", "\\",
];

const WORD: u16 = 1000;

fn mark(m: &str) -> u16 {
    MARKS.iter().position(|x| *x == m).unwrap() as u16
}

fn marks(rng: &mut Rng) -> DocCase {
    // Each text prefers a few of the marks.
    let any = |rng: &mut Rng| rng.below(MARKS.len()) as u16;
    let favourites: Vec<u16> = (0..rng.range(1, 6)).map(|_| any(rng)).collect();
    let mut pieces = vec![];
    for _ in 0..rng.range(2, 30) {
        if rng.chance(1, 2) {
            pieces.push(WORD);
            match rng.below(4) {
                0 => pieces.push(mark(" ")),
                1 => pieces.push(mark("\n")),
                _ => (),
            }
        }
        pieces.push(if rng.chance(2, 3) { *rng.pick(&favourites) } else { any(rng) });
    }
    pieces.push(WORD);
    DocCase {
        pieces,
        conf: page_conf(rng),
        faults: if rng.chance(1, 3) {
            super::robust::random_faults(rng, 2)
        } else {
            Default::default()
        },
        ..DocCase::default()
    }
}

fn show(list: &[usize]) -> String {
    let list: Vec<String> = list.iter().map(|n| gen::atom(*n)).collect();
    list.join(" ")
}

fn words(out: &mut Outcome, case: &DocCase, ran: &Ran) {
    let dom = &ran.dom;
    // The words in place: without the copies in previews and the footnote
    // block, and without the table of contents.
    let html = dom.text_without(0, &|d, e| {
        d.is(e, "wj-footnote-list") || d.is(e, "wj-bibliography-ref") || d.attr(e, "id") == Some("wj-toc")
    });
    let html = atoms_in(&html);
    let expected: Vec<usize> = match &ran.model {
        Some(m) => m.words.clone(),
        None => atoms_in(&ran.source),
    };
    let gone = |n: &usize| ran.model.as_ref().is_some_and(|m| m.gone.contains(n));
    let judge = |out: &mut Outcome, what: &str, held: &[usize], expected: &[usize]| {
        let in_order = held.windows(2).all(|w| w[0] < w[1]);
        if !in_order {
            return out.fail("words repeated or out of order", format!("{what}: {}", show(held)));
        }
        let lost: Vec<usize> = expected.iter().filter(|n| !held.contains(n)).copied().collect();
        if !lost.is_empty() {
            return out.fail("words lost", format!("{what} lacks {}", show(&lost)));
        }
        let extra: Vec<usize> = held
            .iter()
            .filter(|n| !expected.contains(n) && (ran.clean || !gone(n)))
            .copied()
            .collect();
        if !extra.is_empty() {
            out.fail("words which should not be shown", format!("{what} shows {}", show(&extra)));
        }
    };
    // An entry of a label which is taken is not shown, with all its words.
    let expected: Vec<usize> = if ran.model.is_none() {
        let dropped = ran.source.matches(": lab : ").count() > 1;
        if dropped && !ran.unclean {
            let in_order = html.windows(2).all(|w| w[0] < w[1]);
            if !in_order {
                out.fail("words repeated or out of order", format!("the HTML: {}", show(&html)));
            }
            return;
        }
        expected
    } else {
        expected
    };
    judge(out, "the HTML", &html, &expected);
    if out.failed() {
        return;
    }
    // The text has what is neither hidden, nor in a footnote or bibliography.
    let visible = dom.text_without(0, &|d, e| {
        [
            "wj-footnote-list",
            "wj-footnote-ref",
            "wj-bibliography-ref",
            "wj-bibliography",
            "wj-hidden",
            "wj-invisible",
        ]
        .iter()
        .any(|c| d.is(e, c))
            || d.attr(e, "id") == Some("wj-toc")
    });
    let text = atoms_in(&ran.text);
    let visible = atoms_in(&visible);
    if text != visible {
        out.fail(
            "the text differs from the HTML",
            format!("the text has {}, the HTML {}", show(&text), show(&visible)),
        );
    }
    let _ = case;
    out.count("words compared", html.len() as u64);
}
