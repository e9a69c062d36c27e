//! P04 includer failures, P05 mismatched responses, P06 substitution,
//! P07 arguments: `include` against a small reference implementation, with a
//! simulated page store which fails, answers wrongly and changes.

use crate::gen;
use crate::ops::{self, Conf};
use crate::rng::{hash_str, mix, Rng};
use crate::runner::{Outcome, Prop};
use crate::trace::{self, harness, Budget, End};
use ftml::data::PageRef;
use ftml::includes::{FetchedPage, IncludeRef, Includer};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

// ---- reference ------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub struct Block {
    pub start: usize,
    pub end: usize,
    pub site: Option<String>,
    pub page: String,
    pub args: Vec<(String, String)>,
}

impl Block {
    fn key(&self) -> String {
        match &self.site {
            Some(s) => format!(":{s}:{}", self.page),
            None => self.page.clone(),
        }
    }

    /// The value which counts for each name.
    fn values(&self) -> BTreeMap<String, String> {
        let mut map = BTreeMap::new();
        for (k, v) in &self.args {
            if !map.contains_key(k) && v.trim() != format!("{{${k}}}") {
                map.insert(k.clone(), v.clone());
            }
        }
        map
    }
}

struct Cursor<'s> {
    s: &'s str,
    at: usize,
}

impl Cursor<'_> {
    fn rest(&self) -> &str {
        &self.s[self.at..]
    }
    fn eat(&mut self, lit: &str) -> bool {
        let ok = self.rest().starts_with(lit);
        if ok {
            self.at += lit.len();
        }
        ok
    }
    fn eat_word(&mut self, word: &str) -> bool {
        let ok = self
            .rest()
            .get(..word.len())
            .map_or(false, |w| w.eq_ignore_ascii_case(word));
        if ok {
            self.at += word.len();
        }
        ok
    }
    fn space(&mut self) -> bool {
        let n = self.rest().bytes().take_while(|b| b" \n\t".contains(b)).count();
        self.at += n;
        n > 0
    }
    fn at_end(&self) -> bool {
        let r = self.rest();
        r.starts_with("]]") && (r.len() == 2 || r[2..].starts_with(['\n', '\r']))
    }
    fn run(&mut self, stop: &[char]) -> bool {
        let n = self.rest().find(stop).unwrap_or(self.rest().len());
        self.at += n;
        n > 0
    }
    fn argument(&mut self) -> Option<(String, String)> {
        let back = self.at;
        let name_len = self
            .rest()
            .bytes()
            .take_while(|b| b.is_ascii_alphanumeric() || *b == b'-' || *b == b'_')
            .count();
        let name = self.rest()[..name_len].to_string();
        self.at += name_len;
        if name_len > 0 {
            self.space();
            if self.eat("=") {
                self.space();
                let from = self.at;
                while let Some(c) = self.rest().chars().next() {
                    if c == '|' || self.at_end() {
                        break;
                    }
                    self.at += c.len_utf8();
                }
                if self.at > from {
                    return Some((name, self.s[from..self.at].to_string()));
                }
            }
        }
        self.at = back;
        None
    }
}

fn block_at(s: &str, start: usize) -> Option<Block> {
    let mut c = Cursor { s, at: start };
    if !c.eat("[[") {
        return None;
    }
    c.space();
    if !c.eat_word("include") || !c.space() {
        return None;
    }
    // Page reference, perhaps with a site.
    let from = c.at;
    let page_stop = [' ', '\n', '\t', '[', '|', ']'];
    let site_stop = [' ', '\n', '\t', '[', '|', ']', ':'];
    if c.eat(":") && !(c.run(&site_stop) && c.eat(":")) {
        c.at = from;
    }
    if !c.run(&page_stop) {
        return None;
    }
    let raw = s[from..c.at].trim();
    let (site, page) = match raw.strip_prefix(':') {
        Some(tail) => {
            let (site, page) = tail.split_once(':')?;
            if site.is_empty() {
                return None;
            }
            (Some(site.trim().to_string()), page.trim().to_string())
        }
        None if raw.is_empty() => return None,
        None => (None, raw.to_string()),
    };
    c.space();
    if c.eat("|") {
        c.space();
    }
    let mut args = vec![];
    while let Some(arg) = c.argument() {
        args.push(arg);
        c.space();
        if !c.eat("|") {
            break;
        }
        c.space();
    }
    c.space();
    if !c.at_end() {
        return None;
    }
    Some(Block {
        start,
        end: c.at + 2,
        site,
        page,
        args,
    })
}

/// All include blocks of a text.
pub fn find_blocks(s: &str) -> Vec<Block> {
    let mut out = vec![];
    let mut at = 0;
    loop {
        if s[at..].starts_with("[[") {
            if let Some(b) = block_at(s, at) {
                at = b.end;
                out.push(b);
            }
        }
        // The next line.
        match s[at..].find('\n') {
            Some(n) => at += n + 1,
            None => return out,
        }
    }
}

fn expand_values(content: &str, values: &BTreeMap<String, String>) -> String {
    let mut out = String::new();
    let mut rest = content;
    while let Some(at) = rest.find("{$") {
        out.push_str(&rest[..at]);
        rest = &rest[at..];
        let n = rest[2..]
            .bytes()
            .take_while(|b| b.is_ascii_alphanumeric() || *b == b'-' || *b == b'_')
            .count();
        let name = &rest[2..2 + n];
        if n > 0 && rest[2 + n..].starts_with('}') {
            match values.get(name) {
                Some(v) => out.push_str(v),
                None => out.push_str(&rest[..n + 3]),
            }
            rest = &rest[n + 3..];
        } else {
            out.push_str("{$");
            rest = &rest[2..];
        }
    }
    out.push_str(rest);
    out
}

// ---- cases ----------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Seg {
    /// Any text.
    T(String),
    /// A line of its own with an include block.
    Inc {
        page: u8,
        /// (name, value, how it is separated from the next)
        args: Vec<(u8, String, u8)>,
        style: u8,
    },
    /// A variable.
    V(u8),
}

const NAMES: &[&str] = &["a", "name", "width", "a-b", "a_b", "A", "x1", "0", "na"];
const REFS: &[&str] = &[
    "p1", "cat:p2", "p3", ":other:p1", ":other:cat:p2", "missing", "\u{e9}\u{4e2d}", "P1", "p1/x", ":sandbox:p1",
];

fn emit(segs: &[Seg]) -> String {
    let mut out = String::new();
    for s in segs {
        match s {
            Seg::T(t) => out.push_str(t),
            Seg::V(n) => out.push_str(&format!("{{${}}}", NAMES[*n as usize % NAMES.len()])),
            Seg::Inc { page, args, style } => {
                if !out.is_empty() && !out.ends_with('\n') {
                    out.push('\n');
                }
                let page = REFS[*page as usize % REFS.len()];
                let open = match style % 5 {
                    0 | 1 => "[[include ",
                    2 => "[[ include\n",
                    3 => "[[INCLUDE ",
                    _ => "[[\tInclude \t ",
                };
                out.push_str(open);
                out.push_str(page);
                if style & 8 != 0 {
                    out.push_str(" |");
                }
                for (i, (name, value, sep)) in args.iter().enumerate() {
                    if i == 0 {
                        out.push_str(if sep & 8 == 0 { " " } else { "\n\t" });
                    }
                    out.push_str(NAMES[*name as usize % NAMES.len()]);
                    out.push_str(if sep & 16 == 0 { "=" } else { " = " });
                    out.push_str(value);
                    if i + 1 < args.len() {
                        out.push_str(match sep % 5 {
                            0 => "|",
                            1 => " | ",
                            2 => " |\n",
                            3 => "\n| ",
                            _ => "\t|\t",
                        });
                    }
                }
                if style & 16 != 0 && !args.is_empty() {
                    out.push_str(" | ");
                }
                if style & 32 != 0 {
                    out.push('\n');
                }
                out.push_str("]]\n");
            }
        }
    }
    out
}

/// What the page store does in one attempt.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Fault {
    /// Fetching fails.
    Fetch(u64),
    /// The n-th request for a replacement of a missing page fails.
    Missing(u64, u64),
    Drop(u64),
    Duplicate(u64),
    Swap(u64, u64),
    Rename(u64, u8),
    Extra(u8),
    Reverse,
    Empty,
}

impl Fault {
    fn name(&self) -> &'static str {
        match self {
            Fault::Fetch(_) => "fault.fetching failed",
            Fault::Missing(..) => "fault.replacing a missing page failed",
            Fault::Drop(_) => "fault.page lost from the answer",
            Fault::Duplicate(_) => "fault.page duplicated in the answer",
            Fault::Swap(..) => "fault.pages swapped in the answer",
            Fault::Rename(..) => "fault.answer for another page",
            Fault::Extra(_) => "fault.page added to the answer",
            Fault::Reverse => "fault.answer reversed",
            Fault::Empty => "fault.answer empty",
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    conf: Conf,
    text: Vec<Seg>,
    /// By page reference; an absent page has no content.
    store: BTreeMap<String, Vec<Seg>>,
    /// Attempts in order, each with its faults; an attempt which succeeds
    /// makes its output the text of the next.
    attempts: Vec<Vec<Fault>>,
    /// Whether the content of a page differs at each position and attempt.
    versions: bool,
    /// Whether the replacement for missing pages is empty.
    quiet: bool,
}

#[derive(Clone, Debug, PartialEq)]
enum Err {
    Fetch(u64),
    Missing(u64),
    Invalid,
}

#[derive(Default, Debug)]
struct Log {
    asked: Vec<Vec<(Option<String>, String, BTreeMap<String, String>)>>,
    missing: Vec<String>,
    failed: Option<Err>,
    after_failure: u64,
    fired: Vec<&'static str>,
    /// What the last answer held: (site, page, content).
    answered: Vec<(Option<String>, String, Option<String>)>,
}

struct Sim<'c> {
    store: &'c BTreeMap<String, String>,
    faults: &'c [Fault],
    attempt: usize,
    versions: bool,
    quiet: bool,
    log: &'c RefCell<Log>,
}

fn content(store: &BTreeMap<String, String>, key: &str, versions: bool, attempt: usize, i: usize) -> Option<String> {
    let base = store.get(key)?;
    Some(if versions {
        format!("{base}<{attempt}.{i}>")
    } else {
        base.clone()
    })
}

fn replacement(key: &str, quiet: bool) -> String {
    if quiet {
        String::new()
    } else {
        format!("MISSING {key} {{$a}}")
    }
}

impl<'t> Includer<'t> for Sim<'_> {
    type Error = Err;

    fn include_pages(&mut self, includes: &[IncludeRef<'t>]) -> Result<Vec<FetchedPage<'t>>, Err> {
        harness(|| {
            let mut log = self.log.borrow_mut();
            if log.failed.is_some() {
                log.after_failure += 1;
            }
            log.asked.push(
                includes
                    .iter()
                    .map(|i| {
                        (
                            i.page_ref().site().map(str::to_string),
                            i.page_ref().page().to_string(),
                            i.variables()
                                .iter()
                                .map(|(k, v)| (k.to_string(), v.to_string()))
                                .collect(),
                        )
                    })
                    .collect(),
            );
            let mut pages: Vec<FetchedPage<'t>> = includes
                .iter()
                .enumerate()
                .map(|(i, inc)| FetchedPage {
                    page_ref: inc.page_ref().clone(),
                    content: content(
                        self.store,
                        &inc.page_ref().to_string(),
                        self.versions,
                        self.attempt,
                        i,
                    )
                    .map(Cow::Owned),
                })
                .collect();
            for f in self.faults {
                let n = pages.len();
                let pos = |i: &u64| (*i as usize) % n.max(1);
                let before = pages.clone();
                match f {
                    Fault::Fetch(e) => {
                        log.fired.push(f.name());
                        log.failed = Some(Err::Fetch(*e));
                        return Err(Err::Fetch(*e));
                    }
                    Fault::Missing(..) => continue,
                    Fault::Drop(i) if n > 0 => {
                        pages.remove(pos(i));
                    }
                    Fault::Duplicate(i) if n > 0 => {
                        let p = pages[pos(i)].clone();
                        pages.insert(pos(i), p);
                    }
                    Fault::Swap(i, j) if n > 1 => pages.swap(pos(i), pos(j)),
                    Fault::Rename(i, kind) if n > 0 => {
                        let r = &mut pages[pos(i)].page_ref;
                        match kind % 6 {
                            0 => r.page = Cow::Owned(format!("{}x", r.page)),
                            1 => {
                                r.site = match r.site {
                                    None => Some(Cow::Borrowed("sandbox")),
                                    Some(_) => None,
                                }
                            }
                            2 => r.page = Cow::Owned(r.page.to_uppercase()),
                            3 => r.page = Cow::Borrowed(""),
                            4 => {
                                if let Some(s) = &r.site {
                                    r.site = Some(Cow::Owned(format!("{s}2")));
                                } else {
                                    r.page = Cow::Owned(format!("_default:{}", r.page));
                                }
                            }
                            _ => {
                                let cut: String = r.page.chars().skip(1).collect();
                                r.page = Cow::Owned(cut);
                            }
                        }
                    }
                    Fault::Extra(k) => {
                        let p = FetchedPage {
                            page_ref: PageRef::page_only("extra"),
                            content: Some(Cow::Borrowed("EXTRA")),
                        };
                        let at = usize::from(*k) % (n + 1);
                        pages.insert(at, p);
                    }
                    Fault::Reverse => pages.reverse(),
                    Fault::Empty => pages.clear(),
                    _ => continue,
                }
                if pages != before {
                    log.fired.push(f.name());
                }
            }
            log.answered = pages
                .iter()
                .map(|p| {
                    (
                        p.page_ref.site().map(str::to_string),
                        p.page_ref.page().to_string(),
                        p.content.as_ref().map(|c| c.to_string()),
                    )
                })
                .collect();
            Ok(pages)
        })
    }

    fn no_such_include(&mut self, page: &PageRef<'t>) -> Result<Cow<'t, str>, Err> {
        harness(|| {
            let mut log = self.log.borrow_mut();
            if log.failed.is_some() {
                log.after_failure += 1;
            }
            let key = page.to_string();
            let n = log.missing.len() as u64;
            log.missing.push(key.clone());
            for f in self.faults {
                if let Fault::Missing(k, e) = f {
                    if *k == n {
                        log.fired.push(f.name());
                        log.failed = Some(Err::Missing(*e));
                        return Err(Err::Missing(*e));
                    }
                }
            }
            Ok(Cow::Owned(replacement(&key, self.quiet)))
        })
    }
}

// ---- generating -----------------------------------------------------------

const DECOYS: &[&str] = &[
    "x [[include p1]]\n", "[[include p1]] trailing\n", " [[include p1]]\n", "[[includes p1]]\n", "[[include]]\n",
    "[[include-elements p1]]\n", "> [[include p1]]\n", "[[include p1 a]]\n", "[[include :p1]]\n", "[[include ::p1]]\n",
    "[[include :x: a=1]]\n", "[[include p1|a=1|b=2||]]\n", "[[include p1 | | a=1]]\n", "[[includep1]]\n", "[[/include]]\n",
    "[[include p1 a=]]\n", "[[include p1 a==]]\n", "[[include p1\n]]\n", "[[include p1 a=1\n", "]]\n", "[[include p1]\n",
    "[[[include p1]]]\n", "[include p1]\n", "[[include p[1]]\n", "[!--\n[[include p1]]\n--]\n", "@@\n[[include p1]]\n@@\n",
    "[[include p1 a=1 | b=2 ]]x\n", "[[\r\ninclude p1]]\r\n", "[[include\u{a0}p1]]\n", "[[include \u{a0}p1]]\r", "[[include p1 a=x]]]\n",
    "[[include p1 a= b]] | c=]]\n",
];
const VALUES: &[&str] = &[
    "1", "two words", "{$a}", "{$name}", "{$width}", " {$a-b} ", "{$x}{$a}", "[[b]]x[[/b]] y", "$0 $1 ${name} \\1", "{$a",
    "}", "=", "a=b", "\u{1f600}\u{e9}", "line\nline", "[[include p1", "\n[[include p3", "\n[[include p3]] x", "]]", "]] ]", "x]]y", "[!--",
    "https://x.example/?a=b&c=d", "\"quoted\"", "", " ", "{$na}me", "{$$a}", "{{$a}}", "0",
];
const PIECES: &[&str] = &[
    "plain ", "text\n", "\n", "\n\n", "**b** ", "{$a}", "{$name} ", "{$ name}", "{$a-b}", "{$A}", "{a}", "{$}", "$a", "{$a}{$a}",
    "\u{e9}\u{4e2d}\u{1f600}", "\r\n", "{$x1}{$0}", "{{$a}}", "{$na}", "|", "]]\n", "\t", "{$width", "[[div]]\n", "{$a\u{e9}}",
];

struct Weights {
    blocks: usize,
    args: usize,
    vars: usize,
    decoys: usize,
    soup: usize,
}

fn segs(rng: &mut Rng, w: &Weights, max: usize) -> Vec<Seg> {
    let n = rng.range(0, max);
    (0..n)
        .map(|_| {
            let weights = [4, w.blocks, w.vars, w.decoys, w.soup];
            let total: usize = weights.iter().sum();
            let mut r = rng.below(total);
            let mut k = 0;
            while r >= weights[k] {
                r -= weights[k];
                k += 1;
            }
            match k {
                0 => Seg::T(rng.pick::<&str>(PIECES).to_string()),
                1 => {
                    let args = if rng.below(10) < w.args {
                        (0..rng.range(1, 5))
                            .map(|_| {
                                (
                                    rng.below(NAMES.len()) as u8,
                                    rng.pick::<&str>(VALUES).to_string(),
                                    rng.below(32) as u8,
                                )
                            })
                            .collect()
                    } else {
                        vec![]
                    };
                    Seg::Inc {
                        page: rng.below(REFS.len()) as u8,
                        args,
                        style: rng.below(64) as u8,
                    }
                }
                2 => Seg::V(rng.below(NAMES.len()) as u8),
                3 => Seg::T(rng.pick::<&str>(DECOYS).to_string()),
                _ => Seg::T(match rng.below(3) {
                    0 => gen::soup(rng, 8),
                    1 => {
                        let s = rng.pick::<String>(gen::corpus()).clone();
                        s
                    }
                    _ => {
                        let s = emit(&[Seg::Inc {
                            page: rng.below(REFS.len()) as u8,
                            args: vec![(0, "v".into(), 1), (1, "w".into(), 1)],
                            style: rng.below(64) as u8,
                        }]);
                        gen::damage(rng, &s).0
                    }
                }),
            }
        })
        .collect()
}

fn a_fault(rng: &mut Rng, kind: u8) -> Fault {
    let i = rng.below(6) as u64;
    match kind {
        4 => {
            if rng.chance(1, 2) {
                Fault::Fetch(rng.next() >> 40)
            } else {
                Fault::Missing(rng.below(3) as u64, rng.next() >> 40)
            }
        }
        _ => match rng.below(9) {
            0 => Fault::Drop(i),
            1 => Fault::Duplicate(i),
            2 => Fault::Swap(i, rng.below(6) as u64),
            3 | 4 => Fault::Rename(i, rng.below(6) as u8),
            5 => Fault::Extra(rng.below(6) as u8),
            6 => Fault::Reverse,
            7 => Fault::Empty,
            // Two at once, so that the number is right again.
            _ => Fault::Swap(i, i + 1),
        },
    }
}

fn make(rng: &mut Rng, kind: u8) -> Value {
    let w = match kind {
        4 | 5 => Weights { blocks: 6, args: 3, vars: 1, decoys: 2, soup: 1 },
        6 => Weights { blocks: 5, args: 4, vars: 1, decoys: 5, soup: 4 },
        _ => Weights { blocks: 5, args: 9, vars: 4, decoys: 1, soup: 1 },
    };
    let mut store = BTreeMap::new();
    for r in REFS {
        let p = match *r {
            "missing" => 0,
            "p1" | "cat:p2" | ":other:p1" => 9,
            _ => 6,
        };
        if rng.below(10) < p {
            let mut inner = Weights { ..w };
            if rng.chance(1, 2) {
                inner.blocks = 1;
            }
            inner.vars += 3;
            store.insert(r.to_string(), segs(rng, &inner, 5));
        }
    }
    let most = if rng.chance(1, 40) { 80 } else { 9 };
    let text = segs(rng, &w, most);
    let attempts = (0..rng.range(1, 5))
        .map(|_| {
            let faulty = match kind {
                4 | 5 => rng.chance(2, 3),
                _ => rng.chance(1, 6),
            };
            if !faulty {
                return vec![];
            }
            let k = match kind {
                4 | 5 => kind,
                _ => 4 + rng.below(2) as u8,
            };
            let mut f = vec![a_fault(rng, k)];
            if rng.chance(1, 4) {
                f.push(a_fault(rng, k));
            }
            f
        })
        .collect();
    serde_json::to_value(Case {
        conf: Conf {
            mode: if rng.chance(4, 5) { 0 } else { rng.below(5) as u8 },
            layout: rng.below(2) as u8,
            flip: if rng.chance(2, 3) { 0 } else { rng.below(64) as u8 },
        },
        text,
        store,
        attempts,
        versions: rng.chance(1, 2),
        quiet: rng.chance(1, 5),
    })
    .unwrap()
}

// ---- running --------------------------------------------------------------

/// Text longer than this is not included into again.
const MAX_TEXT: usize = 60_000;

fn run(case: &Value) -> Outcome {
    let Ok(case) = serde_json::from_value::<Case>(case.clone()) else {
        return Outcome::invalid();
    };
    let mut out = Outcome::default();
    let settings = case.conf.settings();
    let store: BTreeMap<String, String> = case.store.iter().map(|(k, v)| (k.clone(), emit(v))).collect();
    let mut text = emit(&case.text);
    let mut print = 17;
    for (attempt, faults) in case.attempts.iter().enumerate() {
        let blocks = if settings.enable_page_syntax {
            find_blocks(&text)
        } else {
            vec![]
        };
        let log = RefCell::new(Log::default());
        let invalid_calls = Cell::new(0u64);
        let (end, _) = trace::call(Budget::NONE, || {
            let sim = Sim {
                store: &store,
                faults,
                attempt,
                versions: case.versions,
                quiet: case.quiet,
                log: &log,
            };
            ftml::include(&text, &settings, sim, || {
                invalid_calls.set(invalid_calls.get() + 1);
                Err::Invalid
            })
            .map(|(s, pages)| {
                let pages: Vec<(Option<String>, String)> = harness(|| {
                    pages
                        .iter()
                        .map(|p| (p.site().map(str::to_string), p.page().to_string()))
                        .collect()
                });
                (s, pages)
            })
        });
        let log = log.into_inner();
        out.evals += 1;
        print = mix(print ^ hash_str(&text) ^ mix(hash_str(&format!("{:?}", log.fired))));
        if blocks.len() > 0 {
            out.nontrivial += 1;
            out.prints.push(print);
        }
        out.count("include blocks", blocks.len() as u64);
        for f in &log.fired {
            out.count(f, 1);
        }
        let here = |m: String| format!("attempt {attempt} over {text:?}: {m}");
        let result = match end {
            End::Returned(r) => r,
            End::Panicked(m) => {
                out.fail("panic", here(format!("panicked: {m}")));
                return out;
            }
            _ => {
                out.fail("panic", here("did not return".into()));
                return out;
            }
        };

        // What it was asked for.
        if log.asked.len() > 1 || (blocks.len() > 0 && log.asked.len() != 1) {
            out.fail("asked more than once", here(format!("asked {} times", log.asked.len())));
            return out;
        }
        let expected: Vec<_> = blocks
            .iter()
            .map(|b| (b.site.clone(), b.page.clone(), b.values()))
            .collect();
        let asked = log.asked.first().cloned().unwrap_or_default();
        if asked != expected {
            out.fail(
                "wrong request",
                here(format!("asked for {asked:?} instead of {expected:?}")),
            );
            return out;
        }
        if log.after_failure > 0 {
            out.fail(
                "asked after a failure",
                here(format!("asked {} more times after {:?}", log.after_failure, log.failed)),
            );
            return out;
        }
        if (result == Result::Err(Err::Invalid)) != (invalid_calls.get() == 1) || invalid_calls.get() > 1 {
            out.fail(
                "error not the caller's",
                here(format!("invalid-return made {} times, result {result:?}", invalid_calls.get())),
            );
            return out;
        }

        // Some alterations cancel out, or swap requests for the same page.
        let mismatched = !log.answered.is_empty() || !log.asked.is_empty();
        let mismatched = mismatched
            && !matches!(log.failed, Some(Err::Fetch(_)))
            && !log
                .answered
                .iter()
                .map(|(s, p, _)| (s, p))
                .eq(blocks.iter().map(|b| (&b.site, &b.page)));
        if let Some(e) = &log.failed {
            let fine = result == Result::Err(e.clone())
                || (mismatched && result == Result::Err(Err::Invalid));
            if !fine {
                out.fail("failure lost", here(format!("the includer gave {e:?}, include {result:?}")));
                return out;
            }
            continue;
        }
        if mismatched {
            if result != Result::Err(Err::Invalid) {
                out.fail(
                    "mismatch accepted",
                    here(format!("an answer altered by {faults:?} gave {result:?}")),
                );
                return out;
            }
            continue;
        }

        // The text.
        let mut want = String::new();
        let mut at = 0;
        let mut missing = vec![];
        for (i, b) in blocks.iter().enumerate() {
            want.push_str(&text[at..b.start]);
            match &log.answered[i].2 {
                Some(c) => want.push_str(&expand_values(c, &b.values())),
                None => {
                    missing.push(b.key());
                    want.push_str(&replacement(&b.key(), case.quiet));
                }
            }
            at = b.end;
        }
        want.push_str(&text[at..]);
        let pages: Vec<_> = blocks.iter().map(|b| (b.site.clone(), b.page.clone())).collect();
        let (got, got_pages) = match result {
            Ok(x) => x,
            Result::Err(e) => {
                out.fail("failed without cause", here(format!("include gave {e:?}")));
                return out;
            }
        };
        if got != want {
            out.fail("wrong text", here(ops::first_difference(&got, &want)));
            return out;
        }
        if got_pages != pages {
            out.fail("wrong pages", here(format!("returned pages {got_pages:?} instead of {pages:?}")));
            return out;
        }
        let mut asked_missing = log.missing.clone();
        asked_missing.sort();
        missing.sort();
        if asked_missing != missing {
            out.fail(
                "wrong missing pages",
                here(format!("asked for replacements of {asked_missing:?} instead of {missing:?}")),
            );
            return out;
        }
        out.count("pages substituted", blocks.len() as u64 - missing.len() as u64);
        out.count("missing pages", missing.len() as u64);
        if attempt > 0 {
            out.count("rounds or attempts after another", 1);
        }
        text = got;
        if text.len() > MAX_TEXT {
            break;
        }
    }
    out
}

pub struct Includes(pub u8);

impl Prop for Includes {
    fn id(&self) -> &'static str {
        match self.0 {
            4 => "P04",
            5 => "P05",
            6 => "P06",
            _ => "P07",
        }
    }
    fn cases(&self) -> (u64, u64) {
        (150_000, 4_000_000)
    }
    fn generate(&self, rng: &mut Rng, _index: u64) -> Value {
        make(rng, self.0)
    }
    fn run(&self, case: &Value) -> Outcome {
        run(case)
    }
    fn rule(&self) -> &'static str {
        "A case is a text, a page store and 1 to 5 attempts, some of them with faults of the includer; the output of a successful attempt is the text of the next. Each attempt is compared with a reference implementation (requests, result, error, page list, requests for missing pages). Non-trivial: the text had at least one include block."
    }
    fn measure(&self) -> &'static str {
        "(texts and faults which happened so far in the run)"
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["includer and page store (failing, answering wrongly, changing between attempts)", "clock", "entropy"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["the reference implementation in harness/src/props/include.rs states which blocks a text has"]
    }
}
