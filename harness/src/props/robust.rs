//! P15 diagnostics, P16 damaged source, P17 bounded work, P18 saved documents.

use crate::gen;
use crate::ops::{self, Conf, Doc, Info};
use crate::rng::{hash_str, mix, Rng};
use crate::runner::{Outcome, Prop};
use crate::site::{Faults, Site};
use crate::trace::{self, Budget, End};
use ftml::data::PageInfo;
use ftml::parsing::{ParseError, ParseOutcome};
use ftml::render::html::HtmlOutput;
use ftml::settings::WikitextSettings;
use ftml::tree::SyntaxTree;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::HashMap;

const CAP: u64 = 1_500_000;

fn cap() -> Budget {
    Budget {
        cancel_at: None,
        cap: Some(CAP),
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct TextCase {
    pub doc: Doc,
    /// What was done to the source.
    #[serde(default)]
    pub damage: Vec<String>,
    #[serde(default)]
    pub faults: Faults,
    /// Running out of steps counts however much is left open (a recorded
    /// finding only).
    #[serde(default)]
    pub any_depth: bool,
}

// ---- texts ----------------------------------------------------------------

const DEEP: &[(&str, &str)] = &[
    ("[[div]]\n", "\n[[/div]]"),
    ("[[span]]", "[[/span]]"),
    ("[[collapsible]]\n", "\n[[/collapsible]]"),
    ("[[size 90%]]", "[[/size]]"),
    ("[[b]]", "[[/b]]"),
    ("[[ul]]\n[[li]]\n", "\n[[/li]]\n[[/ul]]"),
    ("[[table]]\n[[row]]\n[[cell]]\n", "\n[[/cell]]\n[[/row]]\n[[/table]]"),
    ("[[tabview]]\n[[tab x]]\n", "\n[[/tab]]\n[[/tabview]]"),
    ("[[blockquote]]\n", "\n[[/blockquote]]"),
    ("[[iftags +tale]]\n", "\n[[/iftags]]"),
    ("[[footnote]]", "[[/footnote]]"),
    ("[[bibliography]]\n: l : ", "\n[[/bibliography]]"),
    ("##red|", "##"),
    ("[[a href=\"https://a.b/\"]]", "[[/a]]"),
    ("[[ruby]][[rt]]", "[[/rt]][[/ruby]]"),
    ("[[=]]\n", "\n[[/=]]"),
    ("[[code]]\n", "\n[[/code]]"),
    ("[!-- ", " --]"),
    ("**//", "//**"),
];

/// Marks whose repetition sets a depth.
const LEVELS: &[&str] = &[">", "*", " *", "#", "+", "[", "]", "|", "-", "~", "=", "@", "_", "'", "`", ".", "<", "{", "\u{a0}"];

fn deep(rng: &mut Rng) -> (String, &'static str) {
    let bits = rng.range(1, 8);
    match rng.below(5) {
        0 => {
            let (a, b) = *rng.pick(DEEP);
            let n = rng.range(1, 1 << bits);
            (format!("{}x{}", a.repeat(n), b.repeat(n)), "nested deeply")
        }
        1 => {
            let list: Vec<(&str, &str)> = (0..rng.range(1, 1 << bits)).map(|_| *rng.pick(DEEP)).collect();
            let mut s: String = list.iter().map(|x| x.0).collect();
            s.push('x');
            s.extend(list.iter().rev().map(|x| x.1));
            (s, "nested deeply")
        }
        2 => {
            let n = rng.range(1, 4 << bits);
            let mut s = rng.pick(LEVELS).repeat(n);
            s.push_str(" x\n");
            if rng.chance(1, 2) {
                s.push_str(&rng.pick(LEVELS).repeat(rng.range(1, 20)));
                s.push_str(" y\n");
            }
            (s, "nested deeply")
        }
        3 => {
            let mut s = String::new();
            for _ in 0..rng.range(1, 30) {
                let n = rng.range(0, 25);
                s.push_str(&" ".repeat(n));
                s.push_str(*rng.pick::<&str>(&["* ", "# ", "> ", ">> ", "+ ", "", "|| "]));
                s.push_str("x\n");
            }
            (s, "repeated")
        }
        _ => {
            let unit = *rng.pick::<&str>(gen::TOKENS);
            let n = rng.range(2, 2 << bits);
            (unit.repeat(n), "repeated")
        }
    }
}

const ARGS: &[&str] = &[
    "name", "class", "id", "style", "href", "src", "data-a", "data-a_b", "aria-x", "title", "hide", "show", "folded", "type",
    "align", "width", "location", "hideLocation", "url", "checked", "target", "link", "alt", "size", "username", "hash", "video",
    "snippet", "format", "tz", "hover", "root", "depth", "showRoot", "includeHidden", "button", "page", "", "-", "1",
];
const VALUES: &[&str] = &[
    "x", "", "true", "no", "1", "-1", "99999999999999999999", "100%", "a b", "\\\"", "<", ">", "&amp;", "\u{e9}\u{1f600}", "javascript:x",
    "//x", "#", "/", "left", "top", "both", "https://a.b/c?d", "\u{0}", "'", "]]", "[[", "|", "=", "\n", "wj-x", "u-x", "%", "0",
    "2020-01-01", "now", "+1 day", "2020-02-30T25:00:00+99:00", "0x7f", "#xFFFFFFFF", "-9223372036854775808", "253402300800",
];
const BLOCKS: &[&str] = &[
    "a", "anchor", "*a", "b", "blockquote", "quote", "bibliography", "char", "character", "checkbox", "*checkbox", "code",
    "collapsible", "date", "del", "div", "div_", "=", "<", ">", "==", "embed", "equation", "eref", "footnote", "footnoteblock",
    "hidden", "html", "i", "ifcategory", "iframe", "iftags", "image", "=image", "<image", ">image", "f<image", "f>image",
    "include-elements", "include-messy", "ins", "invisible", "later", "li", "li_", "lines", "mark", "math", "module", "module654", "ol",
    "p", "paragraph", "radio", "*radio", "row", "cell", "hcell", "rt", "rb", "ruby", "s", "size", "span", "span_", "sub", "sup",
    "tab", "tabview", "tabs", "table", "target", "toc", "f<toc", "f>toc", "tt", "u", "ul", "user", "*user", "module CSS",
    "module Rate", "module Join", "module Backlinks", "module Categories", "module PageTree", "embed youtube", "embed vimeo",
    "embed github-gist", "embed gitlab-snippet", "date 2020-01-01", "date 1600000000", "bibcite x", "css", "style", "file",
];

/// What blocks know as their arguments.
const KNOWN: &[(&str, &[&str])] = &[
    ("code", &["type", "name"]),
    ("collapsible", &["show", "hide", "folded", "hideLocation"]),
    ("bibliography", &["title", "hide"]),
    ("footnoteblock", &["title", "hide"]),
    ("image", &["link", "alt", "title", "size", "width", "height"]),
    ("=image", &["link", "alt"]),
    ("date", &["format", "tz", "hover"]),
    ("module Join", &["button"]),
    ("module PageTree", &["root", "depth", "showRoot"]),
    ("module Categories", &["includeHidden"]),
    ("module Backlinks", &["page"]),
    ("a", &["href", "target", "name"]),
    ("iframe", &["width", "height", "allow", "frameborder"]),
    ("checkbox", &["checked", "name", "id"]),
    ("radio", &["checked", "name", "value"]),
    ("math", &["name", "type", "env"]),
    ("embed youtube", &["video", "width", "height"]),
    ("embed vimeo", &["video", "width", "height"]),
    ("embed github-gist", &["username", "hash"]),
    ("embed gitlab-snippet", &["snippet"]),
    ("size", &["style"]),
    ("toc", &["title", "depth"]),
];

fn value(rng: &mut Rng) -> String {
    match rng.below(5) {
        0 => gen::long_word(rng),
        _ => rng.pick::<&str>(VALUES).to_string(),
    }
}

fn arguments(rng: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..rng.range(1, 4) {
        let (block, known) = if rng.chance(1, 2) {
            *rng.pick(KNOWN)
        } else {
            (*rng.pick::<&str>(BLOCKS), ARGS)
        };
        s.push_str("[[");
        s.push_str(block);
        for _ in 0..rng.below(4) {
            let v = value(rng);
            match rng.below(5) {
                0 => s.push_str(&format!(" {v}")),
                1 => s.push_str(&format!(" {}=\"{v}", rng.pick(known))),
                _ => s.push_str(&format!(" {}=\"{v}\"", rng.pick(known))),
            }
        }
        s.push_str("]]");
        let name = block.trim_start_matches(['*', '=', '<', '>']).split(' ').next().unwrap_or("");
        match rng.below(4) {
            0 => (),
            1 => s.push_str(&format!("\n{}\n[[/{name}]]\n", value(rng))),
            2 => s.push_str(&format!("{}[[/{name}]]", value(rng))),
            _ => s.push_str(&format!("\n{}\n[[/{name}]]\n", gen::soup(rng, 4))),
        }
    }
    s
}

const CSS: &[&str] = &[
    "a", "{", "}", ":", ";", "@import", "@media", "\"", "'", "(", ")", "url(", "/*", "*/", "\\", "</style>", "<!--", "-->", "!important",
    "#f00", "10px", ",", ".c", "#i", "[", "]", "::before", "color", " ", "\n", "@charset", "@font-face", "calc(", "var(--x", "%", "1e999",
    "@keyframes", "\u{0}", "\u{e9}", "@supports", "not", "&", ">", "+", "~", "@namespace", "expression(", "u+0-10ffff", "--x:", "@",
];
const TEX: &[&str] = &[
    "\\frac", "{", "}", "^", "_", "&", "\\\\", "\\begin{", "\\end{", "matrix}", "align}", "\\left", "\\right", "(", ")", ".", "\\sqrt", "[", "]",
    "\\text{", "x", "1", "+", "<", ">", "\\", "$", "%", "\\sum", "\\int", "'", "\\hat", "\\mathbb", "\\color{", "\\operatorname{", "\n", " ",
    "\\overset", "\\limits", "\\substack", "\\bar", "\\underbrace", "~", "\\,", "\"", "\u{e9}", "\\middle", "|", "\\{", "\\slashed", "\\binom",
];

fn foreign(rng: &mut Rng) -> String {
    let tex = rng.chance(1, 2);
    let words = if tex { TEX } else { CSS };
    let mut body = String::new();
    for _ in 0..rng.range(1, 16) {
        body.push_str(*rng.pick::<&str>(words));
    }
    match (tex, rng.chance(1, 2)) {
        (true, true) => format!("[[math]]\n{body}\n[[/math]]"),
        (true, false) => format!("[[$ {body} $]]"),
        _ => format!("[[module css]]\n{body}\n[[/module]]"),
    }
}

/// Text with what was done to it.
pub fn damaged(rng: &mut Rng) -> (String, Vec<String>) {
    let mut kinds = vec![];
    let mut text = match rng.below(12) {
        0 | 1 => {
            let (s, kind) = deep(rng);
            kinds.push(kind.to_string());
            if rng.chance(1, 3) {
                format!("{s}\n\n{}", gen::any_text(rng))
            } else {
                s
            }
        }
        2 | 3 => arguments(rng),
        4 => foreign(rng),
        _ => gen::any_text(rng),
    };
    let n = match rng.below(4) {
        0 => 0,
        1 => 1,
        2 => rng.range(1, 3),
        _ => rng.range(1, 6),
    };
    for _ in 0..n {
        let (t, kind) = gen::damage(rng, &text);
        text = t;
        kinds.push(kind.to_string());
    }
    if text.len() > 12_000 {
        let mut i = 12_000;
        while !text.is_char_boundary(i) {
            i -= 1;
        }
        text.truncate(i);
    }
    (text, kinds)
}

pub const RULES: &[&str] = &[
    "anchor", "bibcite", "block", "block-star", "block-skip", "blockquote", "bold", "center", "clear-float", "color", "comment", "dash",
    "definition-list", "email", "header", "horizontal-rule", "italics", "line-break", "line-break-paragraph", "link-anchor", "link-single",
    "link-single-new-tab", "link-triple", "link-triple-new-tab", "list", "math", "monospace", "raw", "strikethrough-dash",
    "strikethrough-tilde", "subscript", "superscript", "table", "text", "underline", "underscore-line-break", "url", "variable",
];

pub fn random_faults(rng: &mut Rng, max: usize) -> Faults {
    let rules = (0..rng.below(max + 1))
        .map(|_| {
            let bits = rng.range(0, 4);
            let rule = if rng.chance(1, 2) {
                *rng.pick::<&str>(&["block", "table", "list", "header", "blockquote", "bold", "italics", "definition-list"])
            } else {
                *rng.pick::<&str>(RULES)
            };
            (rule.to_string(), 1 + rng.below(1 << bits) as u64)
        })
        .collect();
    Faults { rules }
}

fn count_damage(out: &mut Outcome, kinds: &[String]) {
    for k in kinds {
        out.count(&format!("fault.source {k}"), 1);
    }
}

/// How much in the text might begin a construct.
fn openers(text: &str) -> usize {
    text.chars()
        .filter(|c| !(c.is_alphanumeric() || *c == ' ' || *c == '\n'))
        .count()
}

fn judge_end<T>(out: &mut Outcome, end: End<T>, what: &str, text: &str) -> Option<T> {
    judge_end_if(out, end, what, openers(text) <= 24 && text.len() < 4_000)
}

/// `bounded`: whether running out of steps is a violation.
fn judge_end_if<T>(out: &mut Outcome, end: End<T>, what: &str, bounded: bool) -> Option<T> {
    match end {
        End::Returned(v) => Some(v),
        End::Panicked(message) => {
            out.fail("panic", format!("{what} panicked: {message}"));
            None
        }
        End::OutOfSteps => {
            if bounded {
                out.fail("endless", format!("{what} did not end within {CAP} steps"));
            } else {
                out.count("calls given up after many steps (see P17)", 1);
            }
            None
        }
        End::Cancelled => None,
    }
}

// ---- P15 --------------------------------------------------------------------

pub struct P15;

impl Prop for P15 {
    fn id(&self) -> &'static str {
        "P15"
    }
    fn cases(&self) -> (u64, u64) {
        (40_000, 1_200_000)
    }
    fn rule(&self) -> &'static str {
        "A case is one text, mostly damaged, parsed twice while up to 3 parse rules are made to fail at a chosen success. Every error is looked up among the tokens. Non-trivial: parses which reported at least one error."
    }
    fn measure(&self) -> &'static str {
        "(text, settings, rule faults)"
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["parse rules failing on demand (hook)", "damage to the source"]
    }

    fn generate(&self, rng: &mut Rng, _index: u64) -> Value {
        let (text, damage) = damaged(rng);
        let mut doc = Doc::new(text);
        doc.conf = gen::random_conf(rng);
        doc.info = gen::random_info(rng);
        let faults = if rng.chance(1, 2) { random_faults(rng, 3) } else { Faults::default() };
        serde_json::to_value(TextCase {
            doc,
            damage,
            faults,
            ..TextCase::default()
        }).unwrap()
    }

    fn run(&self, case: &Value) -> Outcome {
        let Ok(case) = serde_json::from_value::<TextCase>(case.clone()) else {
            return Outcome::invalid();
        };
        let mut out = Outcome::default();
        let settings = case.doc.conf.settings();
        let info = case.doc.info.page_info();
        let text = ops::prepared(&case.doc.text);
        let tokens = ftml::tokenize(&text);
        let mut first: Option<Vec<ParseError>> = None;
        let mut print = mix(hash_str(&case.doc.text) ^ hash_str(&format!("{:?}{:?}", case.doc.conf, case.faults)));
        for round in 0..2 {
            let site = Site::new(case.faults.clone(), None);
            site.install();
            let (end, _) = trace::call(cap(), || {
                let (_, errors) = ftml::parse(&tokens, &info, &settings).into();
                errors
            });
            Site::remove();
            let End::Returned(errors) = end else {
                out.count("parses which did not return (judged by P16)", 1);
                return out;
            };
            if round == 0 {
                for (rule, n) in &site.record.borrow().rule_faults {
                    out.count("fault.rule made to fail", *n);
                    print = mix(print ^ hash_str(rule));
                }
                count_damage(&mut out, &case.damage);
            }
            out.evals += 1;
            if !errors.is_empty() {
                out.nontrivial += 1;
            }
            out.count("errors reported", errors.len() as u64);
            match &first {
                None => first = Some(errors),
                Some(before) => {
                    if *before != errors {
                        out.fail("errors differ", format!("parsed again: {before:?} vs {errors:?}"));
                        return out;
                    }
                }
            }
        }
        let errors = first.unwrap_or_default();
        if !errors.is_empty() {
            out.prints.push(print);
        }
        let mut by_span: HashMap<(usize, usize), Vec<(String, &str)>> = HashMap::new();
        for t in tokens.tokens() {
            by_span
                .entry((t.span.start, t.span.end))
                .or_default()
                .push((format!("{:?}", t.token), t.slice));
        }
        for e in &errors {
            let span = e.span();
            if text.get(span.clone()).is_none() {
                out.fail("span outside of the text", format!("{e:?}, text of {} bytes", text.len()));
                return out;
            }
            let token = format!("{:?}", e.token());
            match by_span.get(&(span.start, span.end)) {
                None => {
                    out.fail("span of no token", format!("{e:?}, on {:?}", &text[span]));
                    return out;
                }
                Some(list) => {
                    if !list.iter().any(|(t, _)| *t == token) {
                        out.fail("other token", format!("{e:?}, where the token is {list:?}"));
                        return out;
                    }
                }
            }
        }
        // Whatever was given up on comes out as text once, in the order of the
        // text; the rules tried there failed at it, or further on.
        let mut last: Option<usize> = None;
        let mut from = 0;
        for (i, e) in errors.iter().enumerate() {
            if e.kind() != ftml::parsing::ParseErrorKind::NoRulesMatch {
                continue;
            }
            out.count("tokens which no rule matched", 1);
            let start = e.span().start;
            if last.is_some_and(|l| l >= start) {
                out.fail("order", format!("{e:?} comes after one at {last:?}"));
                return out;
            }
            last = Some(start);
            if let Some(before) = errors[from..i].iter().find(|b| b.span().start < start) {
                out.fail(
                    "text which is not about it",
                    format!("no rule is said to match at {start} ({:?}), where one failed at {before:?}", &text[e.span()]),
                );
                return out;
            }
            from = i + 1;
        }
        out
    }
}

// ---- P16 --------------------------------------------------------------------

pub struct P16;

impl Prop for P16 {
    fn id(&self) -> &'static str {
        "P16"
    }
    fn cases(&self) -> (u64, u64) {
        (60_000, 2_000_000)
    }
    fn rule(&self) -> &'static str {
        "A case is one source text, after up to 6 faults of storage or transport, in random settings and page information, run through preprocess, tokenize, parse, both renderers and serialisation on an 8 MiB stack. Non-trivial: sources which were damaged, nested deeply or repeated."
    }
    fn measure(&self) -> &'static str {
        "(damaged source, settings)"
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["damage to the source", "clock", "entropy"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["a call which takes more than 1.5 million steps counts as endless only if few constructs could be open (nested unfinished constructs take exponential time, see the known finding of P17)"]
    }

    fn generate(&self, rng: &mut Rng, _index: u64) -> Value {
        let (text, damage) = damaged(rng);
        let mut doc = Doc::new(text);
        doc.conf = gen::random_conf(rng);
        doc.info = gen::random_info(rng);
        serde_json::to_value(TextCase {
            doc,
            damage,
            ..TextCase::default()
        })
        .unwrap()
    }

    fn run(&self, case: &Value) -> Outcome {
        let Ok(case) = serde_json::from_value::<TextCase>(case.clone()) else {
            return Outcome::invalid();
        };
        let mut out = Outcome::default();
        let settings = case.doc.conf.settings();
        let info = case.doc.info.page_info();
        let source = &case.doc.text;
        count_damage(&mut out, &case.damage);
        out.evals += 1;
        if !case.damage.is_empty() {
            out.nontrivial += 1;
            out.prints.push(mix(hash_str(source) ^ hash_str(&format!("{:?}{:?}", case.doc.conf, case.doc.info))));
        }
        let mut text = source.clone();
        let (end, _) = trace::call(cap(), || ftml::preprocess(&mut text));
        if judge_end(&mut out, end, "preprocess", source).is_none() {
            return out;
        }
        let (end, _) = trace::call(cap(), || ftml::tokenize(&text));
        let Some(tokens) = judge_end(&mut out, end, "tokenize", source) else {
            return out;
        };
        let (end, _) = trace::call(cap(), || ftml::parse(&tokens, &info, &settings));
        let bounded = case.any_depth || openers(source) <= 24 && source.len() < 4_000;
        let Some(outcome) = judge_end_if(&mut out, end, "parse", bounded) else {
            return out;
        };
        out.count("errors reported", outcome.errors().len() as u64);
        let tree: &SyntaxTree = outcome.value();
        let (end, _) = trace::call(cap(), || ops::render_html(tree, &info, &settings));
        let Some(html) = judge_end(&mut out, end, "rendering HTML", source) else {
            return out;
        };
        let (end, _) = trace::call(cap(), || ops::render_text(tree, &info, &settings));
        let Some(plain) = judge_end(&mut out, end, "rendering text", source) else {
            return out;
        };
        let (end, _) = trace::call(cap(), || {
            serde_json::to_string(&outcome).is_ok() && serde_json::to_string(&html).is_ok()
        });
        match judge_end(&mut out, end, "serialising", source) {
            Some(true) => (),
            Some(false) => out.fail("not serialised", "the outcome could not be serialised"),
            None => return out,
        }
        out.count("bytes rendered", (html.body.len() + plain.len()) as u64);
        out
    }
}

// ---- P17 --------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
struct GrowthCase {
    /// Text before, repeated, and after.
    head: String,
    #[serde(rename = "fixed_unit")]
    unit: String,
    tail: String,
    n: usize,
    #[serde(default)]
    conf: Conf,
    #[serde(default)]
    faults: Faults,
}

pub struct P17;

/// Finished constructs which stand next to each other in real documents.
const UNITS: &[&str] = &[
    "word ", "word\n", "word\n\n", "\n", "* item\n", "# item\n", "* a\n * b\n", "> quote\n", "> a\n>> b\n", "+ heading\n", "++ sub heading\n",
    "+ a\nb\n", "|| a || b ||\n", "||~ h || **b** ||\n", ": key : value\n", "----\n", "------\n", "~~~~\n", "**bold** ", "//it// ", "__un__ ",
    "^^sup^^ ", ",,sub,, ", "{{mono}} ", "--strike-- ", "##red|text## ", "@@raw **@@ ", "@<&amp;>@ ", "[!-- note --] ", "[[[page]]] ",
    "[[[page|label]]] ", "[https://a.example label] ", "https://a.example/ ", "[[*user alice]] ", "[[user bob]] ", "[[image a.png]] ",
    "[[footnote]]note[[/footnote]] ", "((bibcite lab)) ", "[[date 1600000000]] ", "[[$ x $]] ", "[[eref eq]] ", "[[span class=\"x\"]]t[[/span]] ",
    "[[div]]\nblock\n[[/div]]\n", "[[collapsible]]\nblock\n[[/collapsible]]\n", "[[code]]\nlet x;\n[[/code]]\n", "[[html]]\n<b>\n[[/html]]\n",
    "[[math]]\nx\n[[/math]]\n", "[[tabview]]\n[[tab a]]\nx\n[[/tab]]\n[[/tabview]]\n", "[[ul]]\n[[li]]x[[/li]]\n[[/ul]]\n",
    "[[table]]\n[[row]]\n[[cell]]x[[/cell]]\n[[/row]]\n[[/table]]\n", "[[iftags +tale]]\nx\n[[/iftags]]\n", "[[iftags -tale]]\nx\n[[/iftags]]\n",
    "[[toc]]\n", "[[footnoteblock]]\n", "[[bibliography]]\n: lab : book\n[[/bibliography]]\n", "[[module css]]\na { b: c }\n[[/module]]\n",
    "[[include-messy x]]\n", "[[char 65]] ", "[[checkbox]] ", "[[lines 2]]\n", "a@b.example ", "<< x >> ", "... ", "-- ", "= centred\n", "_\n",
    "{$var} ", "[# top] ", "[[# here]] ", "[[a href=\"/x\"]]y[[/a]] ", "[[size 90%]]x[[/size]] ", "[[=]]\nx\n[[/=]]\n", "&", "\u{65e5}\u{672c}\u{8a9e}", "\u{d55c}\u{ad6d}\u{3002}", "\u{2026}\n", "a@b.example", "\"quote\" ", "<", "|",
    "[[module Rate]]\n", "[[embed youtube video=\"a\"]]\n", "[[iframe https://a.example/]]\n", "\\", "``x'' ", "[[ruby]]a[[rt]]b[[/rt]][[/ruby]] ",
    "- ", "a|b ", "* ", "[x] ", "x = y ", "% ", "' ", "[[blockquote]]\nx\n[[/blockquote]]\n", "[[code name=\"n\"]]\nx\n[[/code]]\n",
];

/// Beginnings which are left open, at most one of each.
const LEFT_OPEN: &[&str] = &["[[div]]\n", "**", "[[span]]", "//", "[[collapsible]]\n", "[[footnote]]", "|| ", "[[ul]]\n[[li]]\n", "[[iftags +tale]]\n"];

fn repeated(case: &GrowthCase, times: usize) -> String {
    let mut s = case.head.clone();
    for _ in 0..case.n * times {
        s.push_str(&case.unit);
    }
    s.push_str(&case.tail);
    s
}

/// Addresses take whatever follows them, also what would close a construct.
fn unglued(unit: &str) -> String {
    const CLOSE: &[&str] = &["**", "//", "__", "^^", ",,", "--", "}}", "##", "@@", ">@", "~~"];
    let mut out = String::new();
    let mut rest = unit;
    while let Some(at) = rest.find("://") {
        let (before, url) = rest.split_at(at + 3);
        out.push_str(before);
        let end = url.find(|c: char| c.is_whitespace() || "|[]".contains(c)).unwrap_or(url.len());
        match CLOSE.iter().filter_map(|x| url[..end].find(x)).min() {
            Some(close) => {
                out.truncate(out.len() - 2);
                out.push_str(&url[..close]);
                rest = &url[close..];
            }
            None => rest = url,
        }
    }
    out + rest
}

impl Prop for P17 {
    fn id(&self) -> &'static str {
        "P17"
    }
    fn cases(&self) -> (u64, u64) {
        (2_500, 90_000)
    }
    fn rule(&self) -> &'static str {
        "A case repeats a piece of finished markup n and 4n times (up to about 24 KB), after up to 2 beginnings which stay open and with up to 2 parse rules made to fail once, and compares steps, basic blocks run through, allocations, allocated bytes and stack of preprocess, tokenize, parse and both renderers. Non-trivial: every case whose smaller run took at least 500 steps."
    }
    fn measure(&self) -> &'static str {
        "(repeated text, what is around it, rule faults)"
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["parse rules failing on demand (hook)", "clock", "entropy"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["work is measured in log lines, basic blocks of the library (with what of other crates is compiled into it), allocations, allocated bytes and stack depth: loops within the standard library's own compiled code which do none of these are not seen"]
    }

    fn generate(&self, rng: &mut Rng, index: u64) -> Value {
        let mut unit = String::new();
        match rng.below(6) {
            0..=2 => unit.push_str(UNITS[index as usize % UNITS.len()]),
            3 => {
                for _ in 0..rng.range(2, 4) {
                    let piece = *rng.pick::<&str>(UNITS);
                    if piece.starts_with("[[toc") || piece.starts_with("[[footnoteblock") || piece.contains(" name=") {
                        continue; // each of them shows all of the document's headings or footnotes
                    }
                    if piece == "-- " {
                        continue; // opens what is struck through, within whatever the last one is in
                    }
                    // See the known finding on blocks without a body.
                    if piece.starts_with("[[") && piece.ends_with('\n') && !unit.is_empty() && !unit.ends_with('\n') {
                        unit.push('\n');
                    }
                    unit.push_str(piece);
                }
                if !unit.ends_with('\n') {
                    unit.push('\n');
                }
            }
            _ => {
                let mut feat = gen::all_features();
                feat.opens = 0;
                feat.misc = 0;
                feat.toc = 0;
                feat.noteblock = 0;
                feat.code = 0;
                feat.inline_code = 0;
                let budget = rng.range(2, 12);
                unit = gen::structured(rng, feat, budget, 3);
                unit.push_str(*rng.pick::<&str>(&["\n", "\n\n"]));
            }
        }
        unit = unglued(&unit);
        // See the known finding on line breaks in list items.
        if unit.starts_with(['*', '#', '>']) || ["\n*", "\n#", "\n>", "\n *"].iter().any(|x| unit.contains(x)) {
            unit = unit.replace("_\n", "_ \n");
        }
        // Would join the lines: see the known finding on blocks without a body.
        unit = unit.replace("\\\n", "\\ \n");
        // See the known finding on escaped quotes.
        unit = unit.replace("\\\"", "\\ \"");
        if unit.starts_with('"') && unit.ends_with('\\') {
            unit.push('\n');
        }
        let mut head = String::new();
        let mut tail = String::new();
        if rng.chance(1, 3) {
            let a = rng.below(LEFT_OPEN.len());
            head.push_str(LEFT_OPEN[a]);
            if rng.chance(1, 3) {
                let b = rng.below(LEFT_OPEN.len());
                if b != a {
                    head.push_str(LEFT_OPEN[b]);
                }
            }
        } else if rng.chance(1, 4) {
            let (a, b) = *rng.pick(DEEP);
            head.push_str(a);
            tail.push_str(b);
        }
        let bits = rng.range(8, 12);
        let n = (rng.range(1 << bits, 2 << bits).min(5_000) / unit.len()).max(2);
        let mut conf = gen::random_conf(rng);
        if rng.chance(2, 3) {
            conf = Conf::default();
        }
        let faults = if rng.chance(1, 3) { random_faults(rng, 2) } else { Faults::default() };
        serde_json::to_value(GrowthCase {
            head,
            unit,
            tail,
            n,
            conf,
            faults,
        })
        .unwrap()
    }

    fn run(&self, case: &Value) -> Outcome {
        let Ok(case) = serde_json::from_value::<GrowthCase>(case.clone()) else {
            return Outcome::invalid();
        };
        let mut out = Outcome::default();
        if case.unit.is_empty() || case.n == 0 || case.unit.len() * case.n > 8_000 || case.head.len() > 100 {
            return Outcome::invalid();
        }
        let info = Info::default();
        let info = info.page_info();
        let settings = case.conf.settings();
        let mut before: Vec<(&'static str, trace::Work)> = vec![];
        for times in [1usize, 4] {
            let source = repeated(&case, times);
            let limit = Budget {
                cancel_at: None,
                cap: Some(if times == 1 { 1_000_000 } else { 6_000_000 }),
            };
            let limit = || Budget { ..limit };
            let site = Site::new(case.faults.clone(), None);
            site.install();
            let mut now: Vec<(&'static str, trace::Work)> = vec![];
            let mut text = source.clone();
            let mut fine = true;
            macro_rules! stage {
                ($name:expr, $body:expr) => {{
                    let (end, work) = trace::call_measured(limit(), $body);
                    now.push(($name, work));
                    match end {
                        End::Returned(v) => Some(v),
                        End::OutOfSteps => {
                            if times == 4 {
                                None
                            } else {
                                fine = false;
                                None
                            }
                        }
                        _ => {
                            fine = false;
                            None
                        }
                    }
                }};
            }
            let _: Option<()> = (|| {
                stage!("preprocess", || ftml::preprocess(&mut text))?;
                let tokens = stage!("tokenize", || ftml::tokenize(&text))?;
                let outcome = stage!("parse", || ftml::parse(&tokens, &info, &settings))?;
                let tree: &SyntaxTree = outcome.value();
                stage!("rendering HTML", || ops::render_html(tree, &info, &settings))?;
                stage!("rendering text", || ops::render_text(tree, &info, &settings))?;
                Some(())
            })();
            Site::remove();
            if times == 1 {
                for n in site.record.borrow().rule_faults.values() {
                    out.count("fault.rule made to fail", *n);
                }
                if !case.head.is_empty() && case.tail.is_empty() {
                    out.count("fault.construct left open", 1);
                }
            }
            if !fine {
                out.count("runs not measured (too slow, or judged by P16)", 1);
                return out;
            }
            if times == 1 {
                before = now;
                continue;
            }
            out.evals += 1;
            if before.iter().map(|x| x.1.steps).sum::<u64>() >= 500 {
                out.nontrivial += 1;
                out.prints.push(hash_str(&format!("{case:?}")));
            }
            for ((stage, a), (_, b)) in before.iter().zip(&now) {
                out.count("steps", b.steps);
                // A rule made to fail may show what is hidden otherwise.
                let extra = if case.faults == Faults::default() { 1 } else { 10 };
                let mut check = |what: &str, a: u64, b: u64, times: u64, slack: u64| {
                    let slack = slack * extra;
                    if b > a * times + slack {
                        out.fail(
                            what,
                            format!("{stage}: {what} grew from {a} to {b} when the repeated text grew 4 times"),
                        );
                    }
                };
                check("steps", a.steps, b.steps, 7, 4_000);
                check("basic blocks", a.blocks, b.blocks, 7, 100_000);
                check("allocations", a.allocs, b.allocs, 7, 4_000);
                check("allocated bytes", a.bytes, b.bytes, 8, 400_000);
                check("stack", a.stack, b.stack, 1, 40_000);
            }
        }
        out
    }
}

// ---- P18 --------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
struct SaveCase {
    doc: Doc,
    #[serde(default)]
    faults: Faults,
    /// Where saved data is cut off, as parts of 65536.
    cuts: Vec<u16>,
}

pub struct P18;

fn load<'a, T: Deserialize<'a>>(s: &'a str) -> Result<T, String> {
    let mut de = serde_json::Deserializer::from_str(s);
    de.disable_recursion_limit();
    let v = T::deserialize(&mut de).map_err(|e| e.to_string())?;
    de.end().map_err(|e| e.to_string())?;
    Ok(v)
}

fn value_of<T: Serialize>(x: &T) -> Value {
    serde_json::to_value(x).unwrap_or(Value::Null)
}

/// Saves, loads and compares; returns the saved form.
fn saved<T>(out: &mut Outcome, what: &str, x: &T) -> Option<String>
where
    T: Serialize + serde::de::DeserializeOwned,
{
    out.evals += 1;
    let s = match serde_json::to_string(x) {
        Ok(s) => s,
        Err(e) => {
            out.fail("not saved", format!("{what}: {e}"));
            return None;
        }
    };
    match load::<T>(&s) {
        Err(e) => {
            out.fail("not loaded", format!("{what}: {e}, in {}", head_of(&s)));
            None
        }
        Ok(back) => {
            let (a, b) = (value_of(x), value_of(&back));
            if a != b {
                out.fail(
                    "changed by saving",
                    format!("{what}: {}", ops::first_difference(&a.to_string(), &b.to_string())),
                );
            }
            Some(s)
        }
    }
}

fn head_of(s: &str) -> String {
    s.chars().take(200).collect()
}

fn torn<T: serde::de::DeserializeOwned>(out: &mut Outcome, what: &str, s: &str, cuts: &[u16]) {
    for cut in cuts {
        let mut at = s.len() * usize::from(*cut) / 65536;
        while !s.is_char_boundary(at) {
            at -= 1;
        }
        out.evals += 1;
        out.nontrivial += 1;
        out.count("fault.saved data cut off", 1);
        out.prints.push(mix(hash_str(s) ^ at as u64));
        if load::<T>(&s[..at]).is_ok() {
            out.fail("torn data accepted", format!("{what}: the first {at} of {} bytes", s.len()));
        }
    }
}

/// An owned tree, made in a scope which the source does not survive.
fn owned_tree(doc: &Doc) -> Option<(SyntaxTree<'static>, String)> {
    let settings = doc.conf.settings();
    let info = doc.info.page_info();
    let text = ops::prepared(&doc.text);
    let tokens = ftml::tokenize(&text);
    let (tree, _) = ftml::parse(&tokens, &info, &settings).into();
    let before = ops::json(&tree);
    let owned = tree.to_owned();
    if owned != tree {
        return None;
    }
    Some((owned, before))
}

impl Prop for P18 {
    fn id(&self) -> &'static str {
        "P18"
    }
    fn cases(&self) -> (u64, u64) {
        (25_000, 700_000)
    }
    fn rule(&self) -> &'static str {
        "A case parses one document (a third of them damaged, some with parse rules made to fail), saves and loads its tree, outcome, page information, settings and HTML output, renders the loaded tree, makes an owned copy which outlives the source, and loads saved data cut off at 4 random bytes. Non-trivial: loads of data which was cut off."
    }
    fn measure(&self) -> &'static str {
        "(saved data, where it was cut off)"
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["storage which tears what was written", "parse rules failing on demand (hook)", "clock", "entropy"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["scores are finite numbers"]
    }

    fn generate(&self, rng: &mut Rng, _index: u64) -> Value {
        let mut doc = gen::any_doc(rng);
        doc.store.clear();
        match rng.below(6) {
            0 | 1 => doc.text = damaged(rng).0,
            2 => doc.text = arguments(rng),
            _ => (),
        }
        if rng.chance(1, 4) {
            doc.info.score = *rng.pick(&[0.5, -3.25, 5e18, 1e-9, 1e300, -7.0]);
        }
        let faults = if rng.chance(1, 4) { random_faults(rng, 2) } else { Faults::default() };
        let cuts = (0..4).map(|_| rng.below(65536) as u16).collect();
        serde_json::to_value(SaveCase { doc, faults, cuts }).unwrap()
    }

    fn run(&self, case: &Value) -> Outcome {
        let Ok(case) = serde_json::from_value::<SaveCase>(case.clone()) else {
            return Outcome::invalid();
        };
        let mut out = Outcome::default();
        let site = Site::new(case.faults.clone(), None);
        site.install();
        let (end, _) = trace::call(cap(), || owned_tree(&case.doc));
        Site::remove();
        for n in site.record.borrow().rule_faults.values() {
            out.count("fault.rule made to fail", *n);
        }
        let End::Returned(owned) = end else {
            out.count("calls which did not return (judged by P16)", 1);
            return out;
        };
        let Some((owned, before)) = owned else {
            out.fail("owned copy", "the owned copy of the tree is not equal to it");
            return out;
        };
        out.evals += 1;
        let after = ops::json(&owned);
        if after != before {
            out.fail("owned copy", ops::first_difference(&after, &before));
            return out;
        }

        let settings = case.doc.conf.settings();
        let info = case.doc.info.page_info();
        let text = ops::prepared(&case.doc.text);
        let site = Site::new(case.faults.clone(), None);
        site.install();
        let tokens = ftml::tokenize(&text);
        let (end, _) = trace::call(cap(), || ftml::parse(&tokens, &info, &settings));
        Site::remove();
        let End::Returned(outcome) = end else {
            return out;
        };
        let tree: &SyntaxTree = outcome.value();
        let render = |tree: &SyntaxTree, info: &PageInfo, settings: &WikitextSettings| {
            crate::env::set_entropy(5, 0, 0);
            let (end, _) = trace::call(cap(), || {
                (ops::render_html(tree, info, settings), ops::render_text(tree, info, settings))
            });
            match end {
                End::Returned(v) => Some(v),
                _ => None,
            }
        };
        let Some((html, plain)) = render(tree, &info, &settings) else {
            out.count("calls which did not return (judged by P16)", 1);
            return out;
        };
        // Everything which can be saved.
        let info_static: PageInfo<'static> = match load(&serde_json::to_string(&info).unwrap_or_default()) {
            Ok(i) => i,
            Err(e) => {
                out.fail("not loaded", format!("page information: {e}"));
                return out;
            }
        };
        if info_static != info {
            out.fail("changed by saving", format!("{info:?} vs {info_static:?}"));
        }
        let owned_outcome = ParseOutcome::new(owned.clone(), outcome.errors().to_vec());
        let mut forms: Vec<(&str, Option<String>)> = vec![];
        forms.push(("page information", saved(&mut out, "page information", &info_static)));
        forms.push(("settings", saved(&mut out, "settings", &settings)));
        forms.push(("tree", saved(&mut out, "tree", &owned)));
        forms.push(("outcome", saved(&mut out, "outcome", &owned_outcome)));
        forms.push(("HTML output", saved(&mut out, "HTML output", &html)));
        if out.failed() {
            return out;
        }
        for (what, form) in &forms {
            let Some(form) = form else { continue };
            let c = &case.cuts;
            match *what {
                "page information" => torn::<PageInfo>(&mut out, what, form, c),
                "settings" => torn::<WikitextSettings>(&mut out, what, form, c),
                "tree" => torn::<SyntaxTree>(&mut out, what, form, c),
                "outcome" => torn::<ParseOutcome<SyntaxTree>>(&mut out, what, form, c),
                _ => torn::<HtmlOutput>(&mut out, what, form, c),
            }
        }
        // The loaded ones are as good as the ones which were saved.
        let tree_form = forms[2].1.clone().unwrap_or_default();
        let loaded: SyntaxTree = match load(&tree_form) {
            Ok(t) => t,
            Err(_) => return out,
        };
        if loaded != owned {
            out.fail("changed by saving", "the loaded tree is not equal to the one saved");
            return out;
        }
        let loaded_settings: WikitextSettings = match load(forms[1].1.as_deref().unwrap_or("")) {
            Ok(s) => s,
            Err(_) => return out,
        };
        if loaded_settings != settings {
            out.fail("changed by saving", "the loaded settings are not equal to the ones saved");
            return out;
        }
        for (what, tree) in [("loaded", &loaded), ("owned", &owned)] {
            out.evals += 1;
            match render(tree, &info_static, &loaded_settings) {
                None => out.fail("does not render", format!("the {what} tree cannot be rendered")),
                Some((h, t)) => {
                    if ops::normalize_ids(&h.body) != ops::normalize_ids(&html.body) {
                        out.fail("renders differently", format!("{what}: {}", ops::first_difference(&h.body, &html.body)));
                    }
                    if t != plain {
                        out.fail("renders differently", format!("{what}: {}", ops::first_difference(&t, &plain)));
                    }
                    if value_of(&h.backlinks) != value_of(&html.backlinks) || value_of(&h.meta) != value_of(&html.meta) {
                        out.fail("renders differently", format!("{what}: backlinks or metadata"));
                    }
                }
            }
        }
        out
    }
}
