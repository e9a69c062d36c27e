//! P08 ids, P09 dates, P19 links, P20 failing lookups, P21 escaping,
//! P22 addresses.

use super::doc::*;
use crate::env;
use crate::gen;
use crate::html::{Dom, Kid};
use crate::ops::{self, generated_ids, mask_delta, normalize_ids};
use crate::props::robust::random_faults;
use crate::rng::{hash_str, mix, Rng};
use crate::runner::{Outcome, Prop};
use crate::site::{Answers, Faults};
use ftml::tree::SyntaxTree;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::Ordering::SeqCst;

pub struct Render(pub u8);

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct RenderCase {
    pub doc: DocCase,
    #[serde(default)]
    pub answers: Answers,
    /// Seed, mode and faults of the entropy source.
    #[serde(default)]
    pub entropy: (u64, u64, u64),
}

/// A text around the snippets: these take the place of words or stand
/// between blocks.
fn with_snippets(rng: &mut Rng, feat: gen::Feat, inline: &dyn Fn(&mut Rng) -> String, block: &dyn Fn(&mut Rng) -> String) -> String {
    let budget = rng.range(3, 30);
    let max = rng.range(1, 6);
    let text = gen::structured(rng, feat, budget, max);
    let mut out = String::new();
    let mut rest = text.as_str();
    let chance = rng.range(1, 4);
    while let Some(at) = rest.find("zq").into_iter().chain(rest.find("\n\n")).min() {
        out.push_str(&rest[..at]);
        rest = &rest[at..];
        if rest.starts_with("\n\n") {
            rest = &rest[2..];
            out.push_str("\n\n");
            if rng.chance(chance, 6) {
                out.push_str(&block(rng));
                out.push_str("\n\n");
            }
            continue;
        }
        let n = rest.find("qz").map_or(2, |n| n + 2);
        if rng.chance(chance, 5) {
            out.push_str(&inline(rng));
        } else {
            out.push_str(&rest[..n]);
        }
        rest = &rest[n..];
    }
    out.push_str(rest);
    if rng.chance(1, 2) {
        out = format!("{}\n\n{out}", block(rng));
    }
    if rng.chance(1, 2) {
        out = format!("{out}\n\n{}", block(rng));
    }
    out
}

fn damage(rng: &mut Rng, case: &mut DocCase) {
    if rng.chance(1, 3) {
        for _ in 0..rng.range(1, 3) {
            let (t, kind) = gen::damage(rng, &case.text);
            case.text = t;
            case.damage.push(kind.to_string());
        }
    }
    if rng.chance(1, 3) {
        case.faults = random_faults(rng, 3);
    }
}

// ---- P08 ---------------------------------------------------------------------

const IDS: &[&str] = &[
    "toc0", "toc1", "toc2", "wj-toc", "wj-toc-list", "wj-toc-action-bar", "wj-bibliography-item-1-1", "bibitem-1-1",
    "u-toc0", "u-", "u", "U-toc0", "wj-id-0000000000000000", "a b", "u-a b", "a u-b", " toc0 ", "toc0\u{3000}toc1", "\u{e9}", "toc0,toc1",
    "wj-bibliography-item-1-1 bibitem-1-1", "x", "1",
];

fn id_inline(rng: &mut Rng) -> String {
    let id = *rng.pick::<&str>(IDS);
    let key = *rng.pick::<&str>(&["id", "ID", "Id"]);
    match rng.below(19) {
        0 => format!("[[# {id}]]"),
        1 => format!("[[target {id}]]x[[/target]]"),
        2 => format!("[[anchortarget {id}]]x[[/anchortarget]]"),
        3 => format!("[[image one.png {key}=\"{id}\"]]"),
        4 => format!("[[checkbox {key}=\"{id}\"]]"),
        5 => format!("[[radio grp {key}=\"{id}\"]]"),
        6 => format!("[[ruby {key}=\"{id}\"]]x[[rt {key}=\"{id}\"]]y[[/rt]][[/ruby]]"),
        7 => format!("[[a {key}=\"{id}\"]]x[[/a]]"),
        8 => format!("[[*a {key}=\"{id}\" href=\"#toc0\"]]x[[/a]]"),
        n => {
            let tag = ["span", "b", "i", "u", "s", "sup", "sub", "mark", "tt", "del"][n - 9];
            format!("[[{tag} {key}=\"{id}\"]]x[[/{tag}]]")
        }
    }
}

fn id_block(rng: &mut Rng) -> String {
    let id = *rng.pick::<&str>(IDS);
    let key = *rng.pick::<&str>(&["id", "ID"]);
    match rng.below(13) {
        0 => format!("[[div {key}=\"{id}\"]]\nx\n[[/div]]"),
        1 => format!("[[blockquote {key}=\"{id}\"]]\nx\n[[/blockquote]]"),
        2 => format!("[[collapsible {key}=\"{id}\"]]\nx\n[[/collapsible]]"),
        3 => format!("[[ul {key}=\"{id}\"]]\n[[li {key}=\"{id}\"]]\nx\n[[/li]]\n[[/ul]]"),
        4 => format!("[[table {key}=\"{id}\"]]\n[[row {key}=\"{id}\"]]\n[[cell {key}=\"{id}\"]]\nx\n[[/cell]]\n[[hcell {key}=\"{id}\"]]\ny\n[[/hcell]]\n[[/row]]\n[[/table]]"),
        5 => format!("[[toc {key}=\"{id}\"]]"),
        6 => format!("[[p {key}=\"{id}\"]]\nx\n[[/p]]"),
        7 => format!("[[iframe https://x.example/ {key}=\"{id}\"]]"),
        8 => "[[toc]]".to_string(),
        9 => {
            let mut entry = |label: &str| match rng.below(6) {
                0 => format!(": {label} : [[div]]\n+ one\n[[/div]]\n"),
                1 => format!(": {label} : [[footnote]]\n+ one\n[[/footnote]]\n"),
                2 => format!(": {label} : ((bibcite lab1)) ((bibcite lab2))\n"),
                3 => format!(": {label} : [[tabview]]\n[[tab one]]\n+ x\n[[/tab]]\n[[/tabview]]\n"),
                _ => format!(": {label} : one\n"),
            };
            let (one, two) = (entry("lab1"), entry("lab2"));
            format!("((bibcite lab1)) ((bibcite lab2))\n\n[[bibliography]]\n{one}{two}[[/bibliography]]\n\n((bibcite lab1))")
        }
        10 => format!("+ heading {}", rng.below(9)),
        11 => {
            let n = if rng.chance(1, 30) { 300 } else { rng.range(1, 6) };
            let mut out = String::from("[[tabview]]\n");
            for i in 0..n {
                out.push_str(&format!("[[tab t{i}]]\nx\n"));
                if rng.chance(1, 8) {
                    out.push_str("[[tabview]]\n[[tab inner]]\n+ y\n[[/tab]]\n[[/tabview]]\n");
                }
                out.push_str("[[/tab]]\n");
            }
            out + "[[/tabview]]"
        }
        _ => format!("[[module join {key}=\"{id}\"]]"),
    }
}

fn ids_case(rng: &mut Rng) -> RenderCase {
    let mut feat = gen::all_features();
    feat.tabs = 4;
    feat.bibs = 2;
    feat.cites = 3;
    feat.headings = 5;
    feat.toc = 2;
    feat.opens = rng.below(2);
    let mut doc = DocCase {
        text: with_snippets(rng, feat, &id_inline, &id_block),
        conf: gen::random_conf(rng),
        ..DocCase::default()
    };
    if rng.chance(1, 2) {
        doc.conf.flip |= 1 << 3;
    }
    damage(rng, &mut doc);
    RenderCase {
        doc,
        entropy: (
            rng.next(),
            if rng.chance(1, 2) { 0 } else { rng.below(4) as u64 },
            if rng.chance(1, 3) { 1 + rng.below(3) as u64 } else { 0 },
        ),
        ..RenderCase::default()
    }
}

fn kids_of_tag(dom: &Dom, el: usize, tag: &str) -> Vec<usize> {
    dom.els[el]
        .kids
        .iter()
        .filter_map(|k| match k {
            Kid::El(i) if dom.els[*i].tag == tag => Some(*i),
            _ => None,
        })
        .collect()
}

fn is_heading(tag: &str) -> bool {
    tag.len() == 2 && tag.starts_with('h') && (b'1'..=b'6').contains(&tag.as_bytes()[1])
}

/// Returns the ids which were generated for this rendering.
fn check_ids(out: &mut Outcome, case: &DocCase, ran: &Ran, dom: &Dom, body: &str) -> Vec<String> {
    let settings = case.conf.settings();
    let mut generated: Vec<(String, usize)> = vec![];
    let mut own: BTreeSet<usize> = BTreeSet::new();
    // Tabs.
    for el in dom.of_tag(0, "wj-tabs") {
        let divs = kids_of_tag(dom, el, "div");
        let [list, panels] = divs[..] else {
            out.fail("tabs", "a wj-tabs element does not have two parts");
            return vec![];
        };
        let buttons = kids_of_tag(dom, list, "wj-tabs-button");
        let panels = kids_of_tag(dom, panels, "div");
        if buttons.len() != panels.len() {
            out.fail("tabs", format!("{} buttons for {} panels", buttons.len(), panels.len()));
            return vec![];
        }
        for (i, (b, p)) in buttons.iter().zip(&panels).enumerate() {
            let (Some(bid), Some(pid)) = (dom.attr(*b, "id"), dom.attr(*p, "id")) else {
                out.fail("tabs", "a tab's button or panel has no id");
                return vec![];
            };
            if dom.attr(*b, "aria-controls") != Some(pid) {
                out.fail("tab reference", format!("button {} controls {:?}, its panel is {pid}", i + 1, dom.attr(*b, "aria-controls")));
            }
            if dom.attr(*p, "aria-labelledby") != Some(bid) {
                out.fail("tab reference", format!("panel {} is labelled by {:?}, its button is {bid}", i + 1, dom.attr(*p, "aria-labelledby")));
            }
            generated.push((bid.to_string(), *b));
            generated.push((pid.to_string(), *p));
            own.insert(*b);
            own.insert(*p);
        }
    }
    // Headings.
    let mut heads: BTreeSet<String> = BTreeSet::new();
    for (el, e) in dom.els.iter().enumerate() {
        if !is_heading(&e.tag) {
            continue;
        }
        let Some(id) = dom.attr(el, "id") else { continue };
        own.insert(el);
        let numbered = id.strip_prefix("toc").map_or(false, |n| n.parse::<u32>().is_ok());
        if settings.use_true_ids && numbered {
            heads.insert(id.to_string());
        }
        if settings.use_true_ids != numbered {
            out.fail("heading id", format!("a heading has the id {id:?}"));
        }
        generated.push((id.to_string(), el));
    }
    // Items of bibliographies.
    let mut items = BTreeSet::new();
    for marker in dom.of_tag(0, "wj-bibliography-item-marker") {
        let el = dom.els[marker].parent;
        own.insert(el);
        let id = dom.attr(el, "id").unwrap_or("");
        for part in id.split(' ') {
            // What a footnote or an entry contains is displayed twice.
            if case.unclean || !dom.within(el, "wj-footnote-ref-contents") && !dom.within(el, "wj-bibliography-ref-contents") {
                generated.push((part.to_string(), el));
            }
            items.insert(part.to_string());
        }
    }
    for (what, tag) in [("wj-toc-action-bar", true), ("wj-toc-list", true), ("wj-toc", false)] {
        for (el, e) in dom.els.iter().enumerate() {
            if dom.attr(el, "id").map_or(false, |id| id.split(' ').next() == Some(what)) && e.tag == "div" {
                // Only where there is a table of contents.
                let toc = if tag { e.parent } else { el };
                let bar = kids_of_tag(dom, toc, "div").first().copied().unwrap_or(0);
                let button = kids_of_tag(dom, bar, "a").first().copied().unwrap_or(0);
                if bar > 0 && button > 0 && dom.attr(button, "onclick").is_some() {
                    own.insert(el);
                    if !settings.use_true_ids && !case.text.to_ascii_lowercase().contains("\"wj-toc") {
                        out.fail("fixed id", format!("the id {what} although ids are to be generated"));
                    }
                    let rest = dom.attr(el, "id").unwrap().split(' ').skip(1);
                    if settings.isolate_user_ids {
                        for part in rest {
                            if !part.is_empty() && !part.starts_with("u-") {
                                out.fail("not isolated", format!("the id {part:?} of a user"));
                            }
                        }
                    }
                }
            }
        }
    }
    // No id is there twice.
    let mut seen: BTreeMap<&str, usize> = BTreeMap::new();
    for (id, el) in &generated {
        if let Some(other) = seen.insert(id, *el) {
            out.fail(
                "same id",
                format!("<{}> and <{}> both have the id {id}", dom.els[other].tag, dom.els[*el].tag),
            );
        }
    }
    // User ids.
    if settings.isolate_user_ids {
        for (el, e) in dom.els.iter().enumerate() {
            if own.contains(&el) {
                continue;
            }
            let id = dom.attr(el, "id").unwrap_or("");
            if let Some(part) = id.split_whitespace().find(|p| !p.starts_with("u-")) {
                out.fail("not isolated", format!("<{}> has the id {part:?}", e.tag));
            }
        }
    }
    // References.
    if !ran.tree.hidden_bib {
        for (el, e) in dom.els.iter().enumerate() {
            if dom.attr(el, "data-link-type") != Some("table-of-contents") || dom.is(el, "wj-anchor") {
                continue;
            }
            let target = dom.attr(el, "href").unwrap_or("");
            if settings.use_true_ids && !target.strip_prefix('#').map_or(false, |t| heads.contains(t)) {
                out.fail("contents reference", format!("<{}> of the table of contents leads to {target:?}, which no heading is", e.tag));
            }
        }
        for el in dom.of_tag(0, "wj-bibliography-ref-marker") {
            let end = format!("-{}", dom.attr(el, "data-id").unwrap_or("?"));
            if !items.iter().any(|i| i.ends_with(&end)) {
                out.fail("citation reference", format!("a citation of the entry {end:?}, which is not displayed"));
            }
        }
        let mut lists: BTreeMap<usize, usize> = BTreeMap::new();
        let mut entries = 0;
        for marker in dom.of_tag(0, "wj-footnote-list-item-marker") {
            let item = dom.els[marker].parent;
            let n = lists.entry(dom.els[item].parent).or_insert(0);
            *n += 1;
            entries = entries.max(*n);
            if dom.attr(item, "data-id") != Some(n.to_string().as_str()) {
                out.fail("footnote id", format!("entry {n} of the footnotes has the id {:?}", dom.attr(item, "data-id")));
            }
        }
        for el in dom.of_tag(0, "wj-footnote-ref-marker") {
            let id = dom.attr(el, "data-id").unwrap_or("");
            if !lists.is_empty() && !id.parse::<usize>().map_or(false, |n| n > 0 && n <= entries) {
                out.fail("footnote reference", format!("a reference to footnote {id:?} of {entries}"));
            }
        }
    }
    generated_ids(body).into_iter().map(str::to_string).collect()
}

fn run_ids(out: &mut Outcome, case: &RenderCase) {
    let (seed, mode, fault) = case.entropy;
    let before = (env::ENTROPY_EINTR.load(SeqCst), env::ENTROPY_SHORT.load(SeqCst));
    env::set_entropy(seed, mode, fault);
    with_run(out, &case.doc, Some(Answers::default()), |out, tree, ran| {
        let first = check_ids(out, &case.doc, ran, &ran.dom, &ran.html);
        out.evals += 1;
        let relevant = !ran.tree.tabs.is_empty() || !ran.tree.heads.is_empty() || ran.tree.notes > 0 || !ran.tree.bibs.is_empty();
        if relevant {
            out.nontrivial += 1;
            out.prints.push(mix(hash_str(&ran.source) ^ hash_str(&format!("{:?}{:?}", case.doc.conf, case.entropy))));
        }
        // Another rendering of the same page.
        let Some(second) = again(&case.doc, tree, &Answers::default()) else { return };
        let Ok(dom) = Dom::parse(&second.output.body) else { return };
        let ids = check_ids(out, &case.doc, ran, &dom, &second.output.body);
        out.evals += 1;
        let mut once: BTreeSet<&String> = first.iter().collect();
        // Those of the document itself.
        once.retain(|id| !ran.source.contains(id.as_str()));
        if mode == 0 {
            if let Some(id) = ids.iter().find(|id| once.contains(id)) {
                out.fail("same id", format!("two renderings both have the generated id {id}"));
            }
        }
        if first.len() != ids.len() {
            out.fail("number of ids", format!("{} generated ids in one rendering, {} in the next", first.len(), ids.len()));
        }
    });
    let names = ["fault.entropy pseudo-random", "fault.entropy all zeros", "fault.entropy all ones", "fault.entropy repeating"];
    if mode > 0 {
        out.count(names[mode as usize % 4], 1);
    }
    out.count("fault.entropy interrupted", env::ENTROPY_EINTR.load(SeqCst) - before.0);
    out.count("fault.entropy short read", env::ENTROPY_SHORT.load(SeqCst) - before.1);
}

// ---- P09 ---------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct When {
    pub form: u8,
    pub at: i64,
    /// Minutes east of Greenwich.
    pub east: i32,
    pub hover: u8,
    pub place: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Clock {
    pub secs: i64,
    pub nanos: i64,
    /// How far each reading moves the clock.
    pub drift: i64,
}

impl Clock {
    fn set(&self) {
        env::set_clock(self.secs.clamp(0, LATEST), self.nanos.rem_euclid(1_000_000_000), self.drift);
    }
}

/// The latest time a Linux kernel can be set to (in 2262).
const LATEST: i64 = 9_223_372_036;

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct DateCase {
    pub dates: Vec<When>,
    pub parse: Clock,
    pub renders: Vec<Clock>,
    #[serde(default)]
    pub conf: ops::Conf,
    #[serde(default)]
    pub faults: Faults,
}

/// Days since 1970 to (year, month, day).
fn civil(days: i64) -> (i64, i64, i64) {
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1_460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let month = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + i64::from(month <= 2), month, doy - (153 * mp + 2) / 5 + 1)
}

fn offset(east: i32, colon: bool) -> String {
    let sign = if east < 0 { '-' } else { '+' };
    let m = east.unsigned_abs();
    format!("{sign}{:02}{}{:02}", m / 60, if colon { ":" } else { "" }, m % 60)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Moment {
    At(i64),
    Now,
    /// Not a date.
    None,
}

impl When {
    /// What is written for it, the moment meant, and the offset displayed.
    fn write(&self) -> (String, Moment, Option<i64>) {
        // Years 1 to 9998.
        let at = self.at.clamp(-62_135_000_000, 253_370_000_000);
        let east = self.east % (24 * 60);
        let local = at + i64::from(east) * 60;
        let stamp = |t: i64| {
            let (y, m, d) = civil(t.div_euclid(86_400));
            let s = t.rem_euclid(86_400);
            (format!("{y:04}-{m:02}-{d:02}"), format!("{:02}:{:02}:{:02}", s / 3_600, s / 60 % 60, s % 60))
        };
        let (date, time) = stamp(local);
        let (utc_date, utc_time) = stamp(at);
        let secs = i64::from(east) * 60;
        let plain_east = if east >= 0 { offset(east, true)[1..].to_string() } else { offset(east, true) };
        match self.form % 16 {
            0 | 1 => (format!("{at}"), Moment::At(at), Some(0)),
            2 | 3 => (format!("{date}T{time}{}", offset(east, true)), Moment::At(at), Some(secs)),
            4 => (format!("{utc_date}T{utc_time}Z"), Moment::At(at), Some(0)),
            5 => (format!("{utc_date}T{utc_time}"), Moment::At(at), None),
            6 => (format!("{date}T{time} tz=\"{}\"", offset(east, true)), Moment::At(at), Some(secs)),
            7 => (format!("{date}T{time} tz=\"{}\"", offset(east, false)), Moment::At(at), Some(secs)),
            8 => (format!("{date}T{time} tz=\"{plain_east}\""), Moment::At(at), Some(secs)),
            9 => {
                // In seconds, where these are not read as hours and minutes.
                let digits = if secs.abs() >= 10_000 { format!("{secs}") } else { offset(east, true) };
                (format!("{date}T{time} tz=\"{digits}\""), Moment::At(at), Some(secs))
            }
            10 => (utc_date, Moment::At(at.div_euclid(86_400) * 86_400), None),
            11 => (
                format!("{date} tz=\"{}\"", offset(east, true)),
                Moment::At(local.div_euclid(86_400) * 86_400 - secs),
                Some(secs),
            ),
            12 => (["now", ".", "NOW", "Now"][east.unsigned_abs() as usize % 4].to_string(), Moment::Now, Some(0)),
            13 => (format!("now tz=\"{}\"", offset(east, true)), Moment::None, None),
            14 => (format!("{at} tz=\"{}\"", offset(east, true)), Moment::None, None),
            _ => (format!("{date}T{time}.75{}", offset(east, true)), Moment::At(at), Some(secs)),
        }
    }

    fn source(&self, i: usize) -> String {
        let hover = ["", " hover=\"true\"", " hover=\"false\""][self.hover as usize % 3];
        let date = format!("{} [[date {}{hover}]] end", gen::atom(i), self.write().0);
        match self.place % 16 {
            0..=2 => date,
            3 => format!("[[div]]\n{date}\n[[/div]]"),
            4 | 5 => format!("text[[footnote]]{date}[[/footnote]] more"),
            6 => format!("[[bibliography]]\n: ref{i} : {date}\n[[/bibliography]]\n\n((bibcite ref{i}))"),
            7 => format!("|| cell || {date} ||"),
            8 => format!("[[tabview]]\n[[tab one]]\nfirst\n[[/tab]]\n[[tab two]]\n{date}\n[[/tab]]\n[[/tabview]]"),
            9 => format!("[[collapsible]]\n{date}\n[[/collapsible]]"),
            10 => format!("* {date}\n * sub {date}"),
            11 => format!("**{date}**"),
            12 => format!("> {date}"),
            13 => format!("+ {date}"),
            14 => format!("[[iftags +tale]]\n{date}\n[[/iftags]]"),
            _ => format!("[[span class=\"x\"]]{date}[[/span]]"),
        }
    }
}

fn random_time(rng: &mut Rng) -> i64 {
    match rng.below(8) {
        0 => rng.below(200_000) as i64 - 100_000,
        1 => -(rng.below(62_000_000_000) as i64),
        2 => rng.below(250_000_000_000) as i64,
        3 => 946_684_800 + rng.below(3) as i64 - 1,
        // Near the ends of days.
        4 => rng.below(40_000) as i64 * 86_400 + rng.below(3) as i64 - 1,
        _ => rng.below(2_200_000_000) as i64,
    }
}

fn random_clock(rng: &mut Rng) -> Clock {
    Clock {
        secs: match rng.below(10) {
            0 => 0,
            1 => rng.below(100_000) as i64,
            2 => LATEST - rng.below(3) as i64,
            3 => (1 << 31) - 2 + rng.below(4) as i64,
            4 => (1 << 32) - 2 + rng.below(4) as i64,
            5 => rng.below(9_223_372_036) as i64,
            _ => 1_600_000_000 + rng.below(400_000_000) as i64,
        },
        nanos: *rng.pick(&[0, 1, 500_000_000, 999_999_999]),
        drift: match rng.below(6) {
            0 => 1_000_000,
            1 => 1_500_000_000,
            2 => -1_500_000_000,
            3 => rng.below(100_000_000_000) as i64,
            _ => 0,
        },
    }
}

fn dates_case(rng: &mut Rng) -> DateCase {
    let east = |rng: &mut Rng| match rng.below(4) {
        0 => 0,
        1 => *rng.pick(&[330, -210, 345, 765, -30, 30, 840, -720, 1439, -1439]),
        _ => rng.below(48 * 60) as i32 - 24 * 60 + 1,
    };
    DateCase {
        dates: (0..rng.range(1, 8))
            .map(|_| When {
                form: rng.below(16) as u8,
                at: random_time(rng),
                east: east(rng),
                hover: rng.below(4) as u8,
                place: rng.below(16) as u8,
            })
            .collect(),
        parse: random_clock(rng),
        renders: (0..rng.range(1, 4)).map(|_| random_clock(rng)).collect(),
        conf: gen::random_conf(rng),
        faults: if rng.chance(1, 4) { random_faults(rng, 2) } else { Faults::default() },
    }
}

/// As in "Fri, 20 Nov 2026 02:14:07 +0000".
fn displayed(at: i64, east: i64) -> String {
    let t = at + east;
    let days = t.div_euclid(86_400);
    let (y, m, d) = civil(days);
    let s = t.rem_euclid(86_400);
    let day = ["Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"][days.rem_euclid(7) as usize];
    let month = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"][m as usize - 1];
    format!(
        "{day}, {d:02} {month} {y:04} {:02}:{:02}:{:02} {}",
        s / 3_600,
        s / 60 % 60,
        s % 60,
        offset((east / 60) as i32, false)
    )
}

fn run_dates(out: &mut Outcome, case: &DateCase) {
    use crate::site::Site;
    use crate::trace::{call, Budget, End};
    let source: String = case.dates.iter().enumerate().map(|(i, d)| d.source(i) + "\n\n").collect();
    if std::env::var_os("FTMLSIM_SOURCE").is_some() {
        eprintln!("{source}\n--");
    }
    let text = ops::prepared(&source);
    let settings = case.conf.settings();
    let page = ops::Info::default();
    let info = page.page_info();
    let budget = || Budget {
        cancel_at: None,
        cap: Some(1_500_000),
    };
    let site = Site::new(case.faults.clone(), Some(Answers::default()));
    let tokens = ftml::tokenize(&text);
    let parse = |clock: &Clock| {
        clock.set();
        site.record.take();
        site.install();
        let (end, _) = call(budget(), || ftml::parse(&tokens, &info, &settings));
        Site::remove();
        let range = (clock.secs.clamp(0, LATEST), env::clock().0);
        match end {
            End::Returned(r) => {
                let (tree, errors): (SyntaxTree, Vec<_>) = r.into();
                Some((tree, errors, (range.0.min(range.1), range.0.max(range.1))))
            }
            _ => None,
        }
    };
    let Some((tree, errors, parsed)) = parse(&case.parse) else {
        return out.fail("call failed", format!("parsing at {:?} did not return", case.parse));
    };
    let faulty = site.record.borrow().rule_faults.values().sum::<u64>();
    out.count("fault.rule made to fail", faulty);
    let expected: Vec<(Moment, Option<i64>)> = case.dates.iter().map(|d| (d.write().1, d.write().2)).collect();
    let fixed = !expected.iter().any(|e| e.0 == Moment::Now);
    // Parsing looks at the clock for the current time only.
    if fixed && !case.renders.is_empty() {
        match parse(&case.renders[0]) {
            None => return out.fail("call failed", format!("parsing at {:?} did not return", case.renders[0])),
            Some((other, other_errors, _)) => {
                if ops::json(&other) != ops::json(&tree) || ops::json(&other_errors) != ops::json(&errors) {
                    return out.fail("clock changes the tree", ops::first_difference(&ops::json(&tree), &ops::json(&other)));
                }
            }
        }
    }
    let mut first: Option<(String, String)> = None;
    let mut nows: Option<BTreeMap<usize, Vec<i64>>> = None;
    let mut last = case.parse.secs;
    for clock in &case.renders {
        clock.set();
        site.install();
        let (end, _) = call(budget(), || ops::render_html(&tree, &info, &settings));
        let start = clock.secs.clamp(0, LATEST);
        let stop = env::clock().0;
        let (lo, hi) = (start.min(stop), start.max(stop));
        let (end_text, _) = call(budget(), || ops::render_text(&tree, &info, &settings));
        Site::remove();
        let (End::Returned(html), End::Returned(plain)) = (end, end_text) else {
            return out.fail("call failed", format!("rendering at {clock:?} did not return"));
        };
        let Ok(dom) = Dom::parse(&html.body) else {
            out.count("HTML which was not well-formed (judged by P21)", 1);
            return;
        };
        let mut shown = vec![0; case.dates.len()];
        let mut now_shown: BTreeMap<usize, Vec<i64>> = BTreeMap::new();
        for el in dom.of_class(0, "wj-date") {
            let (Some(at), Some(delta)) = (dom.attr(el, "data-timestamp"), dom.attr(el, "data-delta")) else {
                out.fail("date attributes", "a date has no timestamp or no age");
                return;
            };
            let (Ok(at), Ok(delta)) = (at.parse::<i64>(), delta.parse::<i64>()) else {
                out.fail("date attributes", format!("a date of {at:?} with the age {delta:?}"));
                return;
            };
            // From when it says, to the clock.
            let now = at - delta;
            if now < lo || now > hi {
                return out.fail(
                    "age",
                    format!("a date of {at} has the age {delta}, while the clock went from {start} to {stop}"),
                );
            }
            let parent = dom.els[el].parent;
            let mut before = String::new();
            for kid in &dom.els[parent].kids {
                match kid {
                    Kid::Text(t) => before.push_str(t),
                    Kid::El(i) if *i == el => break,
                    Kid::El(_) => (),
                }
            }
            let Some(i) = gen::atoms_in(&before).pop().filter(|i| *i < shown.len()) else {
                out.count("dates which cannot be told apart", 1);
                continue;
            };
            shown[i] += 1;
            let text = dom.text(el);
            match expected[i].0 {
                Moment::At(t) => {
                    if at != t {
                        return out.fail("moment", format!("[[date {}]] is {t}, the output has {at}", case.dates[i].write().0));
                    }
                    let wanted = expected[i].1.map(|east| displayed(t, east));
                    if text != "<ERROR>" && wanted.map_or(false, |w| w != text) {
                        return out.fail("displayed", format!("[[date {}]] is displayed as {text:?}", case.dates[i].write().0));
                    }
                }
                Moment::Now => {
                    if at < parsed.0 || at > parsed.1 {
                        return out.fail("moment", format!("the current time is {at}, the page was parsed at {parsed:?}"));
                    }
                    now_shown.entry(i).or_insert_with(Vec::new).push(at);
                    if text != displayed(at, 0) {
                        return out.fail("displayed", format!("the current time {at} is displayed as {text:?}"));
                    }
                }
                Moment::None => {
                    return out.fail("moment", format!("[[date {}]] is a date", case.dates[i].write().0));
                }
            }
            let hover = case.dates[i].hover % 3 != 2;
            if dom.is(el, "wj-date-hover") != hover {
                return out.fail("hover", format!("a date written {:?}", case.dates[i].source(i)));
            }
        }
        // Every rendering shows the time at which the page was parsed.
        match &nows {
            Some(before) if *before != now_shown => {
                return out.fail("moment", format!("the current times were {before:?} and are now {now_shown:?}"));
            }
            _ => nows = Some(now_shown),
        }
        if faulty == 0 {
            for (i, n) in shown.iter().enumerate() {
                if *n == 0 && expected[i].0 != Moment::None {
                    return out.fail("missing date", format!("{:?} shows no date", case.dates[i].source(i)));
                }
            }
        }
        out.evals += 1;
        if shown.iter().any(|n| *n > 0) {
            out.nontrivial += 1;
            out.prints.push(mix(hash_str(&source) ^ mix(clock.secs as u64 ^ mix(clock.drift as u64 ^ case.parse.secs as u64))));
        }
        out.count("fault.clock set forward", u64::from(clock.secs > last));
        out.count("fault.clock set back", u64::from(clock.secs < last));
        out.count("fault.clock drifting", u64::from(clock.drift != 0));
        out.sim_ms += (clock.secs - last).unsigned_abs().min(1 << 33) * 1_000;
        last = clock.secs;
        let rest = normalize_ids(&mask_delta(&html.body));
        match &first {
            None => first = Some((rest, plain)),
            Some((html0, plain0)) => {
                if *html0 != rest {
                    return out.fail("clock changes the output", ops::first_difference(html0, &rest));
                }
                if *plain0 != plain {
                    return out.fail("clock changes the text", ops::first_difference(plain0, &plain));
                }
            }
        }
    }
}

// ---- P19 ---------------------------------------------------------------------

const LINKED: &[&str] = &[
    "page-one", "page-two", "cat:page-one", "Page-One", "page one", "missing", ":sandbox:page-one", ":other:page-one",
    ":other:missing", ":SandBox:page-one", "page-one/edit", "page-one#toc0", ":sandbox:page-one#x", "page-one ", "system:page-one", "\u{e9}t\u{e9}",
    ":other:cat:page-one", "page-one?a=b", "_default:page-one",
];
const ADDRESSES: &[&str] = &[
    "https://x.example/", "http://x.example/page-one", "mailto:a@x.example", "/page-one", "/page-one/edit", "#top", "/", "#",
    "/https://x.example/", "ftp://x.example/", "javascript:;", "page-one", "//x.example/", "https://x.example/?a=1&b=2#c", "/page-one#toc0",
];

fn link_inline(rng: &mut Rng) -> String {
    let page = *rng.pick::<&str>(LINKED);
    let url = *rng.pick::<&str>(ADDRESSES);
    match rng.below(13) {
        0 | 1 => format!("[[[{page}]]]"),
        2 | 3 => format!("[[[{page}|label]]]"),
        4 => format!("[[[{page}|]]]"),
        5 => format!("[[[*{page}|label]]]"),
        6 => format!("[[[{url}|label]]]"),
        7 => format!("[[[{url}]]]"),
        8 => format!("[{url} label]"),
        9 => format!("[*{url} label]"),
        10 => format!("{url} "),
        11 => format!("[[[!wp:{page}|wiki]]]"),
        _ => format!("[#{} label]", rng.pick::<&str>(&["top", "toc0", ""])),
    }
}

fn link_block(rng: &mut Rng) -> String {
    let link = link_inline(rng);
    match rng.below(8) {
        0 => format!("text[[footnote]]{link}[[/footnote]]"),
        1 => format!("[[bibliography]]\n: lab1 : {link}\n[[/bibliography]]\n\n((bibcite lab1)) ((bibcite lab1))"),
        2 => format!("[[tabview]]\n[[tab x]]\n{link}\n[[/tab]]\n[[/tabview]]"),
        3 => format!("+ {link}\n\n[[toc]]"),
        4 => format!("[[image one.png link=\"{}\"]]", rng.pick::<&str>(LINKED)),
        5 => format!("[[iftags -tale]]\n{link}\n[[/iftags]]"),
        6 => format!("[[a href=\"{}\"]]{link}[[/a]]", rng.pick::<&str>(ADDRESSES)),
        _ => format!("* {link}\n* {}", link_inline(rng)),
    }
}

/// What is known of the page, other than in most documents.
fn linked_info(rng: &mut Rng) -> ops::Info {
    let mut info = ops::Info::default();
    if rng.chance(1, 2) {
        info.page = rng.pick::<&str>(&["page-one", "missing", "page-two", "d\u{e9}j\u{e0}"]).to_string();
        info.category = rng.pick::<Option<&str>>(&[None, Some("_default"), Some("fragment"), Some("cat"), Some("page-one")]).map(str::to_string);
        info.site = rng.pick::<&str>(&["sandbox", "other", "other-site", "my-wiki"]).to_string();
        info.title = rng.pick::<&str>(&["Page title", "page-one", ""]).to_string();
        info.alt_title = rng.pick::<Option<&str>>(&[None, Some("page-two")]).map(str::to_string);
        info.language = rng.pick::<&str>(&["default", "de"]).to_string();
        if rng.chance(1, 2) {
            info.tags = vec!["fragment".to_string(), "page-one".to_string()];
        }
    }
    info
}

fn links_case(rng: &mut Rng) -> RenderCase {
    let mut feat = gen::all_features();
    feat.links = 8;
    feat.opens = rng.below(2);
    let mut doc = DocCase {
        text: with_snippets(rng, feat, &link_inline, &link_block),
        conf: gen::random_conf(rng),
        info: linked_info(rng),
        ..DocCase::default()
    };
    damage(rng, &mut doc);
    let mut answers = Answers {
        fickle: rng.chance(1, 2),
        ..Answers::default()
    };
    if rng.chance(3, 4) {
        for name in ["page-one", "page-two", "Page-One", "missing", ":other:page-one", ":sandbox:page-one", "cat:page-one", "page-three"] {
            if rng.chance(1, 3) {
                answers.missing.push(name.to_string());
            }
        }
    }
    RenderCase {
        doc,
        answers,
        ..RenderCase::default()
    }
}

fn letters(s: &str) -> String {
    s.chars().filter(char::is_ascii_alphanumeric).collect::<String>().to_ascii_lowercase()
}

fn is_address(s: &str) -> bool {
    const SCHEMES: &[&str] = &[
        "blob:", "chrome-extension://", "chrome://", "content://", "dns:", "feed:", "file://", "ftp://", "git://",
        "gopher://", "http://", "https://", "irc6://", "irc://", "ircs://", "mailto:", "resource://", "rtmp://", "sftp://",
    ];
    SCHEMES.iter().any(|x| s.starts_with(x))
}

fn run_links(out: &mut Outcome, case: &RenderCase) {
    with_run(out, &case.doc, Some(case.answers.clone()), |out, tree, _| {
        // Looked at on its own, so that each request is the rendering's.
        let Some(one) = again(&case.doc, tree, &case.answers) else { return };
        let Ok(dom) = Dom::parse(&one.output.body) else { return };
        check_links(out, case, &dom, &one);
        out.evals += 1;
        let pages = one.html.exists.len();
        out.count("fault.page answered to be missing", one.html.existing.iter().filter(|e| !**e).count() as u64);
        out.count("fault.answer which would turn around", u64::from(case.answers.fickle && pages > 0));
        if pages > 0 {
            out.nontrivial += 1;
            out.prints.push(mix(hash_str(&one.output.body) ^ hash_str(&format!("{:?}{:?}", case.answers, case.doc.conf))));
        }
        out.evals += 1;
        if one.plain.exists.len() > 0 {
            out.fail("lookup for text", "rendering text asked whether a page exists");
        }
    });
}

fn check_links(out: &mut Outcome, case: &RenderCase, dom: &Dom, one: &Again) {
    let own_site = &case.doc.info.site;
    let answers: Vec<((&str, &str), bool)> = one
        .html
        .exists
        .iter()
        .map(|(s, p)| (s.as_str(), p.as_str()))
        .zip(one.html.existing.iter().copied())
        .collect();
    for (i, a) in answers.iter().enumerate() {
        if answers[..i].iter().any(|b| a.0 == b.0) {
            return out.fail("asked again", format!("whether {:?} exists was asked more than once", a.0));
        }
    }
    let internal = &one.output.backlinks.internal_links;
    let external = &one.output.backlinks.external_links;
    // Which of a link to an address and one to a page an unsafe one was is
    // not seen in the output: the possible numbers of entries of both lists.
    let mut ambiguous = false;
    let mut used_up: BTreeSet<(usize, usize)> = [(0, 0)].into();
    let mut used = BTreeSet::new();
    for el in dom.of_tag(0, "a") {
        let Some(kind) = dom.attr(el, "data-link-type") else { continue };
        if !dom.is(el, "wj-link") || dom.is(el, "wj-anchor") {
            continue;
        }
        let href = dom.attr(el, "href").unwrap_or("");
        if dom.is(el, "wj-link-anchor") {
            if !href.starts_with('#') && href != "javascript:;" {
                return out.fail("link class", format!("the link to {href:?} is shown as one within the page"));
            }
            continue;
        }
        let to_page = kind == "page";
        if !to_page && is_address(href) {
            if !dom.is(el, "wj-link-external") {
                return out.fail("link class", format!("the link to {href:?} is not shown as external"));
            }
            let next: BTreeSet<_> = used_up
                .iter()
                .filter(|u| external.get(u.1).map_or(false, |url| href.starts_with(url.as_ref())))
                .map(|u| (u.0, u.1 + 1))
                .collect();
            if next.is_empty() {
                let other = external.get(used_up.first().unwrap().1);
                return out.fail("external links", format!("the document shows a link to {href:?}, the list has {other:?} in its place"));
            }
            used_up = next;
            continue;
        }
        // As in [/https://x.example/ x].
        let either = href.starts_with("#invalid-url") && !to_page && dom.is(el, "wj-link-internal");
        let fits = |page: &ftml::data::PageRef| {
            let name = letters(page.page());
            let path = match page.site() {
                Some(_) => href.splitn(4, '/').nth(3).unwrap_or(""),
                None => href,
            };
            let same = !page.page().is_ascii() || page.page().contains('_') || letters(path).starts_with(&name) || href.starts_with("#invalid-url");
            same && page.site().map_or(true, |s| href.starts_with(&format!("https://{s}")))
        };
        let mut next: BTreeSet<_> = used_up
            .iter()
            .filter(|u| internal.get(u.0).map_or(false, fits))
            .map(|u| (u.0 + 1, u.1))
            .collect();
        if either {
            next.extend(used_up.iter().filter(|u| external.get(u.1).map_or(false, |u| is_address(u))).map(|u| (u.0, u.1 + 1)));
        }
        if next.is_empty() {
            let other = internal.get(used_up.first().unwrap().0);
            return out.fail("internal links", format!("the document shows a link to {href:?}, the list has {other:?} in its place"));
        }
        let pages: BTreeSet<_> = next.iter().filter(|u| u.0 > 0).map(|u| u.0 - 1).collect();
        used_up = next;
        if !to_page {
            continue;
        }
        if pages.len() != 1 {
            ambiguous = true;
            out.count("page links which cannot be told apart", 1);
            continue;
        }
        let page = &internal[*pages.first().unwrap()];
        let key = (page.site().unwrap_or(own_site), page.page());
        let Some(answer) = answers.iter().find(|a| a.0 == key) else {
            return out.fail("not asked", format!("the document shows a link to {key:?}, which was not looked up"));
        };
        used.insert(key);
        if dom.is(el, "wj-link-missing") == answer.1 {
            return out.fail(
                "existence",
                format!("{key:?} was answered to {}exist, a link to it is shown otherwise", if answer.1 { "" } else { "not " }),
            );
        }
        if !dom.is(el, "wj-link-internal") {
            return out.fail("link class", format!("the link to {href:?} is not shown as internal"));
        }
    }
    if !used_up.contains(&(internal.len(), external.len())) {
        let (i, e) = used_up.first().unwrap();
        return out.fail("links not shown", format!("the lists have {:?} and {:?}, which are not shown", &internal[*i..], &external[*e..]));
    }
    if let Some(a) = answers.iter().find(|a| !used.contains(&a.0)) {
        if ambiguous {
            return;
        }
        out.fail("asked in vain", format!("{:?} was looked up, no link to it is shown", a.0));
    }
}

// ---- P20 ---------------------------------------------------------------------

const TITLE: &str = "\u{27ea}title of ";
const IMAGES: &str = "https://img.example/";
const SNIPPETS: &str = "https://html.example/";

fn lookup_inline(rng: &mut Rng) -> String {
    let user = *rng.pick::<&str>(&["alice", "bob <b>", "carol & co", "d\u{e9}j\u{e0}", "alice", "-", "a_b", "two words"]);
    let page = *rng.pick::<&str>(LINKED);
    match rng.below(9) {
        0 => format!("[[user {user}]]"),
        1 => format!("[[*user {user}]]"),
        2 | 3 => format!("[[[{page}|]]]"),
        4 => format!("[[image {}.png]]", rng.pick::<&str>(&["one", "two", "https://x.example/y", "page/three", "fragment:page/four", "other-site/page/five", "/page/six"])),
        5 => format!("[[image one.png link=\"{page}\" alt=\"<b>\"]]"),
        6 => format!("[[=image two.png class=\"x\"]]"),
        7 => "[[html]]\n<p>x</p>\n[[/html]]".to_string(),
        _ => format!("[[[{page}]]]"),
    }
}

fn lookup_block(rng: &mut Rng) -> String {
    let x = lookup_inline(rng);
    match rng.below(6) {
        0 => format!("text[[footnote]]{x}[[/footnote]]"),
        1 => format!("[[bibliography]]\n: lab1 : {x}\n[[/bibliography]]\n\n((bibcite lab1)) ((bibcite lab1))"),
        2 => format!("[[tabview]]\n[[tab x]]\n{x}\n[[/tab]]\n[[/tabview]]"),
        3 => format!("+ {x}\n\n[[toc]]"),
        4 => format!("[[iftags -tale]]\n{x}\n[[/iftags]]"),
        _ => format!("* {x}\n* {}", lookup_inline(rng)),
    }
}

fn lookups_case(rng: &mut Rng) -> RenderCase {
    let mut feat = gen::all_features();
    feat.links = 5;
    feat.users = 5;
    feat.images = 5;
    feat.opens = rng.below(2);
    let mut doc = DocCase {
        text: with_snippets(rng, feat, &lookup_inline, &lookup_block),
        conf: gen::random_conf(rng),
        info: linked_info(rng),
        ..DocCase::default()
    };
    damage(rng, &mut doc);
    let mut answers = Answers {
        messages: rng.chance(1, 2),
        ..Answers::default()
    };
    let bits = rng.range(0, 4);
    for _ in 0..rng.range(1, 6) {
        let kind = *rng.pick::<&str>(&["title", "user", "image"]);
        answers.fail.push((kind.to_string(), 1 + rng.below(1 << bits) as u64));
    }
    RenderCase {
        doc,
        answers,
        ..RenderCase::default()
    }
}

/// Where looked up items show: (kind, element), in order.
fn places(dom: &Dom, titled: &dyn Fn(usize, usize) -> bool) -> Vec<(u8, usize)> {
    let mut out = vec![];
    let mut links = 0;
    for (el, e) in dom.els.iter().enumerate() {
        match e.tag.as_str() {
            "span" if dom.attr(el, "class") == Some("wj-user-info") => out.push((0, el)),
            "div" if dom.is(el, "wj-image-container") => out.push((1, el)),
            "div" if dom.is(el, "wj-error-block") && !dom.is(e.parent, "wj-math") => out.push((1, el)),
            "a" if dom.is(el, "wj-link") && !dom.is(el, "wj-anchor") => {
                if titled(links, el) {
                    out.push((2, el));
                }
                links += 1;
            }
            _ => (),
        }
    }
    out
}

/// The bytes between the places.
fn around(html: &str, dom: &Dom, places: &[(u8, usize)]) -> String {
    let mut out = String::new();
    let mut at = 0;
    for (kind, el) in places {
        let e = &dom.els[*el];
        let (from, to) = if *kind == 2 { e.inner } else { e.bytes };
        if from < at {
            continue;
        }
        out.push_str(&html[at..from]);
        out.push('\u{1}');
        at = to;
    }
    out + &html[at..]
}

fn run_lookups(out: &mut Outcome, case: &RenderCase) {
    let mut doc = case.doc.clone();
    // So that nothing looks like what the renderer makes.
    doc.text = doc.text.replace("wj-", "wk-").replace('\u{27ea}', "(");
    let good = Answers {
        title: Some(TITLE.into()),
        image_url: Some(IMAGES.into()),
        html_url: Some(SNIPPETS.into()),
        fail: vec![],
        ..case.answers.clone()
    };
    let bad = Answers {
        fail: case.answers.fail.clone(),
        ..good.clone()
    };
    with_run(out, &doc, Some(Answers::default()), |out, tree, ran| {
        let fresh = || {
            env::set_entropy(3, 0, 0);
            env::set_clock(1_700_000_000, 0, 0);
        };
        fresh();
        let Some(a) = again(&doc, tree, &good) else { return };
        fresh();
        let Some(b) = again(&doc, tree, &bad) else {
            return out.fail("call failed", "a rendering with failing lookups did not return");
        };
        let (Ok(da), Ok(db)) = (Dom::parse(&a.output.body), Dom::parse(&b.output.body)) else {
            out.count("HTML which was not well-formed (judged by P21)", 1);
            return;
        };
        out.evals += 1;
        let failed = b.html.lookup_faults + b.plain.lookup_faults;
        out.count("fault.lookup failed", failed);
        if failed > 0 {
            out.nontrivial += 1;
            out.prints.push(mix(hash_str(&ran.source) ^ hash_str(&format!("{:?}{:?}", bad, doc.conf))));
        }
        check_lookups(out, case, &doc, ran, &Tree::of_footnotes(tree), (&a, &da), (&b, &db));
        // With the answers which come with the library.
        fresh();
        let own = Answers {
            html_url: good.html_url.clone(),
            messages: good.messages,
            ..Answers::default()
        };
        let Some(c) = again(&doc, tree, &own) else {
            return out.fail("call failed", "a rendering with the library's own answers did not return");
        };
        if let Ok(dc) = Dom::parse(&c.output.body) {
            out.evals += 1;
            check_own(out, case, &doc, (&a, &da), (&c, &dc));
        }
    });
}

/// The title's place among the links, in a rendering which succeeded.
fn titled_links(dom: &Dom) -> BTreeSet<usize> {
    let mut set = BTreeSet::new();
    let mut n = 0;
    for el in dom.of_tag(0, "a") {
        if dom.is(el, "wj-link") && !dom.is(el, "wj-anchor") {
            if dom.text(el).starts_with(TITLE) {
                set.insert(n);
            }
            n += 1;
        }
    }
    set
}

/// What stands where something was looked up, when the library answers.
fn check_own(out: &mut Outcome, case: &RenderCase, doc: &DocCase, a: (&Again, &Dom), c: (&Again, &Dom)) {
    let (a, da) = a;
    let (c, dc) = c;
    let titled = titled_links(da);
    let pa = places(da, &|n, _| titled.contains(&n));
    let pc = places(dc, &|n, _| titled.contains(&n));
    if pa.len() != pc.len() || pa.iter().zip(&pc).any(|(x, y)| x.0 != y.0) {
        return out.fail("other places", format!("{} places in the output, {} with the library's own answers", pa.len(), pc.len()));
    }
    let (ra, rc) = (around(&a.output.body, da, &pa), around(&c.output.body, dc, &pc));
    if ra != rc {
        return out.fail("not only there", ops::first_difference(&ra, &rc));
    }
    let local = doc.conf.settings().allow_local_paths;
    let mut users = a.html.users.iter();
    let mut images = a.html.images.iter();
    let mut titles = a.html.titles.iter();
    for (x, y) in pa.iter().zip(&pc) {
        let (kind, ea, ec) = (x.0, x.1, y.1);
        let html = &c.output.body[dc.els[ec].bytes.0..dc.els[ec].bytes.1];
        match kind {
            0 => {
                let Some(user) = users.next() else { return };
                let user = user.replace('\0', " ");
                let links = dc.of_class(ec, "wj-user-info-link");
                let href = links.first().and_then(|l| dc.attr(*l, "href")).unwrap_or("");
                let name: Vec<String> = dc.of_class(ec, "wj-user-info-name").iter().map(|e| dc.text(*e)).collect();
                if name != [user.clone()] || !href.ends_with(&user) || !dc.of_class(ec, "wj-error-inline").is_empty() {
                    return out.fail("own answer", format!("the user {user:?} is shown as {html}"));
                }
            }
            1 => {
                // A file or an address of an image.
                let Some(image) = images.next() else { return };
                let address = image.starts_with("https://") || image.starts_with("http://");
                if !address && image.contains("//") {
                    continue;
                }
                let shown = dc.is(ec, "wj-image-container");
                if !address && shown != local {
                    return out.fail("local image", format!("{image:?} with local paths {}allowed is shown as {html}", if local { "" } else { "not " }));
                }
                let wanted = if case.answers.messages { "M10<b a='\"&>" } else { "No images in this context" };
                if !shown && dc.text(ec) != wanted {
                    return out.fail("fallback for an image", format!("{image:?} is shown as {html}"));
                }
                if shown {
                    let src = |d: &Dom, el: usize| d.of_tag(el, "img").first().and_then(|i| d.attr(*i, "src")).unwrap_or("").to_string();
                    let image = image.replace('\0', " ");
                    let site = doc.info.site.replace('\0', " ");
                    let parts: Vec<&str> = image.splitn(3, '/').collect();
                    let fits = match parts[..] {
                        _ if address => src(dc, ec).starts_with(&image),
                        [site, page, file] => src(dc, ec).starts_with(&format!("https://{site}.")) && src(dc, ec).contains(&format!("/{page}/{file}")),
                        [page, file] => src(dc, ec).starts_with(&format!("https://{site}.")) && src(dc, ec).contains(&format!("/{page}/{file}")),
                        _ => src(dc, ec).starts_with(&format!("https://{site}.")) && src(dc, ec).contains(&format!("/{}/{image}", doc.info.page.replace('\0', " "))),
                    };
                    if !fits || src(da, ea).is_empty() {
                        return out.fail("image", format!("the image {image:?} is shown as {:?}", src(dc, ec)));
                    }
                }
            }
            _ => {
                let Some((site, page)) = titles.next() else { return };
                let text = dc.text(ec);
                if !text.contains(&site.replace('\0', " ")) || !text.contains(&page.replace('\0', " ")) {
                    return out.fail("title", format!("the title of {page:?} on {site:?} is shown as {text:?}"));
                }
            }
        }
    }
}

fn check_lookups(out: &mut Outcome, case: &RenderCase, doc: &DocCase, ran: &Ran, notes: &Tree, a: (&Again, &Dom), b: (&Again, &Dom)) {
    let (a, da) = a;
    let (b, db) = b;
    for (what, x, y) in [
        ("users", &a.html.users, &b.html.users),
        ("images", &a.html.images, &b.html.images),
        ("HTML snippets", &a.html.html, &b.html.html),
    ] {
        if x != y {
            return out.fail("other lookups", format!("{what} looked up: {x:?}, and with failing lookups {y:?}"));
        }
    }
    if a.html.titles != b.html.titles || a.plain.titles != b.plain.titles {
        return out.fail("other lookups", format!("titles looked up: {:?}, and with failing lookups {:?}", a.html.titles, b.html.titles));
    }
    // Each lookup is about an item of the document, and each item is looked up.
    let strings = |list: &[(String, String)]| list.iter().map(|(s, p)| format!(":{s}:{p}")).collect::<Vec<_>>();
    let titles = |t: &Tree| {
        t.titled
            .iter()
            .map(|(site, page)| format!(":{}:{page}", site.as_ref().unwrap_or(&doc.info.site)))
            .collect::<Vec<_>>()
    };
    for (what, tree, more, asked) in [
        ("user", ran.tree.users.clone(), notes.users.clone(), a.html.users.clone()),
        ("image", ran.tree.images.clone(), notes.images.clone(), a.html.images.clone()),
        ("title of", titles(&ran.tree), titles(notes), strings(&a.html.titles)),
    ] {
        if let Some(x) = tree.iter().find(|x| !asked.contains(x)) {
            return out.fail("not looked up", format!("the {what} {x:?} of the document"));
        }
        // Entries of hidden bibliographies are shown where they are cited.
        if ran.tree.hidden_bib {
            continue;
        }
        if let Some(x) = asked.iter().find(|x| !tree.contains(x) && !more.contains(x)) {
            return out.fail("other lookups", format!("the {what} {x:?}, which is not in the document"));
        }
    }
    let titled = titled_links(da);
    let pa = places(da, &|n, _| titled.contains(&n));
    let pb = places(db, &|n, _| titled.contains(&n));
    if pa.len() != pb.len() || pa.iter().zip(&pb).any(|(x, y)| x.0 != y.0) {
        return out.fail("other places", format!("{} places in the output, {} with failing lookups", pa.len(), pb.len()));
    }
    let (ra, rb) = (around(&a.output.body, da, &pa), around(&b.output.body, db, &pb));
    if ra != rb {
        return out.fail("not only there", ops::first_difference(&ra, &rb));
    }
    if ops::json(&a.output.backlinks) != ops::json(&b.output.backlinks) || ops::json(&a.output.meta) != ops::json(&b.output.meta) {
        return out.fail("not only there", "backlinks or metadata differ with failing lookups");
    }
    let mut counts = [0usize; 3];
    let own_site = &doc.info.site;
    for (x, y) in pa.iter().zip(&pb) {
        let (kind, ea, eb) = (x.0, x.1, y.1);
        counts[kind as usize] += 1;
        let n = counts[kind as usize];
        let name = ["user", "image", "title"][kind as usize];
        let fails = case.answers.fail.iter().any(|(k, i)| k == name && *i == n as u64);
        let (ba, bb) = (da.els[ea].bytes, db.els[eb].bytes);
        if !fails && a.output.body[ba.0..ba.1] != b.output.body[bb.0..bb.1] {
            return out.fail(
                "not only there",
                format!("{name} {n} was found both times: {}", ops::first_difference(&a.output.body[ba.0..ba.1], &b.output.body[bb.0..bb.1])),
            );
        }
        match kind {
            0 => {
                let Some(user) = a.html.users.get(n - 1) else {
                    return out.fail("more places", format!("{n} users are shown, fewer were looked up"));
                };
                let user = user.replace('\0', " ");
                let shown = |d: &Dom, el: usize| d.of_class(el, "wj-user-info-name").iter().map(|e| d.text(*e)).collect::<Vec<_>>();
                if shown(da, ea) != [user.clone()] || da.of_class(ea, "wj-user-info-link").len() != 1 {
                    return out.fail("user", format!("the user {user:?} was looked up for a place which shows {:?}", shown(da, ea)));
                }
                if fails {
                    let errors = db.of_class(eb, "wj-error-inline");
                    if errors.len() != 1 || shown(db, eb) != [user.clone()] || db.of_tag(eb, "a").len() > 0 {
                        return out.fail("fallback for a user", format!("the user {user:?} who is not found is shown as {:?}", &b.output.body[bb.0..bb.1]));
                    }
                    if db.of_tag(eb, "img").len() != da.of_tag(ea, "img").len() {
                        return out.fail("fallback for a user", "with an avatar where there was none, or the reverse");
                    }
                }
            }
            1 => {
                let Some(image) = a.html.images.get(n - 1) else {
                    return out.fail("more places", format!("{n} images are shown, fewer were looked up"));
                };
                let address = format!("{IMAGES}{image}").replace('\0', " ");
                let src = |d: &Dom, el: usize| {
                    let all = d.of_tag(el, "img");
                    all.iter().map(|i| d.attr(*i, "src").unwrap_or("").to_string()).collect::<Vec<_>>()
                };
                // A `src` of the user's own comes after it.
                let good = src(da, ea);
                if good.len() != 1 || !(good[0] == address || good[0].starts_with(&format!("{address} "))) {
                    return out.fail("image", format!("the image {image:?} was looked up for a place which shows {good:?}"));
                }
                if fails {
                    let text = db.text(eb);
                    let wanted = if case.answers.messages { "M10<b a='\"&>" } else { "No images in this context" };
                    if !db.is(eb, "wj-error-block") || !src(db, eb).is_empty() || text != wanted {
                        return out.fail("fallback for an image", format!("the image {image:?} which is not found is shown as {:?}", &b.output.body[bb.0..bb.1]));
                    }
                }
            }
            _ => {
                let Some((site, page)) = a.html.titles.get(n - 1) else {
                    return out.fail("more places", format!("{n} titles are shown, fewer were looked up"));
                };
                if da.text(ea) != format!("{TITLE}{site}/{page}").replace('\0', " ") {
                    return out.fail("title", format!("the title of {page:?} was looked up for a link which shows {:?}", da.text(ea)));
                }
                if fails {
                    let href = db.attr(eb, "href").unwrap_or("");
                    let elsewhere = site != own_site || href.starts_with(&format!("https://{site}"));
                    let wanted = if elsewhere { format!(":{site}:{page}") } else { page.clone() };
                    if db.text(eb) != wanted.replace('\0', " ") {
                        return out.fail("fallback for a title", format!("a link to {wanted:?}, which has no title, shows {:?}", db.text(eb)));
                    }
                }
            }
        }
    }
    for (n, (what, looked)) in [("users", a.html.users.len()), ("images", a.html.images.len()), ("titles", a.html.titles.len())].iter().enumerate() {
        if counts[n] != *looked {
            return out.fail("fewer places", format!("{looked} {what} were looked up, {} are shown", counts[n]));
        }
    }
    // HTML snippets.
    let frames: Vec<&str> = da.of_tag(0, "iframe").iter().filter_map(|e| da.attr(*e, "src")).filter(|s| s.starts_with(SNIPPETS)).collect();
    let wanted: Vec<String> = a.html.html.iter().map(|h| format!("{SNIPPETS}{:016x}", hash_str(h))).collect();
    if frames != wanted {
        return out.fail("HTML snippets", format!("frames of {frames:?}, given out were {wanted:?}"));
    }
    // The text output.
    let mut expected = String::new();
    let mut rest = a.text.as_str();
    let mut got = b.text.as_str();
    let mut n = 0;
    while let Some(at) = rest.find(TITLE) {
        expected.push_str(&rest[..at]);
        got = got.get(at..).unwrap_or("");
        rest = &rest[at..];
        let Some((site, page)) = a.plain.titles.get(n) else {
            return out.fail("text", format!("{} titles are shown in the text, {n} were looked up", n + 1));
        };
        n += 1;
        let full = format!("{TITLE}{site}/{page}");
        if !rest.starts_with(&full) {
            // Invisible text is replaced by spaces.
            out.count("titles in invisible text", 1);
            return;
        }
        rest = &rest[full.len()..];
        let fails = case.answers.fail.iter().any(|(k, i)| k == "title" && *i == n as u64);
        let named = format!(":{site}:{page}");
        let shown = if !fails {
            &full
        } else if site != own_site || got.starts_with(&named) {
            &named
        } else {
            page
        };
        expected.push_str(shown);
        got = got.get(shown.len()..).unwrap_or("");
    }
    expected.push_str(rest);
    if n < a.plain.titles.len() {
        out.count("titles in invisible text", 1);
        return;
    }
    if expected != b.text {
        out.fail("text", ops::first_difference(&expected, &b.text));
    }
}

// ---- P21 ---------------------------------------------------------------------

/// What could be taken for markup if it was not escaped.
const HOSTILE: &[&str] = &[
    "<script>alert(1)</script>", "&>", "</div>", "<img src=x onerror=y>", "&amp;", "&lt;b&gt;", "<b>", "&", "<", ">", "'onclick='x", "<!-- x",
    "-->", "</style>", "</script>", "]]>", "&#60;i&#62;", "<wj-body>", "</wj-body>", "<a href=javascript:x>", "&quot;", "\u{e9}<\u{1f600}>",
];
/// Only in the site's answers.
const WORSE: &[&str] = &["\"><script>x</script>", "\" onclick=\"x", "\u{0}<", "\"", "'\"", "[[div]]", "\n\"\n<", "\\\"", "", "</span></a>"];

fn hostile(rng: &mut Rng) -> String {
    format!("qx{}xk", rng.pick::<&str>(HOSTILE))
}

fn worse(rng: &mut Rng) -> String {
    let list = if rng.chance(1, 2) { HOSTILE } else { WORSE };
    format!("qy{}yk", rng.pick::<&str>(list))
}

fn hostile_inline(rng: &mut Rng) -> String {
    let h = hostile(rng);
    match rng.below(26) {
        0 | 1 => format!("@@{h}@@"),
        2 => h,
        3 => format!("[https://x.example/ {h}]"),
        4 => format!("[[[page|{h}]]]"),
        5 => format!("[[span title=\"{h}\"]]{h}[[/span]]"),
        6 => format!("[[image one.png alt=\"{h}\" title=\"{h}\"]]"),
        7 => format!("[[user {h}]]"),
        8 => format!("[[span data-x=\"{h}\" aria-label=\"{h}\"]]x[[/span]]"),
        9 => format!("[[$ {h} $]]"),
        10 => format!("[[# {h}]]"),
        11 => format!("[[a href=\"https://x.example/{h}\"]]{h}[[/a]]"),
        12 => format!("[[checkbox value=\"{h}\"]]"),
        13 => format!("[[radio {h} checked=\"true\"]]"),
        14 => format!("##{h}|x##"),
        15 => format!("[[size {h}]]x[[/size]]"),
        16 => format!("[[ruby]]{h}[[rt]]{h}[[/rt]][[/ruby]]"),
        17 => format!("((bibcite {h}))"),
        18 => format!("[[eref {h}]]"),
        19 => format!("[[target {h}]]x[[/target]]"),
        20 => format!("[[span style=\"{h}\" class=\"{h}\" id=\"{h}\"]]x[[/span]]"),
        21 => format!("[[span data-{h}=\"x\"]]x[[/span]]"),
        22 => format!("[[image https://x.example/{h} link=\"{h}\"]]"),
        23 => format!("[[[{h}]]]"),
        24 => format!("[[date 0 format=\"{h}\"]]"),
        _ => format!("[[[page-{h}|]]]"),
    }
}

fn hostile_block(rng: &mut Rng) -> String {
    let h = hostile(rng);
    match rng.below(17) {
        0 => format!("[[code type=\"{h}\" name=\"{h}\"]]\n{h}\n[[/code]]"),
        1 => format!("[[html]]\n{h}\n[[/html]]"),
        2 => format!("[[tabview]]\n[[tab {}]]\n{h}\n[[/tab]]\n[[/tabview]]", h.replace("]]>", "&>")),
        3 => format!("[[collapsible show=\"{h}\" hide=\"{h}\"]]\n{h}\n[[/collapsible]]"),
        4 => format!("[[footnoteblock title=\"{h}\"]]"),
        5 => format!("[[bibliography title=\"{h}\"]]\n: lab1 : {h}\n: {h} : x\n[[/bibliography]]\n\n((bibcite lab1))"),
        6 => format!("[[module css]]\na::after {{ content: \"{h}\"; }}\n[[/module]]"),
        7 => format!("[[module {h}]]"),
        8 => format!("[[iframe https://x.example/{h} title=\"{h}\"]]"),
        9 => format!("+ {h}\n\n[[toc]]"),
        10 => format!("[[math {h}]]\n{h}\n[[/math]]"),
        11 => format!("text[[footnote]]{h}[[/footnote]]"),
        12 => format!("[[embed {}]]\n<{h}>\n[[/embed]]", rng.pick::<&str>(&["youtube", "vimeo", "github-gist", "gitlab-snippet"])),
        13 => format!("[[embed {}]]\nhttps://{}/{h}\n[[/embed]]", rng.pick::<&str>(&["youtube", "vimeo"]), rng.pick::<&str>(&["youtu.be", "vimeo.com"])),
        14 => format!("|| {h} || @@{h}@@ ||"),
        15 => format!(": {h} : {h}"),
        _ => format!("[[module join button=\"{h}\" title=\"{h}\"]]"),
    }
}

fn hostile_case(rng: &mut Rng) -> RenderCase {
    let mut feat = gen::all_features();
    feat.users = 3;
    feat.images = 3;
    feat.opens = rng.below(2);
    let mut doc = DocCase {
        text: with_snippets(rng, feat, &hostile_inline, &hostile_block),
        conf: gen::random_conf(rng),
        ..DocCase::default()
    };
    doc.info = gen::random_info(rng);
    if rng.chance(1, 2) {
        doc.info.title = worse(rng);
        doc.info.alt_title = rng.chance(1, 2).then(|| worse(rng));
        doc.info.tags = vec![worse(rng), "tale".into()];
    }
    damage(rng, &mut doc);
    let mut answers = Answers {
        messages: rng.chance(1, 2),
        ..Answers::default()
    };
    if rng.chance(2, 3) {
        answers.title = Some(worse(rng));
    }
    if rng.chance(2, 3) {
        answers.image_url = Some(worse(rng));
        answers.html_url = Some(worse(rng));
    }
    if rng.chance(2, 3) {
        let mut users = BTreeMap::new();
        for name in gen::USERS {
            if rng.chance(2, 3) {
                users.insert(name.to_string(), (worse(rng), worse(rng), worse(rng), rng.below(6) as u8));
            }
        }
        answers.users = Some(users);
    }
    for _ in 0..rng.below(3) {
        let kind = *rng.pick::<&str>(&["title", "user", "image"]);
        answers.fail.push((kind.to_string(), 1 + rng.below(4) as u64));
    }
    RenderCase {
        doc,
        answers,
        ..RenderCase::default()
    }
}

const TAGS: &[&str] = &[
    "strong", "em", "u", "sup", "sub", "s", "code", "span", "div", "mark", "blockquote", "ins", "del", "ruby", "rt", "rp", "p", "h1",
    "h2", "h3", "h4", "h5", "h6", "a", "ul", "ol", "li", "table", "tbody", "tr", "td", "th", "dl", "dt", "dd", "details", "summary",
    "img", "input", "iframe", "script", "style", "br", "hr", "pre", "svg", "use", "wj-body", "wj-tabs", "wj-tabs-button", "wj-code",
    "wj-code-copy", "wj-footnote-ref-marker", "wj-footnote-list-item-marker", "wj-bibliography-ref-marker",
    "wj-bibliography-item-marker", "wj-math-ml", "wj-equation-ref-marker", "wj-collapsible-button-top", "wj-collapsible-button-bottom",
];

/// The documented list of attributes which users can give.
const ATTRIBUTES: &[&str] = &[
    "accept", "align", "alt", "autocapitalize", "autoplay", "background", "bgcolor", "border", "buffered", "checked", "cite",
    "class", "cols", "colspan", "contenteditable", "controls", "coords", "datetime", "decoding", "default", "dir", "dirname",
    "disabled", "download", "draggable", "for", "form", "headers", "height", "hidden", "high", "href", "hreflang", "id",
    "inputmode", "ismap", "itemprop", "kind", "label", "lang", "list", "loop", "low", "max", "maxlength", "min", "minlength",
    "multiple", "muted", "name", "optimum", "pattern", "placeholder", "poster", "preload", "readonly", "required", "reversed",
    "role", "rows", "rowspan", "scope", "selected", "shape", "size", "sizes", "span", "spellcheck", "src", "srclang", "srcset",
    "start", "step", "style", "tabindex", "target", "title", "translate", "type", "usemap", "value", "width", "wrap",
];

/// The renderer's own.
const EXTRA: &[(&str, &str)] = &[
    ("details", "open"), ("svg", "viewBox"), ("img", "crossorigin"), ("iframe", "crossorigin"), ("iframe", "frameborder"),
    ("iframe", "allow"), ("iframe", "allowfullscreen"),
];

fn check_elements(out: &mut Outcome, dom: &Dom) {
    for (el, e) in dom.els.iter().enumerate().skip(1) {
        if !TAGS.contains(&e.tag.as_str()) {
            return out.fail("element", format!("<{}>", e.tag));
        }
        if e.tag == "script" {
            let src = dom.attr(el, "src").unwrap_or("");
            let known = src.starts_with("https://gist.github.com/") || src.starts_with("https://gitlab.com/");
            if !known || e.attrs.len() != 1 || !dom.text(el).is_empty() || !dom.is(e.parent, "wj-embed") {
                return out.fail("script", format!("a script which is not an embed's, with {:?}", e.attrs));
            }
        }
        for (key, value) in &e.attrs {
            let own = EXTRA.iter().any(|x| x.0 == e.tag && x.1 == key)
                || key == "onclick" && e.tag == "a" && value.as_deref() == Some("WIKIJUMP.page.listeners.foldToc(event)");
            if !own && !ATTRIBUTES.contains(&key.as_str()) && !key.starts_with("data-") && !key.starts_with("aria-") {
                return out.fail("attribute", format!("{key}={value:?} on <{}>", e.tag));
            }
        }
    }
}

/// Every mark is followed by one of the payloads and the end of the mark.
fn check_marked(out: &mut Outcome, s: &str, open: &str, close: &str, lists: &[&[&str]]) {
    for (at, _) in s.match_indices(open) {
        let tail = &s[at + open.len()..];
        let right = lists
            .iter()
            .flat_map(|l| l.iter())
            .any(|p| tail.strip_prefix(p.replace('\0', " ").as_str()).map_or(false, |t| t.starts_with(close)));
        if !right {
            return out.fail("read back", format!("no text of the source or the site: {:?}", tail.chars().take(60).collect::<String>()));
        }
    }
}

fn run_hostile(out: &mut Outcome, case: &RenderCase) {
    let doc = &case.doc;
    let parsed = with_run(out, doc, Some(case.answers.clone()), |_, _, _| ());
    // Whatever the outcome, once more, for the output itself.
    let body = body_of(doc, &case.answers);
    let Some((body, meta)) = body else {
        return;
    };
    let _ = parsed;
    out.counters.remove("HTML which was not well-formed (judged by P21)");
    out.evals += 1;
    let dom = match Dom::parse(&body) {
        Ok(d) => d,
        Err(e) => return out.fail("not well-formed", e),
    };
    if !body.starts_with("<wj-body class=\"wj-body\">") || dom.els.get(1).map_or(0, |e| e.end) != dom.els.len() {
        return out.fail("not well-formed", "not one wj-body element");
    }
    check_elements(out, &dom);
    let (source, _, _) = doc.source();
    let intact = |at: usize| {
        let tail = &source[at + 2..];
        HOSTILE.iter().any(|h| tail.strip_prefix(h).map_or(false, |t| t.starts_with("xk")))
    };
    let clean = doc.damage.is_empty() && doc.faults.rules.is_empty() && source.match_indices("qx").all(|m| intact(m.0));
    // Not in the text, where a bit of another mark was flipped.
    let unflipped = !source.contains("qy");
    let mut marked = false;
    for e in &dom.els {
        for kid in &e.kids {
            if let Kid::Text(t) = kid {
                marked |= t.contains("qx") || t.contains("qy");
                if e.tag != "style" && e.tag != "wj-math-ml" && unflipped {
                    check_marked(out, t, "qy", "yk", &[HOSTILE, WORSE]);
                }
            }
        }
        for (key, value) in &e.attrs {
            let Some(v) = value else { continue };
            if unflipped && key != "class" && v.contains("qy") && !(key == "href" && e.tag == "use") {
                check_marked(out, v, "qy", "yk", &[HOSTILE, WORSE]);
                marked = true;
            }
            // Marks of the source are split by whatever they meet.
            if clean && (key == "title" || key == "alt" || key.starts_with("aria-") && e.tag == "span" || key == "data-x") {
                check_marked(out, v, "qx", "xk", &[HOSTILE]);
            }
        }
    }
    if clean {
        for el in dom.of_tag(0, "pre").into_iter().chain(dom.of_class(0, "wj-raw")).chain(dom.of_tag(0, "wj-tabs-button")) {
            check_marked(out, &dom.text(el), "qx", "xk", &[HOSTILE]);
        }
    }
    // Page information.
    let info = &doc.info;
    let mut description = info.title.clone();
    if let Some(alt) = &info.alt_title {
        description = format!("{description} - {alt}");
    }
    let mut found = 0;
    for m in &meta {
        let mut s = String::new();
        m.render(&mut s);
        let el = s.strip_suffix(" />").map(|s| format!("{s}>"));
        let parsed = el.as_deref().map(Dom::parse);
        let Some(Ok(d)) = parsed else {
            return out.fail("metadata", format!("{s:?} is not one element"));
        };
        if d.els.len() != 2 || d.els[1].tag != "meta" || d.els[1].attrs.len() != 2 {
            return out.fail("metadata", format!("{s:?} is not one element"));
        }
        let value = d.attr(1, "content").unwrap_or("");
        let wanted = match m.name.as_str() {
            "description" => &description,
            "keywords" => &info.tags.join(","),
            _ => continue,
        };
        found += 1;
        if value != wanted.replace('\0', " ") {
            return out.fail("metadata", format!("the page's {} {wanted:?} became {value:?}", m.name));
        }
    }
    if found != 2 {
        return out.fail("metadata", "no description or no keywords");
    }
    if marked {
        out.nontrivial += 1;
        out.prints.push(mix(hash_str(&body) ^ hash_str(&format!("{:?}", doc.conf))));
    }
    let users = case.answers.users.as_ref().map_or(0, |u| u.len());
    out.count("fault.hostile answers of the site", (users + usize::from(case.answers.title.is_some()) + usize::from(case.answers.image_url.is_some())) as u64);
}

fn body_of(doc: &DocCase, answers: &Answers) -> Option<(String, Vec<ftml::render::html::HtmlMeta>)> {
    use crate::site::Site;
    use crate::trace::{call, Budget, End};
    let site = Site::new(doc.faults.clone(), Some(answers.clone()));
    let budget = Budget {
        cancel_at: None,
        cap: Some(4_000_000),
    };
    let (source, _, _) = doc.source();
    let settings = doc.conf.settings();
    let info = doc.info.page_info();
    site.install();
    let (end, _) = call(budget, || {
        let mut text = source.clone();
        ftml::preprocess(&mut text);
        let tokens = ftml::tokenize(&text);
        let (tree, _) = ftml::parse(&tokens, &info, &settings).into();
        ops::render_html(&tree, &info, &settings)
    });
    Site::remove();
    match end {
        End::Returned(o) => Some((o.body, o.meta)),
        _ => None,
    }
}

// ---- P22 ---------------------------------------------------------------------

const UNSAFE: &[&str] = &[
    "javascript:alert(1)", "JavaScript:alert(1)", "data:text/html,x", "DATA:text/html,x", "java\tscript:x", "java\nscript:x",
    "\u{1}javascript:x", " javascript:x", "\u{a0}javascript:x", "java\u{0}script:x", "javascript :x", "javascript:;alert(1)",
    "javascript:;", "/javascript:x", "#javascript:x", "//javascript:x", "javascript&colon;x", "&#106;avascript:x", "javascript%3ax",
    "javascript:x/y", "javascript:x#y", "javascript:/x", "javascript://x", "data:x#y", "\u{ff4a}avascript:x", "javascr\u{131}pt:x",
    "java\u{ad}script:x", "javascript\u{200b}:x", "!javascript:x", ":javascript:x", ":javascript:x:y", "http:javascript:x",
    "blob:javascript:x", "javascript:http://x", "data:,http://x", "feed:javascript:x", "java script:x", "\u{feff}javascript:x",
    "javascript:[[x]]", "data\u{0}:x", "javascript:x y", "//x javascript:y", "*javascript:x", "https://x.example/ javascript:x", "",
];

fn unsafe_inline(rng: &mut Rng) -> String {
    let x = *rng.pick::<&str>(UNSAFE);
    let key = *rng.pick::<&str>(&["href", "src", "HREF", "Src", "link", "action", "formaction", "onclick", "OnLoad", "srcdoc", "xlink:href", "data-onclick", "style"]);
    match rng.below(16) {
        0 => format!("[[a href=\"{x}\"]]x[[/a]]"),
        1 => format!("[{x} label]"),
        2 => format!("[*{x} label]"),
        3 => format!("[[[{x}|label]]]"),
        4 => format!("[[[*{x}|label]]]"),
        5 => format!("[[[{x}]]]"),
        6 => format!("[[[{x}|]]]"),
        7 => format!("[[image {x}]]"),
        8 => format!("[[image one.png link=\"{x}\"]]"),
        9 => format!("[[image one.png {key}=\"{x}\"]]"),
        10 => format!("[[span {key}=\"{x}\"]]x[[/span]]"),
        11 => format!("[[a {key}=\"{x}\"]]x[[/a]]"),
        12 => format!("[[*a {key}=\"{x}\" target=\"x\"]]x[[/a]]"),
        13 => format!("[[checkbox {key}=\"{x}\"]]"),
        14 => format!("[[a_ {key}=\"{x}\"]]x[[/a]]"),
        _ => format!("{x} "),
    }
}

fn unsafe_block(rng: &mut Rng) -> String {
    let x = *rng.pick::<&str>(UNSAFE);
    let key = *rng.pick::<&str>(&["href", "src", "SRC", "onload", "srcdoc", "formaction"]);
    match rng.below(9) {
        0 => format!("[[iframe {x}]]"),
        1 => format!("[[iframe https://x.example/ {key}=\"{x}\"]]"),
        2 => format!("[[div {key}=\"{x}\"]]\nx\n[[/div]]"),
        3 => format!("[[embed youtube]]\n{x}\n[[/embed]]"),
        4 => format!("[[embed github-gist]]\n{x}\n[[/embed]]"),
        5 => format!("[[toc {key}=\"{x}\"]]"),
        6 => format!("+ heading {}", unsafe_inline(rng)),
        7 => format!("[[module join {key}=\"{x}\"]]"),
        _ => format!("[[table {key}=\"{x}\"]]\n[[row]]\n[[cell {key}=\"{x}\"]]\n{}\n[[/cell]]\n[[/row]]\n[[/table]]", unsafe_inline(rng)),
    }
}

fn unsafe_case(rng: &mut Rng) -> RenderCase {
    let mut feat = gen::all_features();
    feat.links = 5;
    feat.opens = 2;
    let mut doc = DocCase {
        text: with_snippets(rng, feat, &unsafe_inline, &unsafe_block),
        conf: gen::random_conf(rng),
        ..DocCase::default()
    };
    damage(rng, &mut doc);
    if rng.chance(1, 3) {
        let (t, kind) = gen::damage(rng, &doc.text);
        doc.text = t;
        doc.damage.push(kind.to_string());
    }
    let mut answers = Answers::default();
    for _ in 0..rng.below(3) {
        let kind = *rng.pick::<&str>(&["title", "user", "image"]);
        answers.fail.push((kind.to_string(), 1 + rng.below(4) as u64));
    }
    RenderCase {
        doc,
        answers,
        ..RenderCase::default()
    }
}

/// The scheme as a browser reads it.
fn scheme(address: &str) -> String {
    let s: String = address
        .trim_start_matches(|c: char| c <= ' ')
        .chars()
        .filter(|c| !['\t', '\n', '\r'].contains(c))
        .collect();
    match s.split_once(':') {
        Some((scheme, _)) => scheme.to_ascii_lowercase(),
        None => String::new(),
    }
}

fn run_unsafe(out: &mut Outcome, case: &RenderCase) {
    with_run(out, &case.doc, Some(case.answers.clone()), |out, tree, ran| {
        let again = again(&case.doc, tree, &case.answers);
        let dom = again.as_ref().map(|a| Dom::parse(&a.output.body));
        let doms = [Some(&ran.dom), dom.as_ref().and_then(|d| d.as_ref().ok())];
        let mut relevant = false;
        for dom in doms.into_iter().flatten() {
            out.evals += 1;
            check_elements(out, dom);
            for (el, e) in dom.els.iter().enumerate() {
                for key in ["href", "src"] {
                    let Some(address) = dom.attr(el, key) else { continue };
                    relevant = true;
                    let s = scheme(address);
                    // The site's own data address.
                    let avatar = key == "src" && s == "data" && dom.is(el, "wj-user-info-avatar");
                    if (s == "javascript" || s == "data") && !avatar && address != "javascript:;" && !address.starts_with("javascript:;#") {
                        return out.fail("unsafe address", format!("<{} {key}={address:?}>", e.tag));
                    }
                }
            }
        }
        out.count("fault.lookup failed", ran.record.lookup_faults);
        if relevant {
            out.nontrivial += 1;
            out.prints.push(mix(hash_str(&ran.source) ^ hash_str(&format!("{:?}{:?}", case.doc.faults, case.doc.conf))));
        }
    });
}

// ---- all of them ---------------------------------------------------------------

impl Prop for Render {
    fn id(&self) -> &'static str {
        match self.0 {
            8 => "P08",
            9 => "P09",
            19 => "P19",
            20 => "P20",
            21 => "P21",
            _ => "P22",
        }
    }
    fn cases(&self) -> (u64, u64) {
        match self.0 {
            9 => (40_000, 1_200_000),
            _ => (30_000, 900_000),
        }
    }
    fn rule(&self) -> &'static str {
        match self.0 {
            8 => "A case is one document with tabs, headings, tables of contents, footnotes, bibliographies and ids of the user's own which look like the page's, half with ids isolated, a third damaged, a third with up to 3 parse rules made to fail; it is rendered twice with bytes from a simulated entropy source (pseudo-random, all zeros, all ones, repeating; interrupted or short reads). Non-trivial: documents with tabs, headings, footnotes or a bibliography.",
            9 => "A case is up to 8 dates written in ways whose moment is known, in all kinds of places, parsed at one simulated time and rendered at up to 4 others (jumps in both directions, the limits of the kernel's clock, drift at each reading), a quarter with up to 2 parse rules made to fail. Non-trivial: renderings which show at least one date.",
            19 => "A case is one document with links written in many ways, a third damaged, a third with up to 3 parse rules made to fail, on a site where some pages are missing and, in half the cases, the answer turns around each time it is asked. Non-trivial: renderings which asked for at least one page.",
            20 => "A case is one document with users, images, links labelled by title and HTML snippets, rendered once with all lookups succeeding and once with some made to fail by number (the n-th user, image or title). Non-trivial: at least one lookup failed.",
            21 => "A case is one document with text which looks like markup in every place that takes text, page information and answers of the site of the same kind, a third damaged, a third with up to 3 parse rules made to fail, some lookups failing. Non-trivial: such text is shown in the output.",
            _ => "A case is one document with unsafe addresses and attributes in every place which takes one, most damaged or with parse rules or lookups made to fail. Non-trivial: the output has at least one address.",
        }
    }
    fn measure(&self) -> &'static str {
        match self.0 {
            8 => "(source, settings, entropy)",
            9 => "(source, clock at parse, clock at rendering)",
            19 => "(output, answers of the site, settings)",
            20 => "(source, failing lookups, settings)",
            21 => "(output, settings)",
            _ => "(source, rule faults, settings)",
        }
    }
    fn stubs(&self) -> &'static [&'static str] {
        match self.0 {
            8 => &["entropy source", "parse rules failing on demand (hook)", "damage to the source", "clock"],
            9 => &["clock", "parse rules failing on demand (hook)", "entropy"],
            _ => &["the site's answers (hooks in render/handle.rs)", "parse rules failing on demand (hook)", "damage to the source", "clock", "entropy"],
        }
    }
    fn assumptions(&self) -> &'static [&'static str] {
        match self.0 {
            8 => &["links of a table of contents lead somewhere only in settings with true ids, as documented", "what a footnote contains is displayed twice, so that bibliographies in it are as well"],
            9 => &["the clock stays within what a Linux kernel can be set to (years 1970 to 2262)", "the text <ERROR> for dates without a time zone is a documented gap (TODO in the code) and not judged"],
            19 => &["links of images and [[a]] are not listed among the backlinks, as now"],
            20 => &["HTML snippets always get an address, the interface has no failure for it"],
            21 => &["MathML is made by another library, and looked at for elements which are not MathML only"],
            _ => &["addresses are read as a browser does: leading control characters and spaces are skipped, tabs and newlines left out"],
        }
    }

    fn generate(&self, rng: &mut Rng, _index: u64) -> Value {
        let case = match self.0 {
            8 => ids_case(rng),
            9 => return serde_json::to_value(dates_case(rng)).unwrap(),
            19 => links_case(rng),
            20 => lookups_case(rng),
            21 => hostile_case(rng),
            _ => unsafe_case(rng),
        };
        serde_json::to_value(case).unwrap()
    }

    fn run(&self, case: &Value) -> Outcome {
        let mut out = Outcome::default();
        if self.0 == 9 {
            let Ok(case) = serde_json::from_value::<DateCase>(case.clone()) else {
                return Outcome::invalid();
            };
            run_dates(&mut out, &case);
            return out;
        }
        let Ok(case) = serde_json::from_value::<RenderCase>(case.clone()) else {
            return Outcome::invalid();
        };
        match self.0 {
            8 => run_ids(&mut out, &case),
            19 => run_links(&mut out, &case),
            20 => run_lookups(&mut out, &case),
            21 => run_hostile(&mut out, &case),
            _ => run_unsafe(&mut out, &case),
        }
        out
    }
}
