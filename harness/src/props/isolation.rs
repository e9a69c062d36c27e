//! P01 concurrent calls, P02 histories, P03 environments.

use crate::env;
use crate::gen;
use crate::ops::{self, Doc, Outputs};
use crate::rng::{hash_str, mix, Rng};
use crate::site::Answers;
use crate::runner::{in_child, Ended, Outcome, Prop, STACK};
use crate::sched::{self, Policy};
use crate::trace::{self, Budget, End};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::sync::{Arc, Mutex};

/// Parsing work can grow steeply with unfinished markup; such documents are
/// left to the property about bounded work.
const CAP: u64 = 300_000;

fn budget() -> Budget {
    Budget {
        cancel_at: None,
        cap: Some(CAP),
    }
}

/// How a call ended, in a comparable form.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Ending {
    Outputs(Box<Outputs>),
    Panicked(String),
    OutOfSteps,
    Cancelled,
}

impl Ending {
    fn from(end: End<Outputs>) -> Ending {
        match end {
            End::Returned(o) => Ending::Outputs(Box::new(o.normalized())),
            End::Panicked(m) => Ending::Panicked(m),
            End::OutOfSteps => Ending::OutOfSteps,
            End::Cancelled => Ending::Cancelled,
        }
    }

    fn diff(&self, alone: &Ending) -> Option<(&'static str, String)> {
        match (self, alone) {
            (Ending::Outputs(a), Ending::Outputs(b)) => a.diff(b).map(|d| ("different result", d)),
            (Ending::Panicked(m), Ending::Outputs(_)) => Some(("panic", format!("panicked: {m}"))),
            (Ending::OutOfSteps, Ending::Outputs(_)) => {
                Some(("out of steps", "took far more steps than alone".to_string()))
            }
            _ => None,
        }
    }
}

/// Runs a call alone in a new process, also giving the steps it takes there.
fn alone(doc: &Doc, kind: u8) -> (Ending, u64) {
    match in_child(30.0, || {
        let doc: &'static Doc = Box::leak(Box::new(doc.clone()));
        let (end, steps) = match kind {
            0 => trace::call(budget(), || ops::pipeline(doc)),
            _ => {
                let kept = match Kept::new(doc) {
                    Some(k) => k,
                    None => return serde_json::to_vec(&(Ending::OutOfSteps, 0u64)).unwrap(),
                };
                trace::call(budget(), || kept.render(kind))
            }
        };
        serde_json::to_vec(&(Ending::from(end), steps)).unwrap()
    }) {
        Ended::Data(d) => serde_json::from_slice(&d).unwrap(),
        // Judged by the property about damaged source.
        _ => (Ending::Panicked("process ended".into()), 0),
    }
}

/// A document whose tree is parsed once and then rendered repeatedly.
struct Kept {
    doc: &'static Doc,
    settings: ftml::settings::WikitextSettings,
    info: ftml::data::PageInfo<'static>,
    tree: ftml::tree::SyntaxTree<'static>,
}

impl Kept {
    fn new(doc: &'static Doc) -> Option<Kept> {
        let settings: &'static _ = Box::leak(Box::new(doc.conf.settings()));
        let info: &'static ftml::data::PageInfo<'static> = Box::leak(Box::new(doc.info.page_info()));
        let end = trace::call(budget(), || {
            let text: &'static str = Box::leak(ops::prepared(&doc.text).into_boxed_str());
            let tokens: &'static _ = Box::leak(Box::new(ftml::tokenize(text)));
            let (tree, _) = ftml::parse(tokens, info, settings).into();
            tree
        })
        .0;
        match end {
            End::Returned(tree) => Some(Kept {
                doc,
                settings: doc.conf.settings(),
                info: doc.info.page_info(),
                tree,
            }),
            _ => None,
        }
    }

    fn render(&self, kind: u8) -> Outputs {
        let mut out = Outputs::default();
        if kind == 1 {
            let html = ops::at_site(&self.doc.site, &mut out, || {
                ops::render_html(&self.tree, &self.info, &self.settings)
            });
            trace::harness(|| ops::put_html(&mut out, html));
        } else {
            let text = ops::at_site(&self.doc.site, &mut out, || {
                ops::render_text(&self.tree, &self.info, &self.settings)
            });
            trace::harness(|| out.text = text);
        }
        out
    }
}

fn static_docs(docs: &[Doc]) -> Vec<&'static Doc> {
    docs.iter()
        .map(|d| &*Box::leak(Box::new(d.clone())))
        .collect()
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Call {
    doc: usize,
    /// 0: whole pipeline, 1: HTML of the kept tree, 2: text of it.
    kind: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Schedule {
    #[serde(default)]
    seed: u64,
    #[serde(default)]
    inverse: u64,
    #[serde(default)]
    first: usize,
    /// Whether the threads can be preempted at each basic block.
    #[serde(default)]
    fine: bool,
    /// If given: hand over at exactly these steps.
    #[serde(default)]
    switches: Option<Vec<(u64, usize)>>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct RaceCase {
    docs: Vec<Doc>,
    threads: Vec<Vec<Call>>,
    schedule: Schedule,
}

pub struct P01;

/// Pages the documents link to, include or show images of.
const PAGES: &[&str] = &["page", "some-page", "start", "one", "two", "missing", "cat:page", "inc-a", "a", "b"];

fn random_answers(rng: &mut Rng) -> Answers {
    let some = |rng: &mut Rng| -> Vec<String> {
        PAGES.iter().filter(|_| rng.chance(1, 2)).map(|p| p.to_string()).collect()
    };
    let mut a = Answers {
        missing: some(rng),
        fickle: rng.chance(1, 8),
        messages: rng.chance(1, 4),
        ..Answers::default()
    };
    if rng.chance(1, 2) {
        a.title = Some(format!("Title {} of ", rng.below(3)));
    }
    if rng.chance(1, 2) {
        a.image_url = Some(format!("https://files-{}.example.org/", rng.below(3)));
    }
    if rng.chance(1, 2) {
        a.html_url = Some(format!("https://html-{}.example.org/", rng.below(3)));
    }
    for kind in ["title", "user", "image"] {
        if rng.chance(1, 4) {
            a.fail.push((kind.to_string(), rng.range(1, 3) as u64));
        }
    }
    a
}

/// A document, with its own site in half of the cases.
fn sited_doc(rng: &mut Rng) -> Doc {
    let mut doc = gen::any_doc(rng);
    if rng.chance(1, 2) {
        // The pages which it links to, some of which do not exist.
        if rng.chance(2, 3) {
            let line: Vec<String> = (0..rng.range(1, 6)).map(|_| {
                let page = rng.pick(PAGES);
                match rng.below(8) {
                    0 => format!("[[[{page}|]]]"),
                    1 => format!("[[[:other:{page}]]]"),
                    2 => format!("[[image {page}/x.png]]"),
                    3 => format!("[[*user {page}]]"),
                    4 => format!("[[html]]\n<b>{page}</b>\n[[/html]]"),
                    5 => format!("[[code]]\n{page}\n[[/code]]"),
                    _ => format!("[[[{page}]]]"),
                }
            }).collect();
            let line = line.join("\n");
            doc.text = if rng.chance(1, 2) { format!("{}\n\n{line}", doc.text) } else { format!("{line}\n\n{}", doc.text) };
        }
        doc.site = Some(random_answers(rng));
    }
    doc
}

fn related_docs(rng: &mut Rng, n: usize) -> Vec<Doc> {
    let mut docs = vec![sited_doc(rng)];
    while docs.len() < n {
        let d = if rng.chance(2, 3) {
            let base = docs[rng.below(docs.len())].clone();
            if base.site.is_some() && rng.chance(1, 3) {
                // The same document, but the site has changed.
                let mut d = base;
                d.site = Some(random_answers(rng));
                d
            } else {
                gen::sibling(rng, &base)
            }
        } else {
            sited_doc(rng)
        };
        docs.push(d);
    }
    docs
}

impl Prop for P01 {
    fn id(&self) -> &'static str {
        "P01"
    }
    fn cases(&self) -> (u64, u64) {
        (6000, 150_000)
    }
    fn warm(&self) -> bool {
        false
    }
    fn rule(&self) -> &'static str {
        "A case is 2 to 4 threads with 1 to 3 calls each (whole pipeline, or rendering of one shared tree) over up to 3 documents, most of which differ in one respect only, and a schedule. Non-trivial: the schedule handed over between threads at least once while a call was in progress."
    }
    fn measure(&self) -> &'static str {
        "interleavings, as the sequence of (step, next thread) of every hand-over, together with the documents"
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["thread scheduler (futex waits and wakes, yields; points at each log line and allocation, in half of the cases at each basic block)", "clock", "entropy", "includer"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["threads are interleaved at log lines, allocations, blocking operations and, in half of the cases, basic blocks, not at each memory access; data races on plain memory are excluded by safe Rust (the crate forbids unsafe code)"]
    }

    fn generate(&self, rng: &mut Rng, _index: u64) -> Value {
        let n = rng.range(1, 3);
        let docs = related_docs(rng, n);
        let threads = (0..rng.range(2, 4))
            .map(|_| {
                (0..rng.range(1, 3))
                    .map(|_| Call {
                        doc: rng.below(docs.len()),
                        kind: if rng.chance(2, 3) { 0 } else { 1 + rng.below(2) as u8 },
                    })
                    .collect()
            })
            .collect::<Vec<Vec<Call>>>();
        let fine = rng.chance(1, 2);
        let schedule = Schedule {
            seed: rng.next() >> 1,
            inverse: if fine { *rng.pick(&[7, 101, 997, 5003, 30_011, 200_003]) } else { *rng.pick(&[3, 17, 101, 997, 5003]) },
            fine,
            first: rng.below(threads.len()),
            switches: None,
        };
        serde_json::to_value(RaceCase {
            docs,
            threads,
            schedule,
        })
        .unwrap()
    }

    fn run(&self, case: &Value) -> Outcome {
        let Ok(case) = serde_json::from_value::<RaceCase>(case.clone()) else {
            return Outcome::invalid();
        };
        let mut out = Outcome::default();
        let n = case.threads.len();
        if n < 1
            || n > 8
            || case.schedule.first >= n
            || case.threads.iter().flatten().any(|c| c.doc >= case.docs.len())
        {
            return Outcome::invalid();
        }
        // What each call gives alone.
        let mut refs: Vec<[Option<Ending>; 3]> = case.docs.iter().map(|_| [None, None, None]).collect();
        for c in case.threads.iter().flatten() {
            let slot = &mut refs[c.doc][c.kind as usize % 3];
            if slot.is_none() {
                *slot = Some(alone(&case.docs[c.doc], c.kind % 3).0);
            }
        }
        let docs = static_docs(&case.docs);
        let kept: Vec<Option<Arc<Kept>>> = docs
            .iter()
            .enumerate()
            .map(|(i, d)| {
                if case.threads.iter().flatten().any(|c| c.doc == i && c.kind % 3 != 0) {
                    Kept::new(d).map(Arc::new)
                } else {
                    None
                }
            })
            .collect();
        let results: Arc<Mutex<Vec<(usize, usize, Ending)>>> = Arc::new(Mutex::new(vec![]));
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for (t, calls) in case.threads.iter().enumerate() {
            let calls = calls.clone();
            let docs = docs.clone();
            let kept = kept.clone();
            let results = Arc::clone(&results);
            let fine = case.schedule.fine;
            bodies.push(Box::new(move || {
                trace::set_fine(fine);
                for (i, c) in calls.iter().enumerate() {
                    let end = match (c.kind % 3, &kept[c.doc]) {
                        (0, _) => trace::call(budget(), || ops::pipeline(docs[c.doc])).0,
                        (k, Some(kept)) => trace::call(budget(), || kept.render(k)).0,
                        _ => continue,
                    };
                    results.lock().unwrap().push((t, i, Ending::from(end)));
                }
            }));
        }
        let policy = match &case.schedule.switches {
            Some(list) => Policy::Explicit(list.clone()),
            None => Policy::Random(Rng::new(case.schedule.seed), case.schedule.inverse.max(1)),
        };
        let s = sched::run(bodies, policy, case.schedule.first, STACK);
        let results = std::mem::take(&mut *results.lock().unwrap());

        let mut print = s.interleaving;
        for d in &case.docs {
            print = mix(print ^ hash_str(&d.text));
        }
        out.prints.push(print);
        out.count("hand-overs", s.switches.len() as u64);
        out.count("hand-overs forced by blocking or yielding", s.forced + s.blocks);
        out.count("blocked on another thread", s.blocks);
        out.count("fault.thread stalled", s.switches.len() as u64);
        if !s.switches.is_empty() {
            let mut explicit = case.clone();
            explicit.schedule.switches = Some(s.switches.clone());
            out.explicit = Some(serde_json::to_value(explicit).unwrap());
        }
        if s.deadlock {
            out.fail("deadlock", "every thread which has not finished is blocked");
            return out;
        }
        for (t, i, end) in &results {
            let c = &case.threads[*t][*i];
            out.evals += 1;
            let alone = refs[c.doc][c.kind as usize % 3].as_ref().unwrap();
            if s.switches.len() + s.blocks as usize > 0 {
                out.nontrivial += 1;
            }
            if let Some((class, d)) = end.diff(alone) {
                out.fail(
                    class,
                    format!("thread {t}, call {i} (document {}, kind {}): {d}", c.doc, c.kind),
                );
            }
        }
        out
    }
}

// ---- P02 ----------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Step {
    doc: usize,
    /// As for `Call`; 3: include with an includer which fails.
    kind: u8,
    /// Cut short by unwinding at this step.
    #[serde(default)]
    cancel: Option<u64>,
    /// As a part of a thousand of the steps which the call takes alone.
    #[serde(default)]
    cancel_part: Option<u64>,
    /// On a thread of its own.
    #[serde(default)]
    thread: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct HistoryCase {
    docs: Vec<Doc>,
    steps: Vec<Step>,
}

pub struct P02;

struct FailingIncluder;

impl<'t> ftml::includes::Includer<'t> for FailingIncluder {
    type Error = String;
    fn include_pages(
        &mut self,
        _: &[ftml::includes::IncludeRef<'t>],
    ) -> Result<Vec<ftml::includes::FetchedPage<'t>>, String> {
        Err("fetch failed".into())
    }
    fn no_such_include(&mut self, _: &ftml::data::PageRef<'t>) -> Result<std::borrow::Cow<'t, str>, String> {
        Err("no such include".into())
    }
}

impl Prop for P02 {
    fn id(&self) -> &'static str {
        "P02"
    }
    fn cases(&self) -> (u64, u64) {
        (12_000, 250_000)
    }
    fn warm(&self) -> bool {
        false
    }
    fn rule(&self) -> &'static str {
        "A case is a history of 2 to 30 calls in one process over up to 4 documents, most of which differ in one respect only; a third of the calls, and most of them in a third of the histories, are cut short by unwinding at a random step or fail in the includer. Every completed call is compared with the same call alone in a new process. Non-trivial: completed calls with at least one other call before them."
    }
    fn measure(&self) -> &'static str {
        "histories, as the sequence of (document, call, step it was cut short at) before a completed call"
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["unwinding at a chosen log line", "clock", "entropy", "includer"]
    }

    fn generate(&self, rng: &mut Rng, _index: u64) -> Value {
        // A third of the histories are mostly about calls which are cut short.
        let abandoned = rng.chance(1, 3);
        let n = if abandoned { rng.range(1, 2) } else { rng.range(1, 4) };
        let docs = related_docs(rng, n);
        let length = if abandoned { rng.range(6, 30) } else { rng.range(2, 10) };
        let steps = (0..length)
            .map(|_| {
                let kind = match rng.below(if abandoned { 6 } else { 8 }) {
                    0 | 1 => 0,
                    2 | 3 => 1,
                    4 | 5 => 2,
                    6 => 0,
                    _ => 3,
                };
                let mut cancel = None;
                let mut cancel_part = None;
                if kind != 3 && (rng.chance(1, 3) || abandoned && rng.chance(2, 3)) {
                    if rng.chance(1, 3) {
                        let bits = rng.range(1, 12);
                        cancel = Some(1 + rng.below(1 << bits) as u64);
                    } else {
                        cancel_part = Some(rng.below(1000) as u64);
                    }
                }
                Step {
                    doc: rng.below(docs.len()),
                    kind,
                    cancel,
                    cancel_part,
                    thread: rng.chance(1, if abandoned { 30 } else { 6 }),
                }
            })
            .collect();
        serde_json::to_value(HistoryCase { docs, steps }).unwrap()
    }

    fn run(&self, case: &Value) -> Outcome {
        let Ok(case) = serde_json::from_value::<HistoryCase>(case.clone()) else {
            return Outcome::invalid();
        };
        let mut out = Outcome::default();
        if case.steps.iter().any(|s| s.doc >= case.docs.len()) {
            return Outcome::invalid();
        }
        let mut refs: Vec<[Option<(Ending, u64)>; 3]> = case.docs.iter().map(|_| [None, None, None]).collect();
        for s in &case.steps {
            if s.kind < 3 {
                let slot = &mut refs[s.doc][s.kind as usize];
                if slot.is_none() {
                    *slot = Some(alone(&case.docs[s.doc], s.kind));
                }
            }
        }
        let docs = static_docs(&case.docs);
        let mut kept: Vec<Option<Arc<Kept>>> = docs.iter().map(|_| None).collect();
        let mut trees: Vec<String> = docs.iter().map(|_| String::new()).collect();
        let mut print = 1;
        for (i, s) in case.steps.iter().enumerate() {
            let doc = docs[s.doc];
            let cancel = match (s.cancel, s.cancel_part) {
                (Some(n), _) => Some(n),
                (None, Some(part)) if s.kind < 3 => {
                    let steps = refs[s.doc][s.kind as usize].as_ref().unwrap().1;
                    Some(1 + steps.saturating_sub(1) * part.min(1000) / 1000)
                }
                _ => None,
            };
            print = mix(print ^ hash_str(&doc.text) ^ mix(cancel.unwrap_or(0)) ^ u64::from(s.kind));
            if s.kind == 3 {
                let (end, _) = trace::call(budget(), || {
                    ftml::include(&doc.text, &doc.conf.settings(), FailingIncluder, || {
                        String::from("invalid")
                    })
                    .is_err()
                });
                if let End::Returned(true) = end {
                    out.count("fault.includer failed", 1);
                }
                continue;
            }
            if s.kind > 0 && kept[s.doc].is_none() {
                match Kept::new(doc) {
                    Some(k) => {
                        trees[s.doc] = ops::json(&k.tree);
                        kept[s.doc] = Some(Arc::new(k));
                    }
                    None => continue,
                }
            }
            let b = Budget {
                cancel_at: cancel,
                cap: Some(CAP),
            };
            let k = kept[s.doc].clone();
            let kind = s.kind;
            let body = move || match kind {
                0 => trace::call(b, || ops::pipeline(doc)).0,
                kind => trace::call(b, || k.as_ref().unwrap().render(kind)).0,
            };
            let end = if s.thread {
                out.count("calls on a thread of their own", 1);
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn(body)
                    .unwrap()
                    .join()
                    .unwrap()
            } else {
                body()
            };
            let end = Ending::from(end);
            if end == Ending::Cancelled {
                out.count("fault.call cut short by unwinding", 1);
                continue;
            }
            out.evals += 1;
            if i > 0 {
                out.nontrivial += 1;
                out.prints.push(print);
            }
            let alone = &refs[s.doc][s.kind as usize].as_ref().unwrap().0;
            if let Some((class, d)) = end.diff(alone) {
                out.fail(class, format!("step {i} (document {}, kind {}): {d}", s.doc, s.kind));
                return out;
            }
        }
        for (i, k) in kept.iter().enumerate() {
            if let Some(k) = k {
                out.count("trees compared after renderings", 1);
                let now = ops::json(&k.tree);
                if now != trees[i] {
                    out.fail(
                        "tree changed",
                        format!("document {i}: {}", ops::first_difference(&now, &trees[i])),
                    );
                }
            }
        }
        out
    }
}

// ---- P03 ----------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
struct Env {
    seed: u64,
    mode: u64,
    fault: u64,
    secs: i64,
    nanos: i64,
    drift: i64,
    /// Calls made before, which move the hash keys along.
    #[serde(default)]
    before: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct EnvCase {
    doc: Doc,
    envs: Vec<Env>,
}

pub struct P03;

/// Whether the text asks for the current date anywhere, or might.
fn may_use_clock(doc: &Doc) -> bool {
    let check = |s: &str| {
        let s = s.to_lowercase().replace("[[date 1600000000]]", "");
        s.contains("date")
    };
    check(&doc.text) || doc.store.values().any(|s| check(s))
}

/// All attributes which the library allows.
const ATTRIBUTES: &[&str] = &[
    "accept", "align", "alt", "autocapitalize", "autoplay", "background", "bgcolor", "border", "buffered",
    "checked", "cite", "class", "cols", "colspan", "contenteditable", "controls", "coords", "datetime",
    "decoding", "default", "describedby", "dir", "dirname", "disabled", "download", "draggable", "for",
    "form", "headers", "height", "hidden", "high", "href", "hreflang", "id", "inputmode", "ismap",
    "itemprop", "kind", "label", "labelledby", "lang", "list", "loop", "low", "max", "maxlength", "min",
    "minlength", "multiple", "muted", "name", "optimum", "owns", "pattern", "placeholder", "poster",
    "preload", "readonly", "required", "reversed", "role", "rows", "rowspan", "scope", "selected", "shape",
    "size", "sizes", "span", "spellcheck", "src", "srclang", "srcset", "start", "step", "style", "tabindex",
    "target", "title", "translate", "type", "usemap", "value", "width", "wrap",
];

/// Text with many attributes, arguments and variables: all that is kept in maps.
fn map_heavy(rng: &mut Rng) -> String {
    let names = [
        "class=\"c1 c2\"", "id=\"i1\"", "style=\"color: red\"", "data-a=\"1\"", "data-b=\"2\"", "data-c=\"3\"", "title=\"t\"",
        "lang=\"en\"", "dir=\"ltr\"", "hidden=\"\"", "aria-label=\"l\"", "width=\"1\"", "height=\"2\"", "alt=\"x\"", "name=\"n\"",
        "autoplay=\"true\"", "controls=\"yes\"", "href=\"https://a.b/\"", "tabindex=\"0\"", "onclick=\"x\"", "src=\"y\"",
    ];
    let mut out = String::new();
    for _ in 0..rng.range(1, 5) {
        let mut args: Vec<&str> = names.to_vec();
        rng.shuffle(&mut args);
        args.truncate(rng.range(2, 9));
        // And any others that are allowed, so that they meet in one map.
        let mut more: Vec<String> = vec![];
        for _ in 0..rng.below(12) {
            let name = rng.pick(ATTRIBUTES);
            let name = match rng.below(6) {
                0 => name.to_uppercase(),
                1 => format!("data-{name}"),
                2 => format!("aria-{name}"),
                _ => name.to_string(),
            };
            more.push(format!("{name}=\"v{}\"", rng.below(100)));
        }
        let args = format!("{} {}", args.join(" "), more.join(" "));
        let args = args.trim();
        let piece = match rng.below(9) {
            0 => format!("[[div {args}]]\nx\n[[/div]]\n"),
            1 => format!("[[span {args}]]x[[/span]]\n"),
            2 => format!("[[a {args}]]x[[/a]]\n"),
            3 => format!("[[image one.png {args}]]\n"),
            4 => format!("[[iframe https://a.b/ {args}]]\n"),
            5 => format!("[[include-elements page {args}]]\n"),
            6 => format!("[[ul {args}]]\n[[li {args}]]\nx\n[[/li]]\n[[/ul]]\n"),
            7 => format!("[[toc {args}]]\n+ a\n++ b\n"),
            _ => format!("[[table {args}]]\n[[row]]\n[[cell {args}]]\nx\n[[/cell]]\n[[/row]]\n[[/table]]\n"),
        };
        out.push_str(&piece);
    }
    out
}

impl Prop for P03 {
    fn id(&self) -> &'static str {
        "P03"
    }
    fn cases(&self) -> (u64, u64) {
        (5000, 120_000)
    }
    fn warm(&self) -> bool {
        false
    }
    fn rule(&self) -> &'static str {
        "A case is one document run in 3 new processes with different random bytes (including constant ones, interrupted and short deliveries), clocks and drifts. Non-trivial: the runs read at least one random byte."
    }
    fn measure(&self) -> &'static str {
        "(document, random bytes, clock)"
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["entropy (getrandom: hash keys, id generator)", "clock", "includer"]
    }

    fn generate(&self, rng: &mut Rng, _index: u64) -> Value {
        let mut doc = if rng.chance(1, 3) {
            let mut d = gen::any_doc(rng);
            d.text = map_heavy(rng);
            d
        } else {
            sited_doc(rng)
        };
        if rng.chance(1, 4) {
            doc.text = gen::damage(rng, &doc.text).0;
        }
        if may_use_clock(&doc) {
            doc.text = map_heavy(rng);
            doc.store.clear();
        }
        let envs = (0..3)
            .map(|i| Env {
                seed: rng.next() >> 1,
                mode: if i == 0 || rng.chance(2, 3) { 0 } else { rng.below(4) as u64 },
                fault: if rng.chance(1, 2) { 0 } else { 2 + rng.below(3) as u64 },
                secs: *rng.pick(&[0, 1, 1_000_000_000, 1_700_000_000, 4_102_444_800, 253_000_000_000, -86_400]),
                nanos: rng.below(1_000_000_000) as i64,
                drift: *rng.pick(&[0, 0, 1, 1_000_000, 3_600_000_000_000, -1_000_000_000]),
                before: rng.below(3) as u64,
            })
            .collect();
        serde_json::to_value(EnvCase { doc, envs }).unwrap()
    }

    fn run(&self, case: &Value) -> Outcome {
        let Ok(case) = serde_json::from_value::<EnvCase>(case.clone()) else {
            return Outcome::invalid();
        };
        let mut out = Outcome::default();
        if may_use_clock(&case.doc) {
            return Outcome::invalid();
        }
        let mut first: Option<(Ending, u64)> = None;
        for (i, e) in case.envs.iter().enumerate() {
            let data = in_child(30.0, || {
                env::set_entropy(e.seed, e.mode, e.fault);
                env::set_clock(e.secs, e.nanos, e.drift);
                let doc = case.doc.clone();
                for _ in 0..e.before {
                    let d = Doc::new("[[span a=\"b\" data-x=\"y\"]]x[[/span]]");
                    let _ = trace::call(budget(), || ops::pipeline(&d));
                }
                let (end, steps) = trace::call(budget(), || ops::pipeline(&doc));
                let end = match Ending::from(end) {
                    Ending::Outputs(mut o) => {
                        o.html = ops::mask_delta(&o.html);
                        Ending::Outputs(o)
                    }
                    other => other,
                };
                use std::sync::atomic::Ordering::SeqCst;
                let stats = [
                    env::ENTROPY_READS.load(SeqCst),
                    env::ENTROPY_EINTR.load(SeqCst),
                    env::ENTROPY_SHORT.load(SeqCst),
                    env::CLOCK_READS.load(SeqCst),
                    steps,
                ];
                serde_json::to_vec(&(end, stats)).unwrap()
            });
            let Ended::Data(data) = data else {
                out.count("runs which crashed (judged by P16)", 1);
                return out;
            };
            let (end, stats): (Ending, [u64; 5]) = serde_json::from_slice(&data).unwrap();
            out.evals += 1;
            out.count("random deliveries", stats[0]);
            out.count("fault.random delivery interrupted", stats[1]);
            out.count("fault.random delivery short", stats[2]);
            out.count("clock readings", stats[3]);
            if e.mode != 0 {
                out.count("fault.random bytes constant", 1);
            }
            if e.drift != 0 {
                out.count("fault.clock jumps at each reading", 1);
            }
            if stats[0] > 0 {
                out.nontrivial += 1;
                out.prints.push(mix(hash_str(&case.doc.text) ^ e.seed ^ mix(e.secs as u64) ^ e.mode));
            }
            if i > 0 {
                out.sim_ms += (e.secs - case.envs[i - 1].secs).unsigned_abs().min(1 << 33) * 1_000;
            }
            match &first {
                None => first = Some((end, stats[4])),
                Some((before, _)) => {
                    let d = end.diff(before).or_else(|| before.diff(&end));
                    if let Some((class, d)) = d {
                        out.fail(class, format!("environments 0 and {i}: {d}"));
                        return out;
                    }
                }
            }
        }
        out
    }
}
