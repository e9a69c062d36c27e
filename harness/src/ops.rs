//! Documents, and running the library's pipeline over them.

use crate::site::{Answers, Faults, Site};
use crate::trace::harness;
use ftml::data::{PageInfo, PageRef, ScoreValue};
use ftml::includes::{FetchedPage, IncludeRef, Includer};
use ftml::layout::Layout;
use ftml::render::html::{HtmlOutput, HtmlRender};
use ftml::render::text::TextRender;
use ftml::render::Render;
use ftml::settings::{WikitextMode, WikitextSettings};
use ftml::tree::SyntaxTree;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Info {
    pub page: String,
    pub category: Option<String>,
    pub site: String,
    pub title: String,
    pub alt_title: Option<String>,
    pub score: f64,
    pub tags: Vec<String>,
    pub language: String,
}

impl Default for Info {
    fn default() -> Info {
        Info {
            page: "some-page".into(),
            category: None,
            site: "sandbox".into(),
            title: "Page title".into(),
            alt_title: None,
            score: 69.5,
            tags: vec!["tale".into(), "_cc".into()],
            language: "default".into(),
        }
    }
}

impl Info {
    pub fn page_info(&self) -> PageInfo<'_> {
        PageInfo {
            page: Cow::Borrowed(&self.page),
            category: self.category.as_deref().map(Cow::Borrowed),
            site: Cow::Borrowed(&self.site),
            title: Cow::Borrowed(&self.title),
            alt_title: self.alt_title.as_deref().map(Cow::Borrowed),
            score: if self.score.fract() == 0.0 {
                ScoreValue::Integer(self.score as i64)
            } else {
                ScoreValue::Float(self.score)
            },
            tags: self.tags.iter().map(|t| Cow::Borrowed(t.as_str())).collect(),
            language: Cow::Borrowed(&self.language),
        }
    }
}

/// Settings: mode and layout, and which of the switches are inverted.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Conf {
    pub mode: u8,
    pub layout: u8,
    pub flip: u8,
}

impl Conf {
    pub fn settings(&self) -> WikitextSettings {
        let mode = match self.mode % 5 {
            0 => WikitextMode::Page,
            1 => WikitextMode::Draft,
            2 => WikitextMode::ForumPost,
            3 => WikitextMode::DirectMessage,
            _ => WikitextMode::List,
        };
        let layout = match self.layout % 2 {
            0 => Layout::Wikidot,
            _ => Layout::Wikijump,
        };
        let mut s = WikitextSettings::from_mode(mode, layout);
        let bit = |n: u8| self.flip >> n & 1 == 1;
        s.enable_page_syntax ^= bit(0);
        s.use_include_compatibility ^= bit(1);
        s.use_true_ids ^= bit(2);
        s.isolate_user_ids ^= bit(3);
        s.minify_css ^= bit(4);
        s.allow_local_paths ^= bit(5);
        s
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Doc {
    pub text: String,
    #[serde(default)]
    pub conf: Conf,
    #[serde(default)]
    pub info: Info,
    /// Pages which can be included.
    #[serde(default)]
    pub store: BTreeMap<String, String>,
    /// How the site answers while this document is rendered, if simulated.
    #[serde(default)]
    pub site: Option<Answers>,
}

impl Doc {
    pub fn new(text: impl Into<String>) -> Doc {
        Doc {
            text: text.into(),
            ..Doc::default()
        }
    }
}

/// Everything a run over a document gave.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Outputs {
    pub included: String,
    pub pages: String,
    pub pre: String,
    pub tree: String,
    pub errors: String,
    pub html: String,
    pub meta: String,
    pub links: String,
    pub text: String,
    /// What the site was asked and told, where it is simulated.
    #[serde(default)]
    pub asked: String,
}

impl Outputs {
    /// With each generated id replaced by its order of first appearance.
    pub fn normalized(mut self) -> Outputs {
        self.html = normalize_ids(&self.html);
        self
    }

    pub fn fields(&self) -> [(&'static str, &str); 10] {
        [
            ("included text", &self.included),
            ("included pages", &self.pages),
            ("preprocessed text", &self.pre),
            ("syntax tree", &self.tree),
            ("errors", &self.errors),
            ("HTML", &self.html),
            ("metadata", &self.meta),
            ("backlinks", &self.links),
            ("text", &self.text),
            ("requests to the site", &self.asked),
        ]
    }

    pub fn diff(&self, other: &Outputs) -> Option<String> {
        for ((name, a), (_, b)) in self.fields().iter().zip(other.fields().iter()) {
            if a != b {
                return Some(format!("{name} differs: {}", first_difference(a, b)));
            }
        }
        None
    }
}

pub fn first_difference(a: &str, b: &str) -> String {
    let at = a
        .bytes()
        .zip(b.bytes())
        .position(|(x, y)| x != y)
        .unwrap_or(a.len().min(b.len()));
    format!("{:?} vs {:?}", around(a, at), around(b, at))
}

fn around(s: &str, at: usize) -> &str {
    let mut lo = at.saturating_sub(40).min(s.len());
    while !s.is_char_boundary(lo) {
        lo -= 1;
    }
    let mut hi = (at + 60).min(s.len());
    while !s.is_char_boundary(hi) {
        hi += 1;
    }
    &s[lo..hi]
}

pub const ID_PREFIX: &str = "wj-id-";

/// Byte ranges of the generated ids.
pub fn generated_ids(html: &str) -> Vec<&str> {
    let mut found = vec![];
    let mut rest = html;
    while let Some(at) = rest.find(ID_PREFIX) {
        let tail = &rest[at..];
        let len = ID_PREFIX.len()
            + tail[ID_PREFIX.len()..]
                .bytes()
                .take(16)
                .take_while(u8::is_ascii_alphanumeric)
                .count();
        found.push(&tail[..len]);
        rest = &tail[len..];
    }
    found
}

pub fn normalize_ids(html: &str) -> String {
    let mut names: Vec<&str> = vec![];
    let mut out = String::with_capacity(html.len());
    let mut pos = 0;
    for id in generated_ids(html) {
        let start = id.as_ptr() as usize - html.as_ptr() as usize;
        out.push_str(&html[pos..start]);
        let n = match names.iter().position(|x| *x == id) {
            Some(n) => n,
            None => {
                names.push(id);
                names.len() - 1
            }
        };
        out.push_str(&format!("{ID_PREFIX}#{n}#"));
        pos = start + id.len();
    }
    out.push_str(&html[pos..]);
    out
}

/// Replaces the ages which dates carry.
pub fn mask_delta(html: &str) -> String {
    let mut out = String::with_capacity(html.len());
    let mut rest = html;
    const KEY: &str = "data-delta=\"";
    while let Some(at) = rest.find(KEY) {
        out.push_str(&rest[..at + KEY.len()]);
        rest = &rest[at + KEY.len()..];
        rest = &rest[rest.find('"').unwrap_or(rest.len())..];
        out.push('*');
    }
    out.push_str(rest);
    out
}

pub struct StoreIncluder<'s>(pub &'s BTreeMap<String, String>);

impl<'t> Includer<'t> for StoreIncluder<'_> {
    type Error = String;

    fn include_pages(
        &mut self,
        includes: &[IncludeRef<'t>],
    ) -> Result<Vec<FetchedPage<'t>>, String> {
        harness(|| {
            Ok(includes
                .iter()
                .map(|i| FetchedPage {
                    page_ref: i.page_ref().clone(),
                    content: self
                        .0
                        .get(&i.page_ref().to_string())
                        .map(|c| Cow::Owned(c.clone())),
                })
                .collect())
        })
    }

    fn no_such_include(&mut self, page: &PageRef<'t>) -> Result<Cow<'t, str>, String> {
        harness(|| Ok(Cow::Owned(format!("MISSING {page}"))))
    }
}

pub fn json<T: Serialize>(value: &T) -> String {
    serde_json::to_value(value).unwrap().to_string()
}

pub fn put_html(out: &mut Outputs, html: HtmlOutput) {
    out.meta = json(&html.meta);
    out.links = json(&html.backlinks);
    out.html = html.body;
}

/// Runs a rendering with the document's own site.
pub fn at_site<T>(doc_site: &Option<Answers>, out: &mut Outputs, f: impl FnOnce() -> T) -> T {
    let Some(answers) = doc_site else {
        harness(Site::remove);
        return f();
    };
    let site = harness(|| {
        let site = Site::new(Faults::default(), Some(answers.clone()));
        site.install();
        site
    });
    let result = f();
    harness(|| {
        Site::remove();
        let r = site.record.borrow();
        out.asked.push_str(&format!(
            "{:?} {:?} {:?} {:?} {:?} {:?} {:?}\n",
            r.exists, r.existing, r.titles, r.users, r.images, r.html, r.code
        ));
    });
    result
}

/// The whole pipeline. To be run inside of `trace::call`.
pub fn pipeline(doc: &Doc) -> Outputs {
    let mut out = harness(Outputs::default);
    harness(Site::remove);
    let settings = harness(|| doc.conf.settings());
    let info = harness(|| doc.info.page_info());
    let (mut text, pages) = ftml::include(
        &doc.text,
        &settings,
        StoreIncluder(&doc.store),
        || String::from("invalid return"),
    )
    .expect("store includer does not fail");
    harness(|| {
        out.included = text.clone();
        out.pages = json(&pages);
    });
    ftml::preprocess(&mut text);
    harness(|| out.pre = text.clone());
    let tokens = ftml::tokenize(&text);
    let (tree, errors) = ftml::parse(&tokens, &info, &settings).into();
    harness(|| {
        out.tree = json(&tree);
        out.errors = json(&errors);
    });
    let html = at_site(&doc.site, &mut out, || HtmlRender.render(&tree, &info, &settings));
    harness(|| put_html(&mut out, html));
    let plain = at_site(&doc.site, &mut out, || TextRender.render(&tree, &info, &settings));
    harness(|| out.text = plain);
    out
}

pub fn prepared(text: &str) -> String {
    let mut s = text.to_string();
    ftml::preprocess(&mut s);
    s
}

/// Parses and hands tree and errors to the closure.
pub fn with_tree<T>(
    doc: &Doc,
    f: impl FnOnce(&SyntaxTree, &[ftml::parsing::ParseError], &PageInfo, &WikitextSettings, &str) -> T,
) -> T {
    let settings = doc.conf.settings();
    let info = doc.info.page_info();
    let text = prepared(&doc.text);
    let tokens = ftml::tokenize(&text);
    let (tree, errors) = ftml::parse(&tokens, &info, &settings).into();
    f(&tree, &errors, &info, &settings, &text)
}

pub fn render_html(tree: &SyntaxTree, info: &PageInfo, settings: &WikitextSettings) -> HtmlOutput {
    HtmlRender.render(tree, info, settings)
}

pub fn render_text(tree: &SyntaxTree, info: &PageInfo, settings: &WikitextSettings) -> String {
    TextRender.render(tree, info, settings)
}
