//! The simulated site and parse rule faults (hooks of `--cfg ftml_sim`).

use crate::trace::harness;
use ftml::data::{KarmaLevel, UserInfo};
use ftml::sim::SimHooks;
use ftml::tree::ImageSource;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::num::NonZeroUsize;
use std::rc::Rc;

/// What is injected into one run.
#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Faults {
    /// (rule, n): the n-th success of this rule counts as a failure.
    #[serde(default)]
    pub rules: Vec<(String, u64)>,
}

#[derive(Debug, Default)]
pub struct Record {
    pub successes: BTreeMap<&'static str, u64>,
    pub rule_faults: BTreeMap<&'static str, u64>,
    pub exists: Vec<(String, String)>,
    /// What was answered to these.
    pub existing: Vec<bool>,
    pub titles: Vec<(String, String)>,
    pub users: Vec<String>,
    pub images: Vec<String>,
    pub html: Vec<String>,
    pub code: Vec<(usize, String)>,
    pub lookup_faults: u64,
}

/// How the site answers. `None` leaves the answer to the library's own stub.
#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Answers {
    /// Pages (`page`, or `:site:page`) which (first) do not exist.
    #[serde(default)]
    pub missing: Vec<String>,
    /// Whether answers about existence turn around at each request.
    #[serde(default)]
    pub fickle: bool,
    /// Titles by page, an absent one being "no such title".
    #[serde(default)]
    pub titles: Option<BTreeMap<String, String>>,
    /// Users by name: (display name, profile url, avatar, karma).
    #[serde(default)]
    pub users: Option<BTreeMap<String, (String, String, String, u8)>>,
    /// Image sources (by file or url) which cannot be found.
    #[serde(default)]
    pub no_image: Vec<String>,
    /// What the title of each page begins with.
    #[serde(default)]
    pub title: Option<String>,
    /// What the address of each image begins with.
    #[serde(default)]
    pub image_url: Option<String>,
    /// What the address for each HTML snippet begins with.
    #[serde(default)]
    pub html_url: Option<String>,
    #[serde(default)]
    pub messages: bool,
    /// (kind, n): the n-th lookup of a title, user or image fails.
    #[serde(default)]
    pub fail: Vec<(String, u64)>,
}

impl Answers {
    fn fails(&self, kind: &str, n: usize) -> bool {
        self.fail.iter().any(|(k, i)| k == kind && *i == n as u64)
    }
}

#[derive(Debug)]
pub struct Site {
    pub faults: Faults,
    pub answers: Option<Answers>,
    pub record: RefCell<Record>,
}

impl Site {
    pub fn new(faults: Faults, answers: Option<Answers>) -> Rc<Site> {
        Rc::new(Site {
            faults,
            answers,
            record: RefCell::new(Record::default()),
        })
    }

    pub fn install(self: &Rc<Site>) {
        ftml::sim::install(Some(Rc::clone(self) as Rc<dyn SimHooks>));
    }

    pub fn remove() {
        ftml::sim::install(None);
    }
}

pub fn image_name(source: &ImageSource) -> String {
    match source {
        ImageSource::Url(url) => url.to_string(),
        ImageSource::File1 { file } => file.to_string(),
        ImageSource::File2 { page, file } => format!("{page}/{file}"),
        ImageSource::File3 { site, page, file } => format!("{site}/{page}/{file}"),
    }
}

impl SimHooks for Site {
    fn rule_fault(&self, rule: &'static str) -> bool {
        harness(|| {
            let mut record = self.record.borrow_mut();
            let n = record.successes.entry(rule).or_insert(0);
            *n += 1;
            let n = *n;
            let fault = self.faults.rules.iter().any(|(r, k)| r == rule && *k == n);
            if fault {
                *record.rule_faults.entry(rule).or_insert(0) += 1;
            }
            fault
        })
    }

    fn page_title(&self, site: &str, page: &str) -> Option<Option<String>> {
        harness(|| {
            let mut record = self.record.borrow_mut();
            record.titles.push((site.into(), page.into()));
            let answers = self.answers.as_ref()?;
            if answers.fails("title", record.titles.len()) {
                record.lookup_faults += 1;
                return Some(None);
            }
            if let Some(start) = &answers.title {
                return Some(Some(format!("{start}{site}/{page}")));
            }
            let titles = answers.titles.as_ref()?;
            let title = titles.get(page).cloned();
            record.lookup_faults += u64::from(title.is_none());
            Some(title)
        })
    }

    fn page_exists(&self, site: &str, page: &str) -> Option<bool> {
        harness(|| {
            let mut record = self.record.borrow_mut();
            record.exists.push((site.into(), page.into()));
            let answers = self.answers.as_ref()?;
            let full = format!(":{site}:{page}");
            let mut exists = !answers.missing.iter().any(|p| *p == page || *p == full);
            if answers.fickle {
                let before = record
                    .exists
                    .iter()
                    .filter(|(s, p)| s == site && p == page)
                    .count();
                exists ^= before % 2 == 0;
                record.lookup_faults += u64::from(before > 1);
            }
            record.lookup_faults += u64::from(!exists);
            record.existing.push(exists);
            Some(exists)
        })
    }

    fn user_info(&self, name: &str) -> Option<Option<UserInfo<'static>>> {
        harness(|| {
            let mut record = self.record.borrow_mut();
            record.users.push(name.into());
            let answers = self.answers.as_ref()?;
            if answers.fails("user", record.users.len()) {
                record.lookup_faults += 1;
                return Some(None);
            }
            let users = answers.users.as_ref()?;
            let info = users.get(name).map(|(display, url, avatar, karma)| UserInfo {
                user_id: crate::rng::hash_str(name) % 100_000,
                user_name: Cow::Owned(display.clone()),
                user_karma: KarmaLevel::new(karma % 6).unwrap(),
                user_avatar_data: Cow::Owned(avatar.clone()),
                user_profile_url: Cow::Owned(url.clone()),
            });
            record.lookup_faults += u64::from(info.is_none());
            Some(info)
        })
    }

    fn image_link(&self, source: &ImageSource) -> Option<Option<String>> {
        harness(|| {
            let mut record = self.record.borrow_mut();
            let name = image_name(source);
            record.images.push(name.clone());
            let answers = self.answers.as_ref()?;
            if answers.no_image.contains(&name) || answers.fails("image", record.images.len()) {
                record.lookup_faults += 1;
                return Some(None);
            }
            answers.image_url.as_ref().map(|url| Some(format!("{url}{name}")))
        })
    }

    fn message(&self, _language: &str, message: &str) -> Option<&'static str> {
        harness(|| {
            if !self.answers.as_ref()?.messages {
                return None;
            }
            Some(match message {
                "button-copy-clipboard" => "M1<b a='\"&>",
                "collapsible-open" => "M2<b a='\"&>",
                "collapsible-hide" => "M3<b a='\"&>",
                "table-of-contents" => "M4<b a='\"&>",
                "footnote" => "M5<b a='\"&>",
                "footnote-block-title" => "M6<b a='\"&>",
                "bibliography-reference" => "M7<b a='\"&>",
                "bibliography-block-title" => "M8<b a='\"&>",
                "bibliography-cite-not-found" => "M9<b a='\"&>",
                "image-context-bad" => "M10<b a='\"&>",
                _ => return None,
            })
        })
    }

    fn post_html(&self, html: &str) -> Option<String> {
        harness(|| {
            self.record.borrow_mut().html.push(html.into());
            let start = self.answers.as_ref()?.html_url.as_ref()?;
            Some(format!("{start}{:016x}", crate::rng::hash_str(html)))
        })
    }

    fn post_code(&self, index: NonZeroUsize, code: &str) {
        harness(|| self.record.borrow_mut().code.push((index.get(), code.into())))
    }
}
