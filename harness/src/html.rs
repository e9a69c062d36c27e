//! A strict reader of the renderer's HTML.

#[derive(Clone, Debug, PartialEq)]
pub enum Kid {
    Text(String),
    El(usize),
}

#[derive(Clone, Debug)]
pub struct El {
    pub tag: String,
    /// Names and (unescaped) values.
    pub attrs: Vec<(String, Option<String>)>,
    pub parent: usize,
    pub kids: Vec<Kid>,
    /// One past the index of the last descendant.
    pub end: usize,
    /// Bytes of the element, and of its contents.
    pub bytes: (usize, usize),
    pub inner: (usize, usize),
}

/// Elements in the order of their start tags; number 0 stands for the
/// document itself.
#[derive(Clone, Debug)]
pub struct Dom {
    pub els: Vec<El>,
}

pub const SOLO: &[&str] = &[
    "area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr",
];

fn unescape(s: &str, at: usize) -> Result<String, String> {
    if !s.contains('&') {
        return Ok(s.to_string());
    }
    let mut out = String::with_capacity(s.len());
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        out.push_str(&rest[..i]);
        rest = &rest[i..];
        let end = rest
            .bytes()
            .take(12)
            .position(|b| b == b';')
            .ok_or_else(|| format!("'&' is not escaped near byte {at}"))?;
        let c = match &rest[1..end] {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            "nbsp" => '\u{a0}',
            name => {
                let number = name.strip_prefix('#').and_then(|n| match n.strip_prefix(['x', 'X']) {
                    Some(hex) => u32::from_str_radix(hex, 16).ok(),
                    None => n.parse().ok(),
                });
                number
                    .and_then(char::from_u32)
                    .ok_or_else(|| format!("unknown entity &{name}; near byte {at}"))?
            }
        };
        out.push(c);
        rest = &rest[end + 1..];
    }
    out.push_str(rest);
    Ok(out)
}

fn name_len(s: &str) -> usize {
    s.bytes()
        .take_while(|b| b.is_ascii_alphanumeric() || b"-_".contains(b))
        .count()
}

impl Dom {
    pub fn parse(html: &str) -> Result<Dom, String> {
        let mut els = vec![El {
            tag: String::new(),
            attrs: vec![],
            parent: 0,
            kids: vec![],
            end: 0,
            bytes: (0, html.len()),
            inner: (0, html.len()),
        }];
        let mut open = vec![0usize];
        let mut at = 0;
        while at < html.len() {
            let rest = &html[at..];
            let top = *open.last().unwrap();
            if !rest.starts_with('<') {
                let n = rest.find('<').unwrap_or(rest.len());
                let text = unescape(&rest[..n], at)?;
                els[top].kids.push(Kid::Text(text));
                at += n;
                continue;
            }
            if let Some(tail) = rest.strip_prefix("</") {
                let n = name_len(tail);
                let tag = &tail[..n];
                if !tail[n..].starts_with('>') {
                    return Err(format!("malformed end tag at byte {at}"));
                }
                if top == 0 || els[top].tag != tag {
                    return Err(format!("</{tag}> at byte {at} closes <{}>", els[top].tag));
                }
                els[top].inner.1 = at;
                at += 2 + n + 1;
                els[top].bytes.1 = at;
                els[top].end = els.len();
                open.pop();
                continue;
            }
            let n = name_len(&rest[1..]);
            if n == 0 || !rest.as_bytes()[1].is_ascii_alphabetic() {
                return Err(format!("stray '<' at byte {at}"));
            }
            let tag = rest[1..1 + n].to_string();
            let mut p = 1 + n;
            let mut attrs: Vec<(String, Option<String>)> = vec![];
            loop {
                let tail = &rest[p..];
                if tail.starts_with('>') {
                    p += 1;
                    break;
                }
                let Some(tail) = tail.strip_prefix(' ') else {
                    return Err(format!("malformed start tag <{tag} at byte {at}"));
                };
                let n = name_len(tail);
                if n == 0 {
                    return Err(format!("malformed attribute of <{tag}> at byte {at}"));
                }
                let key = tail[..n].to_string();
                p += 1 + n;
                let mut value = None;
                if let Some(tail) = tail[n..].strip_prefix('=') {
                    let Some(tail) = tail.strip_prefix('"') else {
                        return Err(format!("unquoted attribute {key} of <{tag}> at byte {at}"));
                    };
                    let Some(n) = tail.find('"') else {
                        return Err(format!("unfinished attribute {key} of <{tag}> at byte {at}"));
                    };
                    value = Some(unescape(&tail[..n], at)?);
                    p += 2 + n + 1;
                }
                if attrs.iter().any(|(k, _)| *k == key) {
                    return Err(format!("attribute {key} given twice on <{tag}> at byte {at}"));
                }
                attrs.push((key, value));
            }
            let index = els.len();
            els[top].kids.push(Kid::El(index));
            els.push(El {
                attrs,
                parent: top,
                kids: vec![],
                end: index + 1,
                bytes: (at, at + p),
                inner: (at + p, at + p),
                tag: tag.clone(),
            });
            at += p;
            if SOLO.contains(&tag.as_str()) {
                continue;
            }
            open.push(index);
            // Contents which are not ours to read.
            let close = match tag.as_str() {
                "style" => "</style",
                "script" => "</script",
                "wj-math-ml" => "</wj-math-ml>",
                _ => continue,
            };
            let Some(n) = html[at..].find(close) else {
                return Err(format!("<{tag}> at byte {at} is not closed"));
            };
            if tag == "wj-math-ml" {
                math(&html[at..at + n]).map_err(|e| format!("{e} in math at byte {at}"))?;
            } else {
                els[index].kids.push(Kid::Text(html[at..at + n].to_string()));
            }
            at += n;
        }
        if open.len() > 1 {
            return Err(format!("<{}> is not closed", els[open[open.len() - 1]].tag));
        }
        els[0].end = els.len();
        Ok(Dom { els })
    }

    pub fn attr(&self, el: usize, name: &str) -> Option<&str> {
        self.els[el]
            .attrs
            .iter()
            .find(|(k, _)| k == name)
            .map(|(_, v)| v.as_deref().unwrap_or(""))
    }

    pub fn is(&self, el: usize, class: &str) -> bool {
        self.attr(el, "class")
            .map_or(false, |c| c.split(' ').any(|c| c == class))
    }

    /// Elements within `el` which have the class, in order.
    pub fn of_class(&self, el: usize, class: &str) -> Vec<usize> {
        (el + 1..self.els[el].end).filter(|i| self.is(*i, class)).collect()
    }

    pub fn of_tag(&self, el: usize, tag: &str) -> Vec<usize> {
        (el + 1..self.els[el].end).filter(|i| self.els[*i].tag == tag).collect()
    }

    pub fn child_of_class(&self, el: usize, class: &str) -> Option<usize> {
        self.els[el].kids.iter().find_map(|k| match k {
            Kid::El(i) if self.is(*i, class) => Some(*i),
            _ => None,
        })
    }

    pub fn within(&self, el: usize, class: &str) -> bool {
        let mut i = el;
        while i != 0 {
            i = self.els[i].parent;
            if self.is(i, class) {
                return true;
            }
        }
        false
    }

    pub fn depth_within(&self, el: usize, pred: &dyn Fn(&Dom, usize) -> bool) -> usize {
        let mut n = 0;
        let mut i = el;
        while i != 0 {
            i = self.els[i].parent;
            n += usize::from(pred(self, i));
        }
        n
    }

    pub fn text(&self, el: usize) -> String {
        let mut out = String::new();
        self.text_into(el, &|_, _| false, &mut out);
        out
    }

    /// The text without that of elements which are skipped.
    pub fn text_without(&self, el: usize, skip: &dyn Fn(&Dom, usize) -> bool) -> String {
        let mut out = String::new();
        self.text_into(el, skip, &mut out);
        out
    }

    fn text_into(&self, el: usize, skip: &dyn Fn(&Dom, usize) -> bool, out: &mut String) {
        for kid in &self.els[el].kids {
            match kid {
                Kid::Text(t) => out.push_str(t),
                Kid::El(i) => {
                    if !skip(self, *i) {
                        self.text_into(*i, skip, out);
                    }
                }
            }
        }
    }
}

/// The MathML is made by another library, whose output is only looked at for
/// elements which are not MathML.
fn math(s: &str) -> Result<(), String> {
    for (i, _) in s.match_indices('<') {
        let tail = s[i + 1..].strip_prefix('/').unwrap_or(&s[i + 1..]);
        if tail.starts_with(|c: char| c.is_ascii_alphabetic()) {
            let n = name_len(tail);
            if !tail.starts_with('m') && !["semantics", "annotation"].contains(&&tail[..n]) {
                return Err(format!("<{}>", &tail[..n]));
            }
        } else if tail.starts_with(['!', '?']) {
            return Err("a markup declaration".to_string());
        }
    }
    Ok(())
}
