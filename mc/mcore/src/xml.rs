//! Reference XML parser, written from the XML 1.0 and Namespaces recommendations.
//!
//! It decides three things about a document: whether it is (namespace-)well-formed in the part of
//! XML the library accepts (no DOCTYPE, no processing instructions), what tree it denotes, and
//! whether it uses a corner that the properties leave open (`open` is set then).

use std::borrow::Cow;

pub const XML_NS: &str = "http://www.w3.org/XML/1998/namespace";

#[derive(Clone, Debug, PartialEq)]
pub struct El<'a> {
    pub prefix: &'a str,
    pub local: &'a str,
    pub ns: &'a str,
    /// Namespace declarations, prefix "" for the default one
    pub decls: Vec<(&'a str, &'a str)>,
    pub attrs: Vec<At<'a>>,
    pub kids: Vec<Kid<'a>>,
    pub self_closed: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct At<'a> {
    pub prefix: &'a str,
    pub local: &'a str,
    pub ns: &'a str,
    pub value: Cow<'a, str>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kid<'a> {
    E(El<'a>),
    /// A maximal run of character data; `true` if it came from a single piece without references
    T(Cow<'a, str>, bool),
}

#[derive(Debug)]
pub struct Doc<'a> {
    pub root: El<'a>,
    /// Set if the document uses something the properties do not settle
    pub open: Option<&'static str>,
    pub depth: usize,
    pub max_attrs: usize,
    pub max_decls: usize,
    pub comments: usize,
}

pub type Bad = &'static str;

pub fn is_char(c: char) -> bool {
    matches!(c, '\u{9}' | '\u{A}' | '\u{D}' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}

pub fn is_name_start(c: char) -> bool {
    matches!(c, 'A'..='Z' | '_' | 'a'..='z' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}'
        | '\u{F8}'..='\u{2FF}' | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}'
        | '\u{2070}'..='\u{218F}' | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}'
        | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}' | '\u{10000}'..='\u{EFFFF}')
}

pub fn is_name_char(c: char) -> bool {
    is_name_start(c)
        || matches!(c, '-' | '.' | '0'..='9' | '\u{B7}' | '\u{300}'..='\u{36F}' | '\u{203F}'..='\u{2040}')
}

fn is_space(b: u8) -> bool {
    matches!(b, b' ' | b'\t' | b'\r' | b'\n')
}

struct P<'a> {
    s: &'a str,
    i: usize,
    open: Option<&'static str>,
    depth: usize,
    max_depth: usize,
    max_attrs: usize,
    max_decls: usize,
    comments: usize,
    scope: Vec<(&'a str, &'a str)>,
}

pub fn parse(s: &str) -> Result<Doc<'_>, Bad> {
    let mut p = P {
        s,
        i: 0,
        open: None,
        depth: 0,
        max_depth: 0,
        max_attrs: 0,
        max_decls: 0,
        comments: 0,
        scope: Vec::new(),
    };
    if s.starts_with('\u{FEFF}') {
        p.i = 3;
    }
    if p.rest().starts_with("<?xml") && p.rest()[5..].starts_with([' ', '\t', '\r', '\n']) {
        p.xml_decl()?;
    }
    p.misc()?;
    if !p.rest().starts_with('<') {
        return Err("no root element");
    }
    let root = p.element()?;
    p.misc()?;
    if p.i != s.len() {
        return Err("content after root");
    }
    Ok(Doc {
        root,
        open: p.open,
        depth: p.max_depth,
        max_attrs: p.max_attrs,
        max_decls: p.max_decls,
        comments: p.comments,
    })
}

/// Expand the references in `raw`; the flag tells whether there were any
pub fn expand<'a>(raw: &'a str, open: &mut Option<&'static str>) -> Result<(Cow<'a, str>, bool), Bad> {
    if !raw.contains('&') {
        return Ok((Cow::Borrowed(raw), false));
    }
    let mut out = String::with_capacity(raw.len());
    let mut rest = raw;
    while let Some(pos) = rest.find('&') {
        out.push_str(&rest[..pos]);
        let after = &rest[pos + 1..];
        let end = after.find(';').ok_or("unterminated reference")?;
        let body = &after[..end];
        out.push(match body {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "apos" => '\'',
            "quot" => '"',
            _ => {
                let num = body.strip_prefix('#').ok_or("unknown entity")?;
                let (digits, radix) = match num.strip_prefix('x') {
                    Some(hex) => (hex, 16),
                    None => (num, 10),
                };
                if digits.is_empty() || !digits.chars().all(|c| c.is_digit(radix)) {
                    return Err("bad character reference");
                }
                let mut n = 0u32;
                for c in digits.chars() {
                    n = n
                        .checked_mul(radix)
                        .and_then(|n| n.checked_add(c.to_digit(radix).unwrap()))
                        .ok_or("character reference out of range")?;
                }
                match char::from_u32(n) {
                    Some(c) if is_char(c) => {
                        if body.len() > 8 {
                            *open = Some("long character reference");
                        }
                        c
                    }
                    _ => return Err("reference to illegal character"),
                }
            }
        });
        rest = &after[end + 1..];
    }
    out.push_str(rest);
    Ok((Cow::Owned(out), true))
}

/// The value of a pseudo attribute, if it comes next
fn pseudo<'a>(rest: &mut &'a str, key: &str, space: bool) -> Option<&'a str> {
    const S: [char; 4] = [' ', '\t', '\r', '\n'];
    let s = rest.trim_start_matches(S);
    if space && s.len() == rest.len() {
        return None;
    }
    let s = s.strip_prefix(key)?.trim_start_matches(S).strip_prefix('=')?.trim_start_matches(S);
    let quote = s.chars().next().filter(|c| ['"', '\''].contains(c))?;
    let (value, after) = s[1..].split_once(quote)?;
    *rest = after;
    Some(value)
}

impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }

    fn peek(&self) -> Option<u8> {
        self.s.as_bytes().get(self.i).copied()
    }

    fn space(&mut self) -> bool {
        let start = self.i;
        while self.peek().is_some_and(is_space) {
            self.i += 1;
        }
        self.i > start
    }

    fn eat(&mut self, lit: &str) -> bool {
        match self.rest().starts_with(lit) {
            true => {
                self.i += lit.len();
                true
            }
            false => false,
        }
    }

    fn until(&mut self, lit: &str) -> Result<&'a str, Bad> {
        let rest = self.rest();
        let pos = rest.find(lit).ok_or("unterminated construct")?;
        self.i += pos + lit.len();
        let body = &rest[..pos];
        match body.chars().all(is_char) {
            true => Ok(body),
            false => Err("illegal character"),
        }
    }

    fn xml_decl(&mut self) -> Result<(), Bad> {
        self.i += 5;
        self.space();
        let body = self.until("?>")?;
        let body = body.trim_matches([' ', '\t', '\r', '\n']);
        // Version 1.0 in UTF-8 is settled; anything else is left open
        let mut rest = body;
        let mut usual = true;
        for (i, (key, values)) in [
            ("version", &["1.0"][..]),
            ("encoding", &["UTF-8", "utf-8", "Utf-8"][..]),
            ("standalone", &["yes", "no"][..]),
        ]
        .into_iter()
        .enumerate()
        {
            let Some(value) = pseudo(&mut rest, key, i > 0) else {
                usual &= i > 0;
                continue;
            };
            usual &= values.contains(&value);
        }
        if !usual || !rest.is_empty() {
            self.open = Some("unusual XML declaration");
        }
        Ok(())
    }

    fn comment(&mut self) -> Result<(), Bad> {
        let body = self.until("-->")?;
        self.comments += 1;
        match body.contains("--") || body.ends_with('-') {
            true => Err("double hyphen in comment"),
            false => Ok(()),
        }
    }

    fn misc(&mut self) -> Result<(), Bad> {
        loop {
            self.space();
            if self.eat("<!--") {
                self.comment()?;
            } else if self.rest().starts_with("<?") {
                return Err("processing instruction");
            } else if self.rest().starts_with("<!") {
                return Err("document type");
            } else {
                return Ok(());
            }
        }
    }

    fn qname(&mut self) -> Result<(&'a str, &'a str, &'a str), Bad> {
        let rest = self.rest();
        let end = rest
            .find(|c: char| !(is_name_char(c) || c == ':'))
            .unwrap_or(rest.len());
        let full = &rest[..end];
        self.i += end;
        match full.chars().next() {
            None => return Err("name expected"),
            Some(':') => return Err("name starts with colon"),
            Some(c) if !is_name_start(c) => return Err("bad name"),
            _ => {}
        }
        let (prefix, local) = match full.split_once(':') {
            None => ("", full),
            Some((p, l)) => {
                if l.contains(':') {
                    return Err("two colons");
                }
                match l.chars().next() {
                    None => return Err("name ends with colon"),
                    Some(c) if !is_name_start(c) => return Err("bad local name"),
                    _ => {}
                }
                (p, l)
            }
        };
        Ok((full, prefix, local))
    }

    fn resolve(&self, prefix: &str) -> Option<&'a str> {
        if prefix == "xml" {
            return Some(XML_NS);
        }
        self.scope
            .iter()
            .rev()
            .find_map(|(p, ns)| (*p == prefix).then_some(*ns))
    }

    fn element(&mut self) -> Result<El<'a>, Bad> {
        self.i += 1;
        self.depth += 1;
        self.max_depth = self.max_depth.max(self.depth);
        if self.depth > 2000 {
            return Err("too deep for the reference");
        }
        let (full, prefix, local) = self.qname()?;
        let mut decls: Vec<(&'a str, &'a str)> = Vec::new();
        let mut attrs: Vec<At<'a>> = Vec::new();
        let self_closed = loop {
            let spaced = self.space();
            if self.eat("/>") {
                break true;
            } else if self.eat(">") {
                break false;
            } else if self.peek().is_none() {
                return Err("end of input in tag");
            } else if !spaced {
                return Err("attributes not separated");
            }
            let (_, p, l) = self.qname()?;
            self.space();
            if !self.eat("=") {
                return Err("no = after attribute name");
            }
            self.space();
            let quote = match self.peek() {
                Some(b'"') => "\"",
                Some(b'\'') => "'",
                _ => return Err("no quote"),
            };
            self.i += 1;
            let raw = self.until(quote)?;
            if raw.contains('<') {
                return Err("< in attribute");
            }
            if raw.contains(['\t', '\r', '\n']) {
                self.open = Some("attribute whitespace normalization");
            }
            let declares = p == "xmlns" || p.is_empty() && l == "xmlns";
            let value = match expand(raw, &mut self.open) {
                Ok((value, _)) => value,
                // Known finding: such a reference goes unnoticed
                Err(_) if declares => {
                    self.open = Some("bad reference in namespace name");
                    Cow::Borrowed(raw)
                }
                Err(e) => return Err(e),
            };
            if p.is_empty() && l == "xmlns" {
                if decls.iter().any(|d| d.0.is_empty()) {
                    return Err("duplicate declaration");
                }
                if raw.contains('&') {
                    self.open.get_or_insert("reference in namespace name");
                }
                decls.push(("", raw));
            } else if p == "xmlns" {
                if decls.iter().any(|d| d.0 == l) {
                    return Err("duplicate declaration");
                }
                if raw.is_empty() || l == "xml" || l == "xmlns" || raw == XML_NS {
                    self.open = Some("reserved declaration");
                }
                if raw.contains('&') {
                    self.open.get_or_insert("reference in namespace name");
                }
                decls.push((l, raw));
            } else {
                attrs.push(At { prefix: p, local: l, ns: "", value });
            }
        };
        let base = self.scope.len();
        self.scope.extend(decls.iter().copied());
        self.max_attrs = self.max_attrs.max(attrs.len());
        self.max_decls = self
            .max_decls
            .max(decls.iter().filter(|d| !d.0.is_empty()).count());
        let ns = match prefix {
            "" => self.resolve("").unwrap_or(""),
            p => self.resolve(p).ok_or("undeclared prefix")?,
        };
        for i in 0..attrs.len() {
            if !attrs[i].prefix.is_empty() {
                match self.resolve(attrs[i].prefix) {
                    Some(ns) => attrs[i].ns = ns,
                    None => self.open = Some("undeclared attribute prefix"),
                }
            }
            let (head, tail) = attrs.split_at(i);
            for a in head.iter().filter(|a| a.local == tail[0].local) {
                if a.prefix == tail[0].prefix {
                    return Err("duplicate attribute");
                }
                // Not namespace-well-formed: two spellings of one name
                if a.ns == tail[0].ns {
                    self.open = Some("duplicate attribute");
                }
            }
        }
        let mut el = El { prefix, local, ns, decls, attrs, kids: Vec::new(), self_closed };
        if !self_closed {
            self.content(&mut el, full)?;
        }
        self.scope.truncate(base);
        self.depth -= 1;
        Ok(el)
    }

    fn content(&mut self, el: &mut El<'a>, full: &str) -> Result<(), Bad> {
        let mut run: Option<(Cow<'a, str>, bool)> = None;
        fn add<'a>(run: &mut Option<(Cow<'a, str>, bool)>, text: Cow<'a, str>, plain: bool) {
            match run {
                None => *run = Some((text, plain)),
                Some((prev, p)) => {
                    *p = false;
                    prev.to_mut().push_str(&text);
                }
            }
        }
        loop {
            let rest = self.rest();
            if rest.is_empty() {
                return Err("end of input in element");
            }
            if rest.starts_with("<!--") {
                self.i += 4;
                self.comment()?;
                // A comment interrupts the text
                if let Some((_, p)) = &mut run {
                    *p = false;
                }
            } else if rest.starts_with("<![CDATA[") {
                self.i += 9;
                let body = self.until("]]>")?;
                if body.contains('\r') {
                    self.open = Some("line end normalization");
                }
                add(&mut run, Cow::Borrowed(body), true);
            } else if rest.starts_with("<?") {
                return Err("processing instruction");
            } else if rest.starts_with("<!") {
                return Err("declaration in content");
            } else if rest.starts_with("</") {
                if let Some((t, p)) = run.take() {
                    el.kids.push(Kid::T(t, p));
                }
                self.i += 2;
                let (name, _, _) = self.qname()?;
                self.space();
                if !self.eat(">") {
                    return Err("bad end tag");
                }
                // A colon without a prefix is an open corner, here as in start tags
                return match name.strip_prefix(':').unwrap_or(name) == full.strip_prefix(':').unwrap_or(full) {
                    true => Ok(()),
                    false => Err("end tag mismatch"),
                };
            } else if rest.starts_with('<') {
                if let Some((t, p)) = run.take() {
                    el.kids.push(Kid::T(t, p));
                }
                let kid = self.element()?;
                el.kids.push(Kid::E(kid));
            } else {
                let end = rest.find('<').ok_or("end of input in text")?;
                let raw = &rest[..end];
                if raw.contains("]]>") {
                    return Err("]]> in text");
                }
                if !raw.chars().all(is_char) {
                    return Err("illegal character");
                }
                if raw.contains('\r') {
                    self.open = Some("line end normalization");
                }
                self.i += end;
                let (t, refs) = expand(raw, &mut self.open)?;
                add(&mut run, t, !refs);
            }
        }
    }
}
