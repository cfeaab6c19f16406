//! Corpora shared by several checks.

use mcore::gen::{self, Rich, Style};
use mcore::model::{Case, Pos, Ty, Val};
use mcore::refser::{self, OEl, OKid};

use crate::zoo::{misc, ns, pairs};

pub fn quick_rich() -> Rich {
    Rich { scalars: 3, depth: 2, cap: 300, inner: 5, list: 3 }
}

pub fn small_rich() -> Rich {
    Rich { scalars: 2, depth: 1, cap: 24, inner: 3, list: 2 }
}

pub fn wide_rich() -> Rich {
    Rich { scalars: 8, depth: 3, cap: 4000, inner: 12, list: 3 }
}

/// All types that can be written and read
pub fn cases() -> Vec<Case> {
    let mut out = misc::cases();
    out.extend(pairs::cases());
    out
}

pub struct Item {
    pub case: Case,
    pub trees: Vec<OEl>,
}

fn of(case: Case, rich: Rich, per: usize) -> Item {
    let vals: Vec<Val> = gen::spread(gen::values((case.ty)(), rich), per);
    let trees = vals.iter().filter_map(|v| refser::ser((case.ty)(), v).ok()).collect();
    Item { case, trees }
}

/// Trees for every type, up to `per` for each
pub fn corpus(rich: Rich, per: usize, with_pairs: bool) -> Vec<Item> {
    let mut out: Vec<Item> = misc::cases().into_iter().map(|c| of(c, rich, per)).collect();
    if with_pairs {
        out.extend(pairs::cases().into_iter().map(|c| of(c, rich, per)));
    }
    let mut trees = Vec::new();
    for root in 0..ns::count() {
        let mut vals = Vec::new();
        ns::small(root, &mut |v| vals.push(v));
        for v in gen::spread(vals, (per / 2).max(2)) {
            trees.extend(refser::ser((ns::case().ty)(), &v).ok());
        }
    }
    out.push(Item { case: ns::case(), trees: trees.clone() });
    for case in misc::any_cases() {
        out.push(Item { case, trees: captured((case.ty)(), per) });
    }
    out
}

/// Trees for types with captured elements
pub fn captured(ty: &'static Ty, per: usize) -> Vec<OEl> {
    let mut any: Vec<OEl> = Vec::new();
    any.push(OEl::new("", "a"));
    any.push(gen::leaf("urn:k", "b", "text"));
    let mut e = OEl::new("urn:1", "c");
    e.attrs.push(("".into(), "x".into(), "1".into()));
    e.attrs.push(("urn:k".into(), "y".into(), "<&>".into()));
    e.text("pre");
    e.kids.push(OKid::E(gen::leaf("", "d", "in")));
    e.text("mid");
    e.kids.push(OKid::E(OEl::new("urn:k", "d")));
    e.text("post");
    any.push(e.clone());
    let mut f = OEl::new("", "s");
    f.kids.push(OKid::E(e));
    f.kids.push(OKid::E(OEl::new("urn:1", "s")));
    any.push(f);
    let Ty::Struct(s) = ty else {
        return any;
    };
    let mut out = Vec::new();
    for (i, a) in any.iter().enumerate() {
        for two in [false, true] {
            let mut root = OEl::new(s.tag.ns, s.tag.name);
            for fl in &s.fields {
                match (fl.pos, fl.ty.get()) {
                    (Pos::Attr, _) => root.attrs.push(("".into(), fl.name.clone(), "7".into())),
                    (_, t) if holds_any(t) => {
                        root.kids.push(OKid::E(a.clone()));
                        if two {
                            root.kids.push(OKid::E(any[(i + 1) % any.len()].clone()));
                        }
                    }
                    (_, t) => {
                        let v = gen::values(t, small_rich()).pop().unwrap();
                        refser::put_field(fl, &v, &mut root).unwrap();
                    }
                }
            }
            out.push(root);
        }
    }
    out.truncate(per.max(4));
    out
}

pub fn holds_any(ty: &'static Ty) -> bool {
    match ty {
        Ty::Any => true,
        Ty::Option(t) | Ty::Vec(t) | Ty::Box(t) => holds_any(t.get()),
        _ => false,
    }
}

pub const SHORT: Style = Style { short: true, ..gen::PLAIN };

/// All strings of up to `max` pieces; `f` gets the concatenation and the number of pieces
pub fn strings(pieces: &[&str], max: usize, f: &mut dyn FnMut(&str)) {
    fn go(pieces: &[&str], left: usize, buf: &mut String, f: &mut dyn FnMut(&str)) {
        f(buf);
        if left == 0 {
            return;
        }
        for p in pieces {
            let len = buf.len();
            buf.push_str(p);
            go(pieces, left - 1, buf, f);
            buf.truncate(len);
        }
    }
    go(pieces, max, &mut String::new(), f);
}

/// Work items for `strings`: all beginnings with exactly two pieces, plus everything shorter
pub fn heads(pieces: &[&str]) -> Vec<(String, bool)> {
    let mut out = vec![(String::new(), false)];
    for a in pieces {
        out.push((a.to_string(), false));
        for b in pieces {
            out.push((format!("{a}{b}"), true));
        }
    }
    out
}

/// All strings of up to `max` (at least 2) pieces that begin with `head`
pub fn from_head(pieces: &[&str], head: &(String, bool), max: usize, f: &mut dyn FnMut(&str)) {
    match head.1 {
        false => f(&head.0),
        true => strings(pieces, max - 2, &mut |s| f(&format!("{}{s}", head.0))),
    }
}

/// A document in pieces: tags, comments and runs of text
pub fn tokens(doc: &str) -> Vec<&str> {
    let mut out = Vec::new();
    let mut rest = doc;
    while !rest.is_empty() {
        let end = match rest.starts_with('<') {
            true => {
                // Quoted `>` does not end a tag
                let mut quote = None;
                rest.char_indices()
                    .find(|&(_, c)| match (quote, c) {
                        (None, '>') => true,
                        (None, '"' | '\'') => {
                            quote = Some(c);
                            false
                        }
                        (Some(q), c) if q == c => {
                            quote = None;
                            false
                        }
                        _ => false,
                    })
                    .map_or(rest.len(), |(i, _)| i + 1)
            }
            false => rest.find('<').unwrap_or(rest.len()),
        };
        out.push(&rest[..end]);
        rest = &rest[end..];
    }
    out
}
