//! Reference serializer: from a value to the tree its XML must denote, and to its text in the
//! documented namespace policy.

use std::collections::BTreeMap;

use crate::model::{Pos, Tag, Ty, Val};
use crate::xml::{is_char, El, Kid};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct OEl {
    pub ns: String,
    pub name: String,
    /// (namespace, name, value)
    pub attrs: Vec<(String, String, String)>,
    pub kids: Vec<OKid>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum OKid {
    E(OEl),
    T(String),
}

impl OEl {
    pub fn new(ns: &str, name: &str) -> Self {
        Self { ns: ns.into(), name: name.into(), attrs: Vec::new(), kids: Vec::new() }
    }

    pub fn text(&mut self, t: &str) {
        if t.is_empty() {
            return;
        }
        match self.kids.last_mut() {
            Some(OKid::T(prev)) => prev.push_str(t),
            _ => self.kids.push(OKid::T(t.into())),
        }
    }

    /// Number of elements
    pub fn size(&self) -> usize {
        1 + self
            .kids
            .iter()
            .map(|k| match k {
                OKid::E(e) => e.size(),
                OKid::T(_) => 0,
            })
            .sum::<usize>()
    }

    /// Is this the tree the parsed element denotes? (attribute order is not significant)
    pub fn same(&self, el: &El<'_>) -> bool {
        if self.ns != el.ns || self.name != el.local || self.attrs.len() != el.attrs.len() {
            return false;
        }
        let attrs_same = self.attrs.iter().all(|(ns, name, value)| {
            el.attrs
                .iter()
                .any(|a| a.ns == ns && a.local == name && a.value.as_ref() == value)
        });
        let kids: Vec<&Kid<'_>> = el
            .kids
            .iter()
            .filter(|k| !matches!(k, Kid::T(t, _) if t.is_empty()))
            .collect();
        attrs_same
            && kids.len() == self.kids.len()
            && self.kids.iter().zip(kids).all(|(a, b)| match (a, b) {
                (OKid::E(a), Kid::E(b)) => a.same(b),
                (OKid::T(a), Kid::T(b, _)) => a == b.as_ref(),
                _ => false,
            })
    }
}

/// The value holds a character XML cannot represent
#[derive(Debug, PartialEq)]
pub struct Refused;

pub fn ser(ty: &'static Ty, val: &Val) -> Result<OEl, Refused> {
    let mut top = OEl::new("", "");
    put(ty, val, None, &mut top)?;
    match top.kids.pop() {
        Some(OKid::E(e)) if top.kids.is_empty() => Ok(e),
        other => panic!("not an element type: {other:?}"),
    }
}

fn checked(text: &str) -> Result<&str, Refused> {
    match text.chars().all(is_char) {
        true => Ok(text),
        false => Err(Refused),
    }
}

/// The text of a scalar value; `None` if it is absent
pub fn text(ty: &'static Ty, val: &Val) -> Result<Option<String>, Refused> {
    Ok(match (ty, val) {
        (Ty::Scalar(_), Val::S(s)) => Some(checked(s)?.to_owned()),
        (Ty::Enum(e), Val::Enum(i)) => Some(checked(&e.variants[*i])?.to_owned()),
        (Ty::Option(_), Val::None) => None,
        (Ty::Option(t), Val::Some(v)) => text(t.get(), v)?,
        (Ty::Box(t), v) => text(t.get(), v)?,
        _ => panic!("not a scalar"),
    })
}

fn put(ty: &'static Ty, val: &Val, id: Option<(&str, &str)>, out: &mut OEl) -> Result<(), Refused> {
    match (ty, val) {
        (Ty::Scalar(_), _) | (Ty::Enum(_), _) => {
            let t = text(ty, val)?.unwrap();
            match id {
                None => out.text(&t),
                Some((ns, name)) => {
                    let ns = match ty {
                        Ty::Enum(e) => e.ns,
                        _ => ns,
                    };
                    let mut el = OEl::new(ns, name);
                    el.text(&t);
                    out.kids.push(OKid::E(el));
                }
            }
        }
        (Ty::Option(_), Val::None) => {}
        (Ty::Option(t), Val::Some(v)) => put(t.get(), v, id, out)?,
        (Ty::Box(t), v) => put(t.get(), v, id, out)?,
        (Ty::Vec(t), Val::List(vs)) => {
            for v in vs {
                put(t.get(), v, id, out)?;
            }
        }
        (Ty::Struct(s), Val::Rec(vs)) => {
            let mut el = OEl::new(s.tag.ns, s.tag.name);
            for (f, v) in s.fields.iter().zip(vs) {
                match f.pos {
                    Pos::Attr => {
                        if let Some(t) = text(f.ty.get(), v)? {
                            el.attrs.push((f.ns.into(), f.name.clone(), t));
                        }
                    }
                    Pos::Elem => put(f.ty.get(), v, Some((f.ns, &f.name)), &mut el)?,
                    Pos::Direct => put(f.ty.get(), v, None, &mut el)?,
                }
            }
            out.kids.push(OKid::E(el));
        }
        (Ty::Tuple(t), Val::Rec(vs)) => {
            let mut el = OEl::new(t.tag.ns, t.tag.name);
            for (f, v) in t.fields.iter().zip(vs) {
                put(f.get(), v, None, &mut el)?;
            }
            out.kids.push(OKid::E(el));
        }
        (Ty::UnitStruct(tag), _) => out.kids.push(OKid::E(OEl::new(tag.ns, tag.name))),
        (Ty::Forward(f), Val::Var(i, v)) => put(f.variants[*i].get(), v, None, out)?,
        (Ty::Transparent(t), Val::Rec(vs)) => {
            for (f, v) in t.fields.iter().zip(vs) {
                put(f.ty.get(), v, Some((f.ns, &f.name)), out)?;
            }
        }
        (_, v) => panic!("cannot serialize {v:?}"),
    }
    Ok(())
}

// The documented policy for namespace declarations and prefixes

/// One start tag as the policy wants it
#[derive(Clone, Debug, PartialEq)]
pub struct Start {
    pub prefix: Option<String>,
    pub local: String,
    /// Declarations (prefix or "" for the default one, namespace), sorted
    pub decls: Vec<(String, String)>,
    /// (prefix or "", local) of the attributes, in order
    pub attrs: Vec<(String, String)>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Scope {
    pub default: String,
    /// namespace -> prefix
    pub prefixes: BTreeMap<String, String>,
}

/// Start tags of the serialization of `val`, in document order
pub fn policy(ty: &'static Ty, val: &Val) -> Vec<Start> {
    let mut out = Vec::new();
    let scope = Scope { default: String::new(), prefixes: BTreeMap::new() };
    walk(ty, val, None, &scope, &mut out);
    out
}

/// Element of a plain field: a name without declarations of its own
pub fn plain(ns: &str, name: &str, scope: &Scope) -> Start {
    let mut start = Start { prefix: None, local: name.into(), decls: Vec::new(), attrs: Vec::new() };
    if ns == scope.default {
        return start;
    }
    match scope.prefixes.get(ns) {
        Some(p) => start.prefix = Some(p.clone()),
        None => start.decls.push((String::new(), ns.into())),
    }
    start
}

/// Element of a container, which sets the default namespace and declares prefixes
pub fn container(tag: &Tag, outer: &Scope) -> (Start, Scope) {
    let mut scope = outer.clone();
    let mut start =
        Start { prefix: None, local: tag.name.into(), decls: Vec::new(), attrs: Vec::new() };

    // Declarations for namespaces an ancestor (or an earlier entry) has a prefix for are dropped.
    // A prefix bound anew here is not usable for the namespace it meant outside, which in turn may
    // make another declaration necessary.
    let mut own: Vec<(&str, &str)> = Vec::new();
    loop {
        own.clear();
        for (p, ns) in &tag.prefixes {
            if !scope.prefixes.contains_key(*ns) && !own.iter().any(|(_, n)| n == ns) {
                own.push((p, ns));
            }
        }
        let before = scope.prefixes.len();
        scope.prefixes.retain(|_, p| !own.iter().any(|(q, _)| q == p));
        if scope.prefixes.len() == before {
            break;
        }
    }

    match (scope.prefixes.get(tag.ns), tag.force_prefix) {
        (Some(p), true) => start.prefix = Some(p.clone()),
        (Some(p), false) if tag.ns != outer.default => {
            start.prefix = Some(p.clone());
            start.decls.push((String::new(), tag.ns.into()));
            scope.default = tag.ns.into();
        }
        // The library repeats the default namespace here; redundant declarations are not compared
        (Some(_), false) => {}
        (None, _) if tag.ns == outer.default => {}
        (None, _) => {
            start.decls.push((String::new(), tag.ns.into()));
            scope.default = tag.ns.into();
        }
    }
    for (p, ns) in own {
        start.decls.push((p.into(), ns.into()));
        scope.prefixes.insert(ns.into(), p.into());
    }
    start.decls.sort();
    (start, scope)
}

fn walk(ty: &'static Ty, val: &Val, id: Option<(&str, &str)>, scope: &Scope, out: &mut Vec<Start>) {
    match (ty, val) {
        (Ty::Scalar(_), _) => {
            if let Some((ns, name)) = id {
                out.push(plain(ns, name, scope));
            }
        }
        (Ty::Enum(e), _) => {
            if let Some((_, name)) = id {
                out.push(plain(e.ns, name, scope));
            }
        }
        (Ty::Option(t), Val::Some(v)) => walk(t.get(), v, id, scope, out),
        (Ty::Option(_), _) => {}
        (Ty::Box(t), v) => walk(t.get(), v, id, scope, out),
        (Ty::Vec(t), Val::List(vs)) => {
            for v in vs {
                walk(t.get(), v, id, scope, out);
            }
        }
        (Ty::Struct(s), Val::Rec(vs)) => {
            let (mut start, inner) = container(&s.tag, scope);
            for (f, v) in s.fields.iter().zip(vs) {
                if f.pos == Pos::Attr && text(f.ty.get(), v).ok().flatten().is_some() {
                    let p = match f.ns {
                        "" => String::new(),
                        ns => inner.prefixes.get(ns).cloned().unwrap_or_default(),
                    };
                    start.attrs.push((p, f.name.clone()));
                }
            }
            start.attrs.sort();
            out.push(start);
            for (f, v) in s.fields.iter().zip(vs) {
                match f.pos {
                    Pos::Elem => walk(f.ty.get(), v, Some((f.ns, &f.name)), &inner, out),
                    Pos::Direct => walk(f.ty.get(), v, None, &inner, out),
                    Pos::Attr => {}
                }
            }
        }
        (Ty::Tuple(t), Val::Rec(vs)) => {
            let (start, inner) = container(&t.tag, scope);
            out.push(start);
            for (f, v) in t.fields.iter().zip(vs) {
                walk(f.get(), v, None, &inner, out);
            }
        }
        (Ty::UnitStruct(tag), _) => out.push(container(tag, scope).0),
        (Ty::Forward(f), Val::Var(i, v)) => walk(f.variants[*i].get(), v, None, scope, out),
        (Ty::Transparent(t), Val::Rec(vs)) => {
            for (f, v) in t.fields.iter().zip(vs) {
                walk(f.ty.get(), v, Some((f.ns, &f.name)), scope, out);
            }
        }
        (_, v) => panic!("cannot serialize {v:?}"),
    }
}

/// The elements a field with this value makes
pub fn put_field(f: &crate::model::Field, val: &Val, out: &mut OEl) -> Result<(), Refused> {
    match f.pos {
        Pos::Elem => put(f.ty.get(), val, Some((f.ns, &f.name)), out),
        _ => put(f.ty.get(), val, None, out),
    }
}
