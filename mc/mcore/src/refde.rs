//! Reference deserializer: from the tree of a document to the value (or failure) it must produce.

use chrono::{DateTime, NaiveDate, NaiveDateTime, Utc};

use crate::model::{AnyVal, Pos, Sc, Ty, Val};
use crate::xml::{El, Kid};

/// Why there is no value
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum No {
    /// The library must return an error
    Fail(&'static str),
    /// The properties leave the outcome open
    Open(&'static str),
}

use No::{Fail, Open};

type R<T> = Result<T, No>;

/// Default limits of the library, as stated in its documentation
pub const MAX_LEVELS: usize = 32;
pub const MAX_ATTRS: usize = 64;
pub const MAX_DECLS: usize = 32;

/// What `from_str::<T>(doc)` must give
pub fn expect(ty: &'static Ty, doc: &str) -> R<Val> {
    match crate::xml::parse(doc) {
        Err(why) => Err(Fail(why)),
        Ok(parsed) => {
            if let Some(why) = parsed.open {
                return Err(Open(why));
            }
            if parsed.depth > MAX_LEVELS || parsed.max_attrs > MAX_ATTRS || parsed.max_decls > MAX_DECLS {
                return Err(Fail("over the limits"));
            }
            root(ty, &parsed.root)
        }
    }
}

pub fn root(ty: &'static Ty, el: &El<'_>) -> R<Val> {
    if !matches(ty, el, None) {
        return Err(Fail("unexpected root"));
    }
    let mut acc = Acc::new(ty);
    acc.element(el)?;
    acc.done()
}

/// Canonical text of the scalar `text` denotes
pub fn scalar(sc: Sc, text: &str) -> Option<String> {
    macro_rules! num {
        ($t:ty) => {
            text.trim().parse::<$t>().ok().map(|n| n.to_string())
        };
    }
    match sc {
        Sc::Str => Some(text.to_owned()),
        Sc::Bool => match text {
            "true" | "1" => Some("true".into()),
            "false" | "0" => Some("false".into()),
            _ => None,
        },
        Sc::Char => {
            let mut chars = text.chars();
            match (chars.next(), chars.next()) {
                (Some(_), None) => Some(text.to_owned()),
                _ => None,
            }
        }
        Sc::I8 => num!(i8),
        Sc::I16 => num!(i16),
        Sc::I32 => num!(i32),
        Sc::I64 => num!(i64),
        Sc::Isize => num!(isize),
        Sc::U8 => num!(u8),
        Sc::U16 => num!(u16),
        Sc::U32 => num!(u32),
        Sc::U64 => num!(u64),
        Sc::Usize => num!(usize),
        Sc::F32 => num!(f32),
        Sc::F64 => num!(f64),
        Sc::Ip => text.parse::<std::net::IpAddr>().ok().map(|ip| ip.to_string()),
        Sc::DateTime => DateTime::parse_from_rfc3339(text)
            .ok()
            .filter(|d| d.offset().local_minus_utc() == 0)
            .map(|d| d.with_timezone(&Utc).to_rfc3339()),
        Sc::NaiveDateTime => NaiveDateTime::parse_from_str(text, "%Y-%m-%dT%H:%M:%S%.f")
            .ok()
            .map(|d| format!("{d:?}")),
        Sc::NaiveDate => NaiveDate::parse_from_str(text, "%Y-%m-%d")
            .ok()
            .map(|d| format!("{d:?}")),
    }
}

/// Does the element `el` belong to a field of type `ty` (with the field's own name `field`)?
pub fn matches(ty: &'static Ty, el: &El<'_>, field: Option<(&str, &str)>) -> bool {
    match ty {
        Ty::Scalar(_) | Ty::Unit => field.is_some_and(|(ns, name)| el.ns == ns && el.local == name),
        Ty::Enum(e) => el.ns == e.ns && field.map_or(true, |(_, name)| el.local == name),
        Ty::Struct(_) | Ty::Tuple(_) | Ty::UnitStruct(_) => {
            let tag = ty.tag().unwrap();
            el.ns == tag.ns && el.local == tag.name
        }
        Ty::Forward(f) => f.variants.iter().any(|v| matches(v.get(), el, field)),
        Ty::Transparent(t) => t
            .fields
            .iter()
            .any(|f| matches(f.ty.get(), el, Some((f.ns, &f.name)))),
        Ty::Option(t) | Ty::Vec(t) | Ty::Box(t) => matches(t.get(), el, field),
        Ty::Any => true,
    }
}

/// What has been seen so far for one field
pub enum Acc {
    One { ty: &'static Ty, val: Option<Val>, empty: bool },
    Opt { inner: Box<Acc>, seen: bool },
    Many { ty: &'static Ty, vals: Vec<Val> },
    Inline { ty: &'static Ty, accs: Vec<Acc> },
}

impl Acc {
    pub fn new(ty: &'static Ty) -> Self {
        match ty {
            Ty::Option(t) => Acc::Opt { inner: Box::new(Acc::new(t.get())), seen: false },
            Ty::Vec(t) => Acc::Many { ty: t.get(), vals: Vec::new() },
            Ty::Transparent(t) => Acc::Inline {
                ty,
                accs: t.fields.iter().map(|f| Acc::new(f.ty.get())).collect(),
            },
            _ => Acc::One { ty, val: None, empty: false },
        }
    }

    /// Feed an element
    pub fn element(&mut self, el: &El<'_>) -> R<()> {
        match self {
            Acc::One { ty, val, empty } => {
                if val.is_some() {
                    // A repeated element is a duplicate, but an empty one may count as absent
                    return match ty.is_scalar() && !text_like(ty) && content(el)?.is_none() {
                        true => Err(Open("empty element after a value")),
                        false => Err(Fail("duplicate")),
                    };
                }
                match one(ty, el)? {
                    Some(_) if *empty => return Err(Open("value after an empty element")),
                    Some(v) => *val = Some(v),
                    None if *empty => return Err(Open("two empty elements")),
                    None => *empty = true,
                }
                Ok(())
            }
            Acc::Opt { inner, seen } => {
                *seen = true;
                inner.element(el)
            }
            Acc::Many { ty, vals } => {
                let mut acc = Acc::new(ty);
                acc.element(el)?;
                vals.push(acc.done()?);
                Ok(())
            }
            Acc::Inline { ty, accs } => {
                let Ty::Transparent(t) = ty else { unreachable!() };
                for (f, acc) in t.fields.iter().zip(accs) {
                    if matches(f.ty.get(), el, Some((f.ns, &f.name))) {
                        return acc.element(el);
                    }
                }
                // Only reachable as the root of a document
                Ok(())
            }
        }
    }

    /// Feed a piece of text (attribute value or direct text)
    pub fn text(&mut self, text: &str) -> R<()> {
        match self {
            Acc::One { ty, val, .. } => {
                if val.is_some() {
                    return Err(Fail("duplicate"));
                }
                *val = Some(of_text(ty, text)?);
                Ok(())
            }
            Acc::Opt { inner, seen } => {
                *seen = true;
                inner.text(text)
            }
            Acc::Many { .. } => Err(Open("list from text")),
            Acc::Inline { .. } => Err(Open("inline struct from text")),
        }
    }

    pub fn done(self) -> R<Val> {
        match self {
            Acc::One { ty: Ty::Box(t), val: None, .. } if optional(t.get()) => Err(Open("box of optional")),
            Acc::One { val, .. } => val.ok_or(Fail("missing")),
            Acc::Opt { inner, seen } => match *inner {
                Acc::One { val, .. } => Ok(match val {
                    Some(v) => Val::Some(Box::new(v)),
                    None => Val::None,
                }),
                inner => match (inner.done(), seen) {
                    (Ok(v), _) => Ok(Val::Some(Box::new(v))),
                    (Err(Open(why)), _) => Err(Open(why)),
                    (Err(e), true) => Err(e),
                    (Err(_), false) => Ok(Val::None),
                },
            },
            Acc::Many { vals, .. } => Ok(Val::List(vals)),
            Acc::Inline { accs, .. } => Ok(Val::Rec(
                accs.into_iter().map(Acc::done).collect::<R<_>>()?,
            )),
        }
    }
}

fn optional(ty: &'static Ty) -> bool {
    match ty {
        Ty::Option(_) | Ty::Vec(_) => true,
        Ty::Box(t) => optional(t.get()),
        _ => false,
    }
}

/// Types for which empty text is a value (or, for enums, an error) rather than nothing
fn text_like(ty: &'static Ty) -> bool {
    match ty {
        Ty::Scalar(Sc::Str) | Ty::Enum(_) | Ty::Unit => true,
        Ty::Box(t) => text_like(t.get()),
        _ => false,
    }
}

/// The text of an element that stands for a scalar; `None` if there is none
fn content<'e>(el: &'e El<'_>) -> R<Option<&'e str>> {
    let elems = el.kids.iter().any(|k| matches!(k, Kid::E(_)));
    let mut text = None;
    for kid in &el.kids {
        if let Kid::T(t, _) = kid {
            if elems {
                return Err(Open("mixed content in a scalar"));
            }
            text = Some(t.as_ref());
        }
    }
    match elems {
        true => Err(Fail("elements in a scalar")),
        false if text == Some("") => Err(Open("empty CDATA section")),
        false => Ok(text),
    }
}

fn of_text(ty: &'static Ty, text: &str) -> R<Val> {
    match ty {
        Ty::Scalar(sc) => scalar(*sc, text).map(Val::S).ok_or(Fail("unparsable")),
        Ty::Enum(e) => e
            .variants
            .iter()
            .position(|v| v == text)
            .map(Val::Enum)
            .ok_or(Fail("not a variant")),
        Ty::Unit => Ok(Val::Unit),
        Ty::Box(t) => {
            let mut acc = Acc::new(t.get());
            acc.text(text)?;
            acc.done()
        }
        _ => Err(Open("text for a non-scalar")),
    }
}

fn one(ty: &'static Ty, el: &El<'_>) -> R<Option<Val>> {
    match ty {
        Ty::Unit => Ok(Some(Val::Unit)),
        Ty::Scalar(Sc::Str) => Ok(Some(Val::S(content(el)?.unwrap_or("").to_owned()))),
        Ty::Scalar(_) => content(el)?.map(|t| of_text(ty, t)).transpose(),
        Ty::Enum(_) => match content(el)? {
            Some(t) => of_text(ty, t).map(Some),
            None => Err(Fail("empty enum")),
        },
        Ty::Box(t) => {
            let mut acc = Acc::new(t.get());
            acc.element(el)?;
            match acc.done() {
                Err(Fail("missing")) => Err(Open("empty boxed scalar")),
                other => other.map(Some),
            }
        }
        Ty::Struct(s) => {
            let mut accs: Vec<Acc> = s.fields.iter().map(|f| Acc::new(f.ty.get())).collect();
            let direct = s.fields.iter().position(|f| f.pos == Pos::Direct);
            for at in &el.attrs {
                let hit = s
                    .fields
                    .iter()
                    .position(|f| f.pos == Pos::Attr && f.ns == at.ns && f.name == at.local);
                if let Some(i) = hit {
                    accs[i].text(&at.value)?;
                }
            }
            let mut runs = 0;
            for kid in &el.kids {
                match kid {
                    Kid::E(e) => {
                        let hit = s.fields.iter().position(|f| {
                            f.pos == Pos::Elem && matches(f.ty.get(), e, Some((f.ns, &f.name)))
                        });
                        match hit {
                            Some(i) => accs[i].element(e)?,
                            None => {}
                        }
                    }
                    Kid::T(t, _) => {
                        if let Some(d) = direct {
                            runs += 1;
                            if runs > 1 {
                                return Err(Open("direct text in several pieces"));
                            }
                            if t.is_empty() {
                                return Err(Open("empty CDATA section"));
                            }
                            accs[d].text(t)?;
                        }
                    }
                }
            }
            if let (Some(d), 0) = (direct, runs) {
                // No text: the empty string for text types, nothing for others
                if let Acc::One { ty, val, .. } = &mut accs[d] {
                    let mut inner: &'static Ty = ty;
                    while let Ty::Box(t) = inner {
                        inner = t.get();
                    }
                    match inner {
                        Ty::Scalar(Sc::Str) => *val = Some(Val::S(String::new())),
                        Ty::Unit => *val = Some(Val::Unit),
                        _ => {}
                    }
                }
            }
            Ok(Some(Val::Rec(
                accs.into_iter().map(Acc::done).collect::<R<_>>()?,
            )))
        }
        Ty::UnitStruct(_) => Ok(Some(Val::Rec(Vec::new()))),
        Ty::Tuple(t) => tuple(&t.fields.iter().map(|f| f.get()).collect::<Vec<_>>(), el).map(Some),
        Ty::Forward(f) => {
            for (i, v) in f.variants.iter().enumerate() {
                if matches(v.get(), el, None) {
                    let mut acc = Acc::new(v.get());
                    acc.element(el)?;
                    return Ok(Some(Val::Var(i, Box::new(acc.done()?))));
                }
            }
            Err(Fail("no variant"))
        }
        Ty::Any => Ok(Some(Val::Any(Box::new(any(el))))),
        Ty::Option(_) | Ty::Vec(_) | Ty::Transparent(_) => unreachable!(),
    }
}

fn tuple(fields: &[&'static Ty], el: &El<'_>) -> R<Val> {
    if !el.attrs.is_empty() {
        return Err(Open("attributes on a tuple struct"));
    }
    if let [ty] = fields {
        if ty.is_scalar() {
            let mut acc = Acc::new(ty);
            // What comes after the text is ignored
            let first = match el.kids.first() {
                Some(Kid::T(t, _)) if t.is_empty() => Err(Open("empty CDATA section")),
                Some(Kid::T(t, _)) => Ok(Some(t.as_ref())),
                Some(Kid::E(_)) => Err(Open("elements in a tuple struct")),
                None => Ok(None),
            };
            match first {
                Err(e) => return Err(e),
                Ok(Some(t)) => acc.text(t)?,
                Ok(None) => match ty {
                    Ty::Scalar(Sc::Str) => return Ok(Val::Rec(vec![Val::S(String::new())])),
                    Ty::Unit => return Ok(Val::Rec(vec![Val::Unit])),
                    Ty::Scalar(_) | Ty::Enum(_) | Ty::Option(_) => {}
                    _ => return Err(Open("list in a tuple struct")),
                },
            }
            return Ok(Val::Rec(vec![acc.done()?]));
        }
    }
    if fields.iter().any(|t| t.is_scalar() || optional(t) || matches!(t, Ty::Transparent(_))) {
        return Err(Open("tuple struct with scalars or optional fields"));
    }
    let mut kids = el.kids.iter();
    let mut vals = Vec::new();
    for ty in fields {
        let e = match kids.next() {
            Some(Kid::E(e)) => e,
            Some(Kid::T(..)) => return Err(Open("text in a tuple struct")),
            None => return Err(Fail("missing tuple field")),
        };
        if !matches(ty, e, None) {
            return Err(Fail("unexpected element in tuple"));
        }
        let mut acc = Acc::new(ty);
        acc.element(e)?;
        vals.push(acc.done()?);
    }
    // Anything more is ignored
    Ok(Val::Rec(vals))
}

pub fn any(el: &El<'_>) -> AnyVal {
    let mut text: Option<String> = None;
    let mut kids = Vec::new();
    for kid in &el.kids {
        match kid {
            Kid::E(e) => kids.push(any(e)),
            Kid::T(t, _) => text.get_or_insert_with(String::new).push_str(t),
        }
    }
    AnyVal {
        ns: el.ns.to_owned(),
        name: el.local.to_owned(),
        attrs: el
            .attrs
            .iter()
            .map(|a| (a.ns.to_owned(), a.local.to_owned(), a.value.to_string()))
            .collect(),
        text,
        kids,
    }
}
