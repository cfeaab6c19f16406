//! The generated type definitions, and what they refer to.

#![allow(non_camel_case_types, non_snake_case, unused_imports)]

use instant_xml::{FromXml, ToXml};
use mcore::case;
use mcore::model::Case;
use model_derive::Model;
use std::borrow::Cow;

pub const X: &str = "urn:x";
pub const B: &str = "urn:b";
pub const D: &str = "urn:d";

pub mod names {
    pub const X: &str = "urn:names:x";
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(ns("urn:a"))]
pub struct Kid {
    pub x: u8,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(ns("urn:b"), rename = "Kid")]
pub struct Other {
    #[xml(attribute)]
    pub x: u8,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
pub struct Third;

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
pub struct Fourth(pub Third);

/// Write and read back
pub fn back<T: ToXml + for<'x> FromXml<'x> + PartialEq + std::fmt::Debug>(v: &T) -> Result<(), String> {
    let out = instant_xml::to_string(v).map_err(|e| format!("{e:?}"))?;
    mcore::xml::parse(&out).map_err(|e| format!("{e}: {out}"))?;
    match instant_xml::from_str::<T>(&out) {
        Ok(w) if w == *v => Ok(()),
        other => Err(format!("{out} is read as {other:?}")),
    }
}

type Set<T> = fn(&mut T, Option<u8>);

/// A type with nothing but fields of this kind, from their identifiers and expected names
pub fn fields<T>(attr: bool, list: &[(&str, &str, Set<T>)]) -> Result<(), String>
where
    T: ToXml + for<'x> FromXml<'x> + PartialEq + std::fmt::Debug + Default,
{
    let doc = |name: &str| match attr {
        true => format!("<S {name}=\"7\"/>"),
        false => format!("<S><{name}>7</{name}></S>"),
    };
    let read = |name: &str, want: &T| match instant_xml::from_str::<T>(&doc(name)) {
        Ok(got) if got == *want => Ok(()),
        got => Err(format!("{} gives {got:?} instead of {want:?}", doc(name))),
    };
    let mut all = T::default();
    for (ident, name, set) in list {
        let mut v = T::default();
        set(&mut v, Some(7));
        set(&mut all, Some(ident.len() as u8));
        back(&v)?;
        read(name, &v)?;
        let out = instant_xml::to_string(&v).map_err(|e| format!("{e:?}"))?;
        let doc = mcore::xml::parse(&out).map_err(|e| format!("{e}: {out}"))?;
        let attrs = doc.root.attrs.iter().map(|a| a.local.to_owned());
        let kids = doc.root.kids.iter().map(|k| match k {
            mcore::xml::Kid::E(e) => e.local.to_owned(),
            other => format!("{other:?}"),
        });
        let names: Vec<_> = if attr { attrs.chain(kids).collect() } else { kids.chain(attrs).collect() };
        if names != [name.to_string()] {
            return Err(format!("{ident} is written as {names:?} instead of {name}"));
        }
    }
    back(&all)?;
    // The identifier, and what is close to the name, mean nothing
    let none = T::default();
    for (ident, name, _) in list {
        let near = mcore::gen::near_names(name).into_iter().map(|n| n.to_string());
        for other in near.chain([ident.trim_start_matches("r#").to_owned()]) {
            if !list.iter().any(|(_, n, _)| *n == other) && !other.starts_with('-') {
                read(&other, &none)?;
            }
        }
    }
    Ok(())
}

#[derive(Debug, PartialEq, FromXml, ToXml)]
pub struct Text<E> {
    #[xml(direct)]
    pub text: E,
}

/// A scalar enum, from the names and values of its variants
pub fn variants<E>(list: &[(&str, E)]) -> Result<(), String>
where
    E: ToXml + for<'x> FromXml<'x> + PartialEq + std::fmt::Debug + Copy,
{
    for (name, e) in list {
        let doc = format!("<Text>{name}</Text>");
        match instant_xml::to_string(&Text { text: *e }) {
            Ok(out) if out == doc => {}
            other => return Err(format!("{e:?} is written as {other:?} instead of {doc}")),
        }
        let near = mcore::gen::near_names(name).into_iter().map(|n| n.to_string());
        for text in near.chain([name.to_string(), format!("{e:?}")]) {
            let want = list.iter().find(|(n, _)| *n == text).map(|(_, e)| *e);
            let doc = format!("<Text>{text}</Text>");
            match (instant_xml::from_str::<Text<E>>(&doc), want) {
                (Ok(t), Some(e)) if t.text == e => {}
                (Err(_), None) => {}
                (got, want) => return Err(format!("{doc} gives {got:?} instead of {want:?}")),
            }
        }
    }
    Ok(())
}

include!(concat!(env!("OUT_DIR"), "/family.rs"));
