//! Three fields of every kind next to each other (thorough tier only).

use instant_xml::{FromXml, ToXml};
use mcore::case;
use mcore::model::Case;
use model_derive::Model;

use super::leaf::*;

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(rename = "M")]
pub struct Mid {
    pub z: Option<u8>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
pub struct EEE<A, C, B> {
    pub a: A,
    pub c: C,
    pub b: B,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(ns("urn:n", n = "urn:n"))]
pub struct AEE<A, C, B> {
    #[xml(attribute)]
    pub a: A,
    pub c: C,
    pub b: B,
}

macro_rules! last {
    ($out:ident, $p:ident, $a:ty, $c:ty, $($b:ty),*) => { $($out.push(case!($p<$a, $c, $b>));)* };
}

macro_rules! mid {
    ($out:ident, $p:ident, $a:ty, $($c:ty),*) => {
        $(last!($out, $p, $a, $c, String, Option<u8>, Vec<u8>, ER, SR, Option<TR>, Vec<SR>, Option<FR>, XR);)*
    };
}

macro_rules! first {
    ($out:ident, $p:ident, $($a:ty),*) => {
        $(mid!($out, $p, $a, u8, Option<String>, Vec<String>, Mid, Vec<Mid>, Option<Box<Mid>>);)*
    };
}

pub fn cases() -> Vec<Case> {
    let mut out = Vec::new();
    first!(out, EEE, String, Option<u8>, Vec<u8>, EL, SL, Option<TL>, Vec<SL>, FL, Vec<FL>, XL);
    first!(out, AEE, String, Option<u8>);
    out
}
