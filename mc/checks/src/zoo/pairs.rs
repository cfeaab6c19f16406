//! Two fields of every kind next to each other.

use instant_xml::{FromXml, ToXml};
use mcore::case;
use mcore::model::Case;
use model_derive::Model;

use super::leaf::*;

macro_rules! pair {
    ($name:ident, [$($a:tt)*], [$($b:tt)*]) => {
        #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
        pub struct $name<A, B> {
            $($a)*
            pub a: A,
            $($b)*
            pub b: B,
        }
    };
}

pair!(EE, [], []);
pair!(AE, [#[xml(attribute)]], []);
pair!(EA, [], [#[xml(attribute)]]);
pair!(AA, [#[xml(attribute)]], [#[xml(attribute)]]);
pair!(ED, [], [#[xml(direct)]]);
pair!(AD, [#[xml(attribute)]], [#[xml(direct)]]);

macro_rules! row {
    ($out:ident, $p:ident, $a:ty, $($b:ty),*) => {
        $($out.push(case!($p<$a, $b>));)*
    };
}

macro_rules! elems {
    ($out:ident, $p:ident, $($a:ty),*) => {
        $(row!($out, $p, $a, String, u8, Option<String>, Option<u8>, Vec<u8>, Vec<String>, ER,
            Option<ER>, SR, Option<SR>, Vec<SR>, Box<SR>, Option<Box<TR>>, FR, Option<FR>, Vec<FR>,
            XR, Option<XR>);)*
    };
}

macro_rules! texts {
    ($out:ident, $p:ident, $($a:ty),*) => {
        $(row!($out, $p, $a, String, Option<u8>, ER, Option<String>);)*
    };
}

pub fn cases() -> Vec<Case> {
    let mut out = Vec::new();
    elems!(
        out, EE, String, u8, Option<String>, Option<u8>, Vec<u8>, Vec<String>, EL, Option<EL>, SL,
        Option<SL>, Vec<SL>, Box<SL>, Option<Box<TL>>, FL, Option<FL>, Vec<FL>, XL, Option<XL>
    );
    elems!(out, AE, String, Option<u8>, EL);
    texts!(out, EA, String, Option<u8>, Vec<u8>, SL, Vec<SL>, FL, XL);
    texts!(out, AA, String, Option<u8>, EL, Option<String>);
    texts!(out, ED, String, Option<u8>, Vec<u8>, SL, Vec<SL>, FL, XL, Option<SL>);
    texts!(out, AD, String, Option<u8>, EL, Option<String>);
    out
}
