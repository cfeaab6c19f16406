//! Bigger and odder types.

use std::borrow::Cow;
use std::net::IpAddr;

use chrono::{DateTime, NaiveDate, NaiveDateTime, Utc};
use instant_xml::{AnyElement, FromXml, ToXml};
use mcore::model::Case;
use mcore::{case, de_case};
use model_derive::Model;

use super::hand::{Addr, Letter};
use super::leaf::*;

pub const K: &str = "urn:k";

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
pub struct E1<T> {
    pub v: T,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(ns("urn:k", k = "urn:k"), force_prefix)]
pub struct E1k<T> {
    pub v: T,
    #[xml(ns("urn:other"))]
    pub w: Option<u8>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
pub struct A1<T> {
    #[xml(attribute)]
    pub v: T,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(ns(k = K))]
pub struct A1k<T> {
    #[xml(attribute, ns(K), rename = "the.v-1")]
    pub v: T,
    #[xml(attribute)]
    pub v2: Option<u8>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
pub struct D1<T> {
    #[xml(direct)]
    pub v: T,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
pub struct T1<T>(pub T);

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(ns("urn:k", k = "urn:k"))]
pub struct T2(pub SL, pub TL);

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(rename = "three")]
pub struct T3(pub UL, pub FL, pub Box<SL>);

/// Tuples of tuples
#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(ns("urn:n", k = "urn:k"))]
pub struct T4(pub T2, pub Box<T1<String>>);

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
pub struct T5(pub T1<u8>);

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
pub struct Tree {
    #[xml(attribute)]
    pub id: u8,
    pub name: Option<String>,
    pub kids: Vec<Tree>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
pub struct Chain {
    pub before: Option<u8>,
    pub next: Option<Box<Chain>>,
    pub after: Option<u8>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
pub struct Part {
    #[xml(attribute)]
    pub at: Option<u8>,
    pub x: String,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(ns("urn:w", w = "urn:w", z = K), rename_all = "camelCase")]
pub struct Wide {
    #[xml(attribute)]
    pub some_id: u16,
    #[xml(attribute, rename = "l-ang")]
    pub lang: Option<String>,
    #[xml(attribute, ns(K))]
    pub kind: Option<EL>,
    pub first_name: String,
    #[xml(ns(K))]
    pub last_name: Option<String>,
    #[xml(rename = "item")]
    pub items: Vec<u32>,
    pub child: SL,
    pub opt_child: Option<TL>,
    pub list: Vec<Part>,
    pub mode: Option<ER>,
    pub any_of: Vec<FR>,
    #[xml(ns("urn:far"))]
    pub far: Option<bool>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(transparent)]
pub struct Outer {
    pub first: Option<String>,
    pub inner: XL,
    pub list: Vec<SR>,
    pub e: Option<ER>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
pub struct HoldsOuter {
    pub before: u8,
    pub outer: Outer,
    pub after: Option<u8>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(transparent, rename_all = "kebab-case")]
pub struct Single {
    pub only_one: u8,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
pub struct Singles {
    pub all: Vec<Single>,
    pub maybe: Option<XR>,
    pub boxed: Box<TR>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(forward)]
pub enum Both {
    L(FL),
    R(Box<FR>),
    T(T3),
    W(Tree),
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
pub struct Boths {
    pub one: Both,
    pub z: Option<u8>,
}

#[derive(Clone, Copy, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(scalar)]
pub enum Num {
    Zero = 0,
    One = 1,
    Ten = 10,
    Hex = 0x1F,
    Thousand = 1_000,
    Typed = 7isize,
    Octal = 0o17,
    Binary = 0b101,
    Zeros = 0099,
    Big = 9223372036854775806,
    #[xml(rename = "a <&> 'b'")]
    Odd,
}

#[derive(Clone, Copy, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(scalar, rename_all = "SCREAMING_SNAKE_CASE", ns("urn:enum"))]
pub enum Cased {
    A,
    Ab,
    AbC,
    #[xml(rename = "ab")]
    Low,
    #[xml(rename = " AB")]
    Space,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(ns("urn:m", e = "urn:enum", f = "urn:f"))]
pub struct NsFields {
    #[xml(ns("urn:1"))]
    pub a: String,
    #[xml(ns(K))]
    pub b: Option<u8>,
    pub c: Option<Cased>,
    #[xml(ns("urn:f"))]
    pub d: Vec<u8>,
    #[xml(ns(""))]
    pub e: Option<u8>,
    #[xml(ns("urn:1"), rename = "b")]
    pub f: Option<String>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
pub struct Cows<'a> {
    #[xml(attribute)]
    pub at: Cow<'a, str>,
    #[xml(borrow)]
    pub el: Cow<'a, str>,
    pub own: Cow<'a, str>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
pub struct Slices<'a> {
    pub nums: Cow<'a, [u8]>,
    pub items: Cow<'a, [SL]>,
}

#[derive(Clone, Debug, PartialEq, FromXml, Model)]
pub struct AnyOne<'a> {
    #[xml(attribute)]
    pub id: Option<u8>,
    #[xml(borrow)]
    pub x: AnyElement<'a>,
}

#[derive(Clone, Debug, PartialEq, FromXml, Model)]
#[xml(ns("urn:k"))]
pub struct AnyOpt<'a> {
    pub s: Option<SL>,
    #[xml(borrow)]
    pub x: Option<AnyElement<'a>>,
}

#[derive(Clone, Debug, PartialEq, FromXml, Model)]
pub struct AnyMany<'a> {
    pub s: Option<u8>,
    #[xml(borrow)]
    pub x: Vec<AnyElement<'a>>,
}

#[derive(Clone, Debug, PartialEq, FromXml, Model)]
pub struct AnyBox<'a> {
    #[xml(borrow)]
    pub x: Option<Box<AnyElement<'a>>>,
}

#[derive(Clone, Debug, PartialEq, FromXml, Model)]
#[xml(ns("urn:2"))]
pub struct Two<T>(pub T, pub T);

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
pub struct Empty {}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
pub struct AttrsOnly {
    #[xml(attribute)]
    pub a: Option<String>,
    #[xml(attribute)]
    pub b: bool,
    #[xml(attribute, rename = "xml-c")]
    pub c: Option<char>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
pub struct Mixed {
    #[xml(attribute)]
    pub a: Option<String>,
    pub kid: Option<SL>,
    #[xml(direct)]
    pub text: Option<String>,
}

macro_rules! scalars {
    ($out:ident, $w:ident: $($t:ty),*) => { $($out.push(case!($w<$t>));)* };
}

macro_rules! all_scalars {
    ($out:ident, $($w:ident),*) => {
        $(
            scalars!($out, $w: String, bool, char, i8, i16, i32, i64, isize, u8, u16, u32, u64,
                usize, f32, f64, IpAddr, DateTime<Utc>, NaiveDateTime, NaiveDate, Num, Cased);
            scalars!($out, $w: Option<String>, Option<bool>, Option<char>, Option<i64>, Option<u8>,
                Option<f64>, Option<IpAddr>, Option<DateTime<Utc>>, Option<NaiveDate>, Option<Num>);
        )*
    };
}

/// One scalar in each position
pub fn scalar_cases() -> Vec<Case> {
    let mut out = Vec::new();
    all_scalars!(out, E1, A1, D1);
    scalars!(out, E1: Vec<String>, Vec<bool>, Vec<char>, Vec<i32>, Vec<f64>, Vec<IpAddr>,
        Vec<DateTime<Utc>>, Vec<NaiveDateTime>, Vec<NaiveDate>, Vec<Num>, Vec<Cased>, Vec<u64>,
        Box<String>, Box<i32>, Option<Box<Num>>, Box<Cased>, Cow<'_, str>, Option<Cow<'_, str>>);
    scalars!(out, A1: Box<String>, Cow<'_, str>, Option<Cow<'_, str>>, Option<Box<u8>>);
    scalars!(out, D1: Box<String>, Cow<'_, str>, Box<u8>);
    scalars!(out, A1k: String, u32, Option<bool>, Num, f64, Option<IpAddr>);
    scalars!(out, E1k: String, u32, Option<bool>, Vec<Num>, Option<Cased>, f64, Vec<IpAddr>);
    scalars!(out, E1: Addr, Option<Addr>, Vec<Addr>, Box<Addr>, Letter, Vec<Letter>, Option<Letter>);
    scalars!(out, A1: Addr, Option<Addr>, Letter);
    scalars!(out, D1: Addr, Letter);
    scalars!(out, T1: Addr, Letter);
    scalars!(out, A1k: Addr);
    scalars!(out, E1k: Vec<Addr>, Letter);
    scalars!(out, T1: String, u8, bool, Num, char, f64, IpAddr, NaiveDate);
    out
}

pub fn cases() -> Vec<Case> {
    let mut out = scalar_cases();
    out.extend(struct_cases());
    out
}

pub fn struct_cases() -> Vec<Case> {
    vec![
        case!(T1<SL>),
        case!(T1<FL>),
        case!(T1<Box<TL>>),
        case!(T2),
        case!(T3),
        case!(T4),
        case!(T5),
        case!(Tree),
        case!(Chain),
        case!(Wide),
        case!(HoldsOuter),
        case!(Singles),
        case!(Both),
        case!(Boths),
        case!(NsFields),
        case!(Cows<'_>),
        case!(Slices<'_>),
        case!(Empty),
        case!(AttrsOnly),
        case!(Mixed),
        case!(SL),
        case!(TL),
        case!(UL),
        case!(FL),
        case!(Box<SL>),
    ]
}

/// Types that can only be read
pub fn any_cases() -> Vec<Case> {
    vec![
        de_case!(AnyElement<'_>),
        de_case!(AnyOne<'_>),
        de_case!(AnyOpt<'_>),
        de_case!(AnyMany<'_>),
        de_case!(AnyBox<'_>),
    ]
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(ns("urn:a&b\""))]
pub struct NsAmp;

const OWN: &str = "urn:own";

/// An attribute in the namespace that is only the default one
#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(ns(OWN))]
pub struct NsAttr {
    #[xml(attribute, ns(OWN))]
    pub a: u8,
}

#[derive(Clone, Copy, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(scalar)]
pub enum Texts {
    Plain,
    #[xml(rename = "&")]
    Amp,
    #[xml(rename = "<a/>")]
    Tag,
    #[xml(rename = "\"'>")]
    Quotes,
    #[xml(rename = "é&amp;€<![CDATA[😀]]>")]
    Odd,
    #[xml(rename = "\u{1}")]
    Control,
}
