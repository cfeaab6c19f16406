//! Types whose elements differ in namespace only.

use instant_xml::{FromXml, ToXml};
use model_derive::Model;

pub const A: &str = "urn:a";
pub const B: &str = "urn:b";

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(rename = "e", ns("", p = "urn:a", q = "urn:b"))]
pub struct InNone {
    #[xml(attribute)]
    x: Option<String>,
    #[xml(attribute, ns(A), rename = "x")]
    xa: Option<String>,
    #[xml(attribute, ns(B), rename = "x")]
    xb: Option<String>,
    kids: Vec<Any3>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(rename = "e", ns("urn:a", p = "urn:a", q = "urn:b"))]
pub struct InA {
    #[xml(attribute)]
    x: Option<String>,
    #[xml(attribute, ns(A), rename = "x")]
    xa: Option<String>,
    #[xml(attribute, ns(B), rename = "x")]
    xb: Option<String>,
    kids: Vec<Any3>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(rename = "e", ns("urn:b", p = "urn:a", q = "urn:b"))]
pub struct InB {
    #[xml(attribute)]
    x: Option<String>,
    #[xml(attribute, ns(A), rename = "x")]
    xa: Option<String>,
    #[xml(attribute, ns(B), rename = "x")]
    xb: Option<String>,
    kids: Vec<Any3>,
}

/// The namespace decides the variant
#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(forward)]
pub enum Any3 {
    None(InNone),
    A(InA),
    B(InB),
}

#[derive(Clone, Copy, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(scalar, ns("urn:b"))]
pub enum Which {
    Y,
    #[xml(rename = "n")]
    N,
}

/// The namespace decides the field; `only` matches its namespace alone
macro_rules! fields {
    ($name:ident, $($ns:tt)*) => {
        #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
        #[xml(rename = "r", $($ns)*)]
        pub struct $name {
            #[xml(rename = "e")]
            own: Option<String>,
            #[xml(rename = "e", ns("urn:f"))]
            far: Option<String>,
            #[xml(rename = "f", ns(A))]
            fa: Option<String>,
            #[xml(rename = "f", ns(B))]
            fb: Vec<String>,
            #[xml(rename = "g")]
            w: Option<Which>,
            #[xml(rename = "h", ns(""))]
            h: Option<String>,
        }
    };
}

fields!(FieldsNone, ns(p = "urn:a"));
fields!(FieldsA, ns("urn:a", p = "urn:b"));
fields!(FieldsB, ns("urn:b"));
