//! Generics, lifetimes, names that could clash with generated code, custom functions.

#![allow(non_camel_case_types, dead_code)]

use instant_xml::{Deserializer, Error, FromXml, Serializer, ToXml};
use mcore::case;
use mcore::model::{Case, Model as _};
use model_derive::Model;
use std::borrow::Cow;
use std::fmt;

use opts_a as family;
use opts_a::{back, Kid};

mod generics {
    use super::*;

    #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
    pub struct One<T> {
        pub v: T,
    }

    #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
    #[xml(ns("urn:g"))]
    pub struct Bounded<T: Clone + fmt::Debug> {
        #[xml(attribute)]
        pub a: Option<u8>,
        pub v: Vec<T>,
    }

    #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
    pub struct Where<T>
    where
        T: Clone + PartialEq,
    {
        pub v: Option<T>,
    }

    #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
    pub struct Default_<T = u8, U = String> {
        pub v: T,
        #[xml(attribute)]
        pub w: U,
    }

    #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
    pub struct Three<A, B, C> {
        #[xml(attribute)]
        pub a: A,
        pub b: B,
        #[xml(direct)]
        pub c: C,
    }

    #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
    pub struct Own<T> {
        pub w: T,
    }

    #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
    pub struct Tup<T>(pub T);

    #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
    #[xml(transparent)]
    pub struct Inl<T> {
        pub v: T,
    }

    #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
    #[xml(forward)]
    pub enum Fwd<T> {
        A(Own<T>),
        B(Kid),
    }

    #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
    pub struct Nest<T> {
        pub one: Option<Box<One<T>>>,
        pub list: Vec<Tup<Kid>>,
        pub inl: Inl<Option<T>>,
        pub fwd: Vec<Fwd<T>>,
    }

    /// Every kind of type with bounds on its parameters, where they stand and in a where clause
    macro_rules! bounded {
        ($m:ident, [$($param:tt)*], [$($clause:tt)*]) => {
            pub mod $m {
                use super::*;

                #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
                #[xml(transparent)]
                pub struct Inl<$($param)*> $($clause)* {
                    pub v: T,
                }

                #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
                #[xml(forward)]
                pub enum Fwd<$($param)*> $($clause)* {
                    A(Own<T>),
                    B(Kid),
                }

                #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
                #[xml(forward)]
                pub enum Alone<$($param)*> $($clause)* {
                    A(Own<T>),
                }

                #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
                pub struct Direct<$($param)*> $($clause)* {
                    #[xml(attribute)]
                    pub a: u8,
                    #[xml(direct)]
                    pub c: T,
                }

                #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
                #[xml(ns("urn:g", p = "urn:h"), rename_all = "UPPERCASE")]
                pub struct Holds<$($param)*> $($clause)* {
                    #[xml(attribute)]
                    pub a: Option<T>,
                    #[xml(ns("urn:h"))]
                    pub v: Vec<T>,
                }

                #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
                pub struct All<$($param)*> $($clause)* {
                    pub inl: Option<Inl<T>>,
                    pub fwd: Vec<Fwd<T>>,
                    pub direct: Option<Direct<T>>,
                }
            }
        };
    }

    bounded!(at_param, [T: Clone + fmt::Debug + PartialEq], []);
    bounded!(in_where, [T], [where T: Clone + fmt::Debug + PartialEq]);
    bounded!(both, [T: Clone], [where T: fmt::Debug, Option<T>: PartialEq,]);
    bounded!(of_other, [T], [where Vec<T>: Clone, T: Send + 'static]);
    bounded!(with_default, [T: Clone = String], [where T: fmt::Debug]);

    /// A forward enum whose variants demand what only its own clause promises
    #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
    pub struct Strict<T: Copy> {
        pub w: T,
    }

    #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
    #[xml(forward)]
    pub enum FwdStrict<T>
    where
        T: Copy,
    {
        A(Strict<T>),
        B(Kid),
    }

    #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
    #[xml(transparent)]
    pub struct InlStrict<T>
    where
        T: Copy,
    {
        pub s: StrictTup<T>,
    }

    #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
    pub struct StrictTup<T: Copy>(pub T);

    #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
    pub struct UseStrict<T>
    where
        T: Copy,
    {
        pub fwd: Vec<FwdStrict<T>>,
        pub own: Option<Own<T>>,
        pub inl: InlStrict<T>,
    }

    pub fn cases() -> Vec<Case> {
        vec![
            case!(FwdStrict<u8>),
            case!(UseStrict<u8>),
            case!(UseStrict<bool>),
            case!(at_param::All<u8>),
            case!(in_where::All<String>),
            case!(both::All<u8>),
            case!(of_other::All<String>),
            case!(with_default::All<bool>),
            case!(at_param::Holds<u8>),
            case!(in_where::Holds<u8>),
            case!(both::Holds<String>),
            case!(of_other::Holds<bool>),
            case!(with_default::Holds),
            case!(in_where::Fwd<u8>),
            case!(in_where::Alone<u8>),
            case!(both::Alone<String>),
            case!(in_where::Direct<String>),
            case!(One<u8>),
            case!(One<Option<String>>),
            case!(One<One<One<u8>>>),
            case!(One<Vec<One<u8>>>),
            case!(One<Box<Kid>>),
            case!(Bounded<u8>),
            case!(Bounded<Kid>),
            case!(Where<String>),
            case!(Where<Kid>),
            case!(Default_),
            case!(Default_<bool>),
            case!(Default_<Kid, u8>),
            case!(Three<u8, String, Option<u8>>),
            case!(Three<Option<String>, Kid, String>),
            case!(Tup<Kid>),
            case!(Tup<One<u8>>),
            case!(One<Inl<u8>>),
            case!(Fwd<u8>),
            case!(Nest<u8>),
            case!(Nest<String>),
        ]
    }
}

mod lifetimes {
    use super::*;

    #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
    pub struct Cows<'a> {
        #[xml(attribute, borrow)]
        pub at: Cow<'a, str>,
        #[xml(borrow)]
        pub el: Cow<'a, str>,
        pub owned: Cow<'static, str>,
    }

    #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
    pub struct Inner<'a> {
        #[xml(borrow)]
        pub el: Cow<'a, str>,
    }

    #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
    pub struct Two<'a, 'b> {
        #[xml(borrow)]
        pub x: Cow<'a, str>,
        #[xml(borrow)]
        pub y: Cow<'b, str>,
    }

    #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
    pub struct Holds<'a> {
        #[xml(borrow)]
        pub one: Inner<'a>,
        #[xml(borrow)]
        pub opt: Option<Cows<'a>>,
        #[xml(borrow)]
        pub list: Vec<Item<'a>>,
    }

    #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
    pub struct Item<'a> {
        #[xml(attribute, borrow)]
        pub at: Cow<'a, str>,
    }

    #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
    pub struct Mix<'a, T> {
        #[xml(borrow)]
        pub el: Cow<'a, str>,
        pub v: Vec<T>,
    }

    #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
    pub struct Bound<'a: 'b, 'b, T: Clone>
    where
        T: fmt::Debug,
    {
        #[xml(attribute, rename = "A", borrow)]
        pub at: Cow<'b, str>,
        #[xml(borrow, rename = "E")]
        pub el: Cow<'a, str>,
        pub v: Option<T>,
    }

    pub fn cases() -> Vec<Case> {
        vec![
            case!(Cows<'_>),
            case!(Inner<'_>),
            case!(Two<'_, '_>),
            case!(Holds<'_>),
            case!(Mix<'_, u8>),
            case!(Mix<'_, Kid>),
            case!(Bound<'_, '_, String>),
        ]
    }
}

/// Field, type and variant names that generated code may use itself
mod names {
    use super::*;

    macro_rules! named {
        ($($t:ident { $($f:ident),* })*) => {
            $(
                #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
                pub struct $t {
                    $(pub $f: Option<u8>,)*
                }
            )*
            pub fn elems() -> Vec<Case> {
                vec![$(case!($t)),*]
            }
        };
    }

    named! {
        N1 { value, deserializer, serializer, field, id, node, into, data, attr, element, new }
        N2 { this, input, xml, cx, result, out, name, ns, prefix, key, val }
        N3 { value0, value1, v0, v1, __value0, __value1, start, end, tag, text, child }
        N4 { nested, next, ignore, matches, deserialize, serialize, kind, accumulator, try_done, default, error }
        N5 { r#type, r#fn, r#match, r#use, r#mod, r#struct, r#impl, r#loop, r#ref, r#dyn, r#move }
        N6 { known, acc, inner, item, items, level, state, ctx, context, current, found }
        N7 { ok, err, some, none, string, option, vec, std, core, instant_xml, alloc }
    }

    macro_rules! attrs {
        ($($t:ident { $($f:ident),* })*) => {
            $(
                #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
                pub struct $t {
                    $(#[xml(attribute)] pub $f: Option<u8>,)*
                    #[xml(direct)]
                    pub value: Option<u8>,
                }
            )*
            pub fn attrs() -> Vec<Case> {
                vec![$(case!($t)),*]
            }
        };
    }

    attrs! {
        M1 { deserializer, serializer, field, id, node, into, data, attr, element, new }
        M2 { this, input, xml, cx, result, out, name, ns, prefix, key, val }
        M3 { value0, value1, v0, v1, __value0, __value1, start, end, tag, text, child }
        M4 { nested, next, ignore, matches, deserialize, serialize, kind, accumulator, try_done, default, error }
        M5 { r#type, r#fn, r#match, r#use, r#mod, r#struct, r#impl, r#loop, r#ref, r#dyn, r#move }
    }

    #[derive(Clone, Copy, Debug, PartialEq, FromXml, ToXml, Model)]
    #[xml(scalar)]
    pub enum Variants {
        Some,
        None,
        Ok,
        Err,
        Self_,
        Attribute,
        Element,
        Scalar,
        Value,
        String,
    }

    #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
    #[xml(forward)]
    pub enum Forward {
        Some(Kid),
        None(family::Other),
        Ok(family::Third),
    }

    #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
    pub struct Uses {
        #[xml(attribute)]
        pub at: Option<Variants>,
        pub v: Vec<Variants>,
        pub f: Vec<Forward>,
    }

    /// With a shadowed `Result`, `Option`-like alias names and constants around
    pub mod shadow {
        use super::*;

        pub type Result<T> = std::result::Result<T, String>;
        pub const NAME: u8 = 1;
        pub const KIND: u8 = 2;
        pub const ID: u8 = 3;

        #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
        #[xml(ns("urn:s", s = "urn:s"))]
        pub struct Plain {
            #[xml(attribute)]
            pub a: u8,
            pub b: Option<String>,
            pub k: Vec<Kid>,
        }

        #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
        #[xml(transparent)]
        pub struct Inl {
            pub b: Option<String>,
            pub k: Vec<Kid>,
        }

        #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
        pub struct HoldsInl {
            pub i: Inl,
            pub e: Option<En>,
            pub f: Option<Fw>,
            pub t: Option<Tu>,
            pub u: Option<Un>,
        }

        #[derive(Clone, Copy, Debug, PartialEq, FromXml, ToXml, Model)]
        #[xml(scalar)]
        pub enum En {
            A,
            B,
        }

        #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
        #[xml(forward)]
        pub enum Fw {
            P(Plain),
        }

        #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
        pub struct Tu(pub Plain);

        #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
        pub struct Un;
    }

    macro_rules! in_macro {
        ($name:ident, $field:ident, $ty:ty, $ns:tt, $rename:tt) => {
            #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
            #[xml(ns($ns, p = $ns))]
            pub struct $name {
                #[xml(rename = $rename)]
                pub $field: $ty,
                pub own: Option<$ty>,
            }
        };
    }

    /// Paths that mean something else with and without the leading `::`
    pub mod absolute {
        use super::super::*;

        mod mcore {
            pub mod model {
                pub const FAR: &str = "urn:near";
            }
        }

        pub const FAR: &str = "urn:here";

        macro_rules! paths {
            ($($t:ident: [$($ns:tt)*] [$($prefix:tt)*] [$($field:tt)*])*) => {
                $(
                    #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
                    #[xml(ns($($ns)*, a = $($prefix)*, b = "urn:b", c = $($ns)*, d = $($prefix)*))]
                    pub struct $t {
                        pub plain: u8,
                        #[xml(ns($($field)*))]
                        pub other: Option<u8>,
                        #[xml(ns($($prefix)*))]
                        pub third: Vec<u8>,
                    }
                )*
                pub fn cases() -> Vec<Case> {
                    vec![$(case!($t)),*]
                }
            };
        }

        paths! {
            P0: [::mcore::model::FAR] [mcore::model::FAR] [FAR]
            P1: [mcore::model::FAR] [::mcore::model::FAR] [FAR]
            P2: [FAR] [mcore::model::FAR] [::mcore::model::FAR]
            P3: [FAR] [::mcore::model::FAR] [mcore::model::FAR]
            P4: [::mcore::model::FAR] [FAR] [mcore::model::FAR]
            P5: [mcore::model::FAR] [self::FAR] [::mcore::model::FAR]
            P6: [self::mcore::model::FAR] [::mcore::model::FAR] [self::FAR]
            P7: [crate::hand::names::absolute::FAR] [self::mcore::model::FAR] [::mcore::model::FAR]
        }
    }

    in_macro!(Made, some_field, u8, "urn:made", "made-field");

    pub(crate) mod vis {
        use super::*;
        #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
        pub(crate) struct Part {
            pub(in super::super) a: u8,
            b: Option<u8>,
        }
    }

    pub fn cases() -> Vec<Case> {
        let mut out = elems();
        out.extend(attrs());
        out.extend(absolute::cases());
        out.extend([
            case!(Uses),
            case!(shadow::Plain),
            case!(shadow::HoldsInl),
            case!(shadow::Tu),
            case!(shadow::Fw),
            case!(Made),
            case!(vis::Part),
        ]);
        out
    }

    pub fn local() -> Case {
        #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
        #[xml(rename_all = "camelCase")]
        struct Local {
            foo_bar: u8,
            #[xml(attribute)]
            at_tr: Option<u8>,
        }
        case!(Local)
    }
}

/// Manual implementations through the helper macros of the crate
mod manual {
    use super::*;
    use instant_xml::{Id, Kind};
    use std::str::FromStr;

    #[derive(Clone, Debug, PartialEq)]
    pub struct Pair(pub u8, pub u8);

    impl fmt::Display for Pair {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{}<{}", self.0, self.1)
        }
    }

    impl FromStr for Pair {
        type Err = String;
        fn from_str(s: &str) -> Result<Self, String> {
            let (a, b) = s.split_once('<').ok_or("no <")?;
            let n = |s: &str| s.parse::<u8>().map_err(|e| e.to_string());
            Ok(Pair(n(a)?, n(b)?))
        }
    }

    impl<'xml> FromXml<'xml> for Pair {
        fn matches(id: Id<'_>, field: Option<Id<'_>>) -> bool {
            field.is_some_and(|f| f == id)
        }

        fn deserialize<'cx>(
            into: &mut Self::Accumulator,
            field: &'static str,
            deserializer: &mut Deserializer<'cx, 'xml>,
        ) -> Result<(), Error> {
            instant_xml::from_xml_str(into, field, deserializer)
        }

        type Accumulator = Option<Self>;
        const KIND: Kind = Kind::Scalar;
    }

    impl ToXml for Pair {
        fn serialize<W: fmt::Write + ?Sized>(
            &self,
            field: Option<Id<'_>>,
            serializer: &mut Serializer<'_, W>,
        ) -> Result<(), Error> {
            instant_xml::display_to_xml(self, field, serializer)
        }
    }

    #[derive(Clone, Debug, PartialEq, FromXml, ToXml)]
    #[xml(rename = "s", ns("urn:m"))]
    pub struct S {
        #[xml(attribute)]
        pub a: Pair,
        #[xml(attribute)]
        pub o: Option<Pair>,
        pub e: Pair,
        pub l: Vec<Pair>,
    }

    #[derive(Clone, Debug, PartialEq, FromXml, ToXml)]
    pub struct D {
        #[xml(direct)]
        pub d: Pair,
    }
}

pub mod custom {
    use super::*;

    pub fn text<W: fmt::Write + ?Sized>(v: &u8, s: &mut Serializer<'_, W>) -> Result<(), Error> {
        s.write_str(&format_args!("hex {v:02x}"))
    }

    pub fn yes<'xml>(
        acc: &mut <bool as FromXml<'xml>>::Accumulator,
        field: &'static str,
        d: &mut Deserializer<'_, 'xml>,
    ) -> Result<(), Error> {
        if acc.is_some() {
            return Err(Error::DuplicateValue(field));
        }
        let Some(s) = d.take_str()? else { return Ok(()) };
        *acc = Some(match s.as_ref() {
            "yes" => true,
            "no" => false,
            other => return Err(Error::UnexpectedValue(other.to_owned())),
        });
        d.ignore()
    }

    pub fn list<'xml>(
        acc: &mut <Vec<u8> as FromXml<'xml>>::Accumulator,
        field: &'static str,
        d: &mut Deserializer<'_, 'xml>,
    ) -> Result<(), Error> {
        let Some(s) = d.take_str()? else { return Ok(()) };
        for part in s.split(',') {
            acc.push(part.parse().map_err(|_| Error::UnexpectedValue(field.to_owned()))?);
        }
        d.ignore()
    }
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml)]
pub struct Ser {
    #[xml(attribute)]
    pub a: u8,
    #[xml(serialize_with = "custom::text")]
    pub b: u8,
    pub c: u8,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml)]
#[xml(rename_all = "camelCase", ns("urn:w", w = "urn:w"))]
pub struct De {
    #[xml(deserialize_with = "custom::yes")]
    pub the_first: bool,
    #[xml(attribute, deserialize_with = "crate::hand::custom::yes", rename = "at-t")]
    pub second: bool,
    #[xml(rename = "l", deserialize_with = "custom::list")]
    pub list: Vec<u8>,
    pub plain: Option<u8>,
    #[xml(ns("urn:other"), deserialize_with = "self::custom::yes")]
    pub other_ns: bool,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml)]
pub struct DeCow<'a> {
    #[xml(deserialize_with = "instant_xml::de::borrow_cow_str", borrow)]
    pub a: Cow<'a, str>,
    pub b: u8,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml)]
pub struct SerAttr {
    #[xml(attribute, serialize_with = "custom::text")]
    pub b: u8,
}

pub fn cases() -> Vec<Case> {
    let mut out = generics::cases();
    out.extend(lifetimes::cases());
    out.extend(names::cases());
    out.push(names::local());
    out
}

fn expect<T: PartialEq + fmt::Debug>(doc: &str, got: Result<T, Error>, want: Option<T>) -> Result<(), String> {
    match (got, want) {
        (Ok(v), Some(w)) if v == w => Ok(()),
        (Err(_), None) => Ok(()),
        (got, want) => Err(format!("{doc} gives {got:?} instead of {want:?}")),
    }
}

fn output<T: ToXml>(v: &T, want: &str) -> Result<(), String> {
    match instant_xml::to_string(v) {
        Ok(s) if s == want => Ok(()),
        other => Err(format!("{other:?} instead of {want}")),
    }
}

fn manuals() -> Result<(), String> {
    use manual::*;
    for a in [0, 7, 255] {
        for o in [None, Some(Pair(1, a))] {
            for n in 0..3 {
                let v = S { a: Pair(a, 2), o: o.clone(), e: Pair(3, a), l: (0..n).map(|i| Pair(i, a)).collect() };
                back(&v)?;
            }
        }
        let v = D { d: Pair(a, a) };
        output(&v, &format!("<D>{a}&lt;{a}</D>"))?;
        back(&v)?;
    }
    let v = S { a: Pair(1, 2), o: None, e: Pair(3, 4), l: vec![] };
    output(&v, "<s xmlns=\"urn:m\" a=\"1&lt;2\"><e>3&lt;4</e></s>")?;
    let doc = "<s xmlns='urn:m' a='1 &lt; 2'><e>3&lt;4</e></s>";
    expect(doc, instant_xml::from_str::<S>(doc), None)?;
    let doc = "<s xmlns='urn:m' a='1&lt;2'><e>3</e></s>";
    expect(doc, instant_xml::from_str::<S>(doc), None)?;
    let doc = "<s xmlns='urn:m' a='1&lt;2'><e>3&lt;4</e><l>0&lt;0</l><l>1&lt;300</l></s>";
    expect(doc, instant_xml::from_str::<S>(doc), None)
}

fn functions() -> Result<(), String> {
    output(&Ser { a: 1, b: 254, c: 2 }, "<Ser a=\"1\">hex fe<c>2</c></Ser>")?;
    let top = "xmlns='urn:w' xmlns:o='urn:other'";
    let make = |f: bool, s: bool, list: &[u8], plain, o| De {
        the_first: f,
        second: s,
        list: list.to_vec(),
        plain,
        other_ns: o,
    };
    for (f, fv) in [("yes", Some(true)), ("no", Some(false)), ("true", None), ("", None)] {
        for (s, sv) in [("yes", Some(true)), ("no", Some(false)), ("1", None), ("yes ", None)] {
            for (l, lv) in [
                ("", Some(&[][..])),
                ("<l>1</l>", Some(&[1][..])),
                ("<l>1,2</l><l>3</l>", Some(&[1, 2, 3][..])),
                ("<l>1,x</l>", None),
                ("<l></l>", Some(&[][..])),
            ] {
                for (o, ov) in [
                    ("<o:otherNs>yes</o:otherNs>", Some(true)),
                    ("<otherNs>yes</otherNs>", None),
                    ("", None),
                    ("<o:otherNs>no</o:otherNs><o:otherNs>no</o:otherNs>", None),
                ] {
                    for order in [false, true] {
                        let first = format!("<theFirst>{f}</theFirst>");
                        let plain = "<plain>5</plain>";
                        let doc = match order {
                            false => format!("<De {top} at-t='{s}'>{first}{l}{plain}{o}</De>"),
                            true => format!("<De {top} at-t='{s}'>{o}{l}{plain}{first}</De>"),
                        };
                        let want = match (fv, sv, lv, ov) {
                            (Some(f), Some(s), Some(l), Some(o)) => Some(make(f, s, l, Some(5), o)),
                            _ => None,
                        };
                        expect(&doc, instant_xml::from_str::<De>(&doc), want)?;
                    }
                }
            }
        }
    }
    for doc in ["<DeCow><a>x</a><b>1</b></DeCow>", "<DeCow><b>1</b><a>x</a></DeCow>"] {
        let got = instant_xml::from_str::<DeCow<'_>>(doc);
        if let Ok(v) = &got {
            if !matches!(v.a, Cow::Borrowed(_)) {
                return Err(format!("{doc} is not borrowed from"));
            }
        }
        expect(doc, got, Some(DeCow { a: "x".into(), b: 1 }))?;
    }
    Ok(())
}

pub fn odd() -> Vec<(&'static str, fn() -> Result<(), String>)> {
    vec![
        ("from_xml_str and display_to_xml", manuals),
        ("serialize_with and deserialize_with", functions),
    ]
}

/// What an attribute with `serialize_with` is written as
pub fn attribute_with() -> String {
    format!("{:?}", instant_xml::to_string(&SerAttr { b: 254 }))
}

#[allow(dead_code)]
fn unused() {
    let _ = Kid::ty;
}
