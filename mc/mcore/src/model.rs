//! Descriptions of types (`Ty`) and values (`Val`) that the oracles work on.
//!
//! `Ty` is produced by the independent derive in `model-derive`, which reads the same
//! `#[xml(...)]` attributes as the library's derives but shares no code with them.

use std::borrow::Cow;
use std::collections::HashMap;
use std::net::IpAddr;
use std::sync::{Mutex, OnceLock};

use chrono::{DateTime, NaiveDate, NaiveDateTime, Utc};
use instant_xml::{AnyElement, Error};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
    /// Any scalar, in canonical text form
    S(String),
    None,
    Some(Box<Val>),
    List(Vec<Val>),
    /// Fields of a struct, tuple struct, unit struct or transparent struct
    Rec(Vec<Val>),
    /// Variant of a forward enum
    Var(usize, Box<Val>),
    /// Variant of a scalar enum
    Enum(usize),
    Any(Box<AnyVal>),
    Unit,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct AnyVal {
    pub ns: String,
    pub name: String,
    pub attrs: Vec<(String, String, String)>,
    pub text: Option<String>,
    pub kids: Vec<AnyVal>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Sc {
    Str,
    Bool,
    Char,
    I8,
    I16,
    I32,
    I64,
    Isize,
    U8,
    U16,
    U32,
    U64,
    Usize,
    F32,
    F64,
    Ip,
    DateTime,
    NaiveDateTime,
    NaiveDate,
}

pub type Lazy<T> = OnceLock<T>;

pub struct Link {
    f: fn() -> &'static Ty,
    c: OnceLock<&'static Ty>,
}

impl Link {
    pub const fn new(f: fn() -> &'static Ty) -> Self {
        Self { f, c: OnceLock::new() }
    }

    pub fn get(&self) -> &'static Ty {
        self.c.get_or_init(self.f)
    }
}

pub enum Ty {
    Scalar(Sc),
    Unit,
    Enum(EnumTy),
    Struct(StructTy),
    Tuple(TupleTy),
    UnitStruct(Tag),
    Forward(ForwardTy),
    Transparent(TransparentTy),
    Option(Link),
    Vec(Link),
    Box(Link),
    Any,
}

pub struct Tag {
    pub rust: &'static str,
    pub ns: &'static str,
    pub name: &'static str,
    /// Declared prefixes, as (prefix, namespace), in declaration-independent (sorted) order
    pub prefixes: Vec<(&'static str, &'static str)>,
    pub force_prefix: bool,
}

pub struct EnumTy {
    pub rust: &'static str,
    pub ns: &'static str,
    pub variants: Vec<String>,
}

pub struct StructTy {
    pub tag: Tag,
    pub fields: Vec<Field>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pos {
    Attr,
    Elem,
    Direct,
}

pub struct Field {
    pub rust: &'static str,
    pub pos: Pos,
    pub ns: &'static str,
    pub name: String,
    pub ty: Link,
}

pub struct TupleTy {
    pub tag: Tag,
    pub fields: Vec<Link>,
}

pub struct ForwardTy {
    pub rust: &'static str,
    pub variants: Vec<Link>,
}

pub struct TransparentTy {
    pub rust: &'static str,
    pub fields: Vec<Field>,
}

pub trait Model: Sized {
    fn ty() -> &'static Ty;
    fn to_val(&self) -> Val;
    fn from_val(val: &Val) -> Self;
}

static REGISTRY: Mutex<Option<HashMap<&'static str, &'static Ty>>> = Mutex::new(None);

/// One leaked `Ty` per type name (statics inside generic functions would be shared)
pub fn intern(name: &'static str, make: impl FnOnce() -> Ty) -> &'static Ty {
    if let Some(ty) = REGISTRY.lock().unwrap().get_or_insert_with(HashMap::new).get(name) {
        return ty;
    }
    let ty: &'static Ty = Box::leak(Box::new(make()));
    REGISTRY.lock().unwrap().as_mut().unwrap().entry(name).or_insert(ty)
}

macro_rules! scalar {
    ($t:ty, $sc:expr) => {
        impl Model for $t {
            fn ty() -> &'static Ty {
                static T: Ty = Ty::Scalar($sc);
                &T
            }
            fn to_val(&self) -> Val {
                Val::S(self.to_string())
            }
            fn from_val(val: &Val) -> Self {
                match val {
                    Val::S(s) => s.parse().unwrap(),
                    _ => panic!("bad val"),
                }
            }
        }
    };
}

scalar!(String, Sc::Str);
scalar!(bool, Sc::Bool);
scalar!(char, Sc::Char);
scalar!(i8, Sc::I8);
scalar!(i16, Sc::I16);
scalar!(i32, Sc::I32);
scalar!(i64, Sc::I64);
scalar!(isize, Sc::Isize);
scalar!(u8, Sc::U8);
scalar!(u16, Sc::U16);
scalar!(u32, Sc::U32);
scalar!(u64, Sc::U64);
scalar!(usize, Sc::Usize);
scalar!(f32, Sc::F32);
scalar!(f64, Sc::F64);
scalar!(IpAddr, Sc::Ip);

macro_rules! dated {
    ($t:ty, $sc:expr, $to:expr, $from:expr) => {
        impl Model for $t {
            fn ty() -> &'static Ty {
                static T: Ty = Ty::Scalar($sc);
                &T
            }
            fn to_val(&self) -> Val {
                let to: fn(&$t) -> String = $to;
                Val::S(to(self))
            }
            fn from_val(val: &Val) -> Self {
                let from: fn(&str) -> $t = $from;
                match val {
                    Val::S(s) => from(s),
                    _ => panic!("bad val"),
                }
            }
        }
    };
}

dated!(DateTime<Utc>, Sc::DateTime, |d| d.to_rfc3339(), |s| s.parse().unwrap());
dated!(
    NaiveDateTime,
    Sc::NaiveDateTime,
    |d| format!("{d:?}"),
    |s| s.parse().unwrap()
);
dated!(NaiveDate, Sc::NaiveDate, |d| format!("{d:?}"), |s| s.parse().unwrap());

impl Model for Cow<'_, str> {
    fn ty() -> &'static Ty {
        String::ty()
    }
    fn to_val(&self) -> Val {
        Val::S(self.to_string())
    }
    fn from_val(val: &Val) -> Self {
        match val {
            Val::S(s) => Cow::Owned(s.clone()),
            _ => panic!("bad val"),
        }
    }
}

impl Model for () {
    fn ty() -> &'static Ty {
        static T: Ty = Ty::Unit;
        &T
    }
    fn to_val(&self) -> Val {
        Val::Unit
    }
    fn from_val(_: &Val) -> Self {}
}

impl<T: Model> Model for Option<T> {
    fn ty() -> &'static Ty {
        intern(std::any::type_name::<Self>(), || Ty::Option(Link::new(T::ty)))
    }
    fn to_val(&self) -> Val {
        match self {
            None => Val::None,
            Some(v) => Val::Some(Box::new(v.to_val())),
        }
    }
    fn from_val(val: &Val) -> Self {
        match val {
            Val::None => None,
            Val::Some(v) => Some(T::from_val(v)),
            _ => panic!("bad val"),
        }
    }
}

impl<T: Model> Model for Vec<T> {
    fn ty() -> &'static Ty {
        intern(std::any::type_name::<Self>(), || Ty::Vec(Link::new(T::ty)))
    }
    fn to_val(&self) -> Val {
        Val::List(self.iter().map(T::to_val).collect())
    }
    fn from_val(val: &Val) -> Self {
        match val {
            Val::List(vs) => vs.iter().map(T::from_val).collect(),
            _ => panic!("bad val"),
        }
    }
}

impl<T: Model + Clone> Model for Cow<'_, [T]> {
    fn ty() -> &'static Ty {
        Vec::<T>::ty()
    }
    fn to_val(&self) -> Val {
        Val::List(self.iter().map(T::to_val).collect())
    }
    fn from_val(val: &Val) -> Self {
        Cow::Owned(Vec::from_val(val))
    }
}

impl<T: Model> Model for Box<T> {
    fn ty() -> &'static Ty {
        intern(std::any::type_name::<Self>(), || Ty::Box(Link::new(T::ty)))
    }
    fn to_val(&self) -> Val {
        (**self).to_val()
    }
    fn from_val(val: &Val) -> Self {
        Box::new(T::from_val(val))
    }
}

impl Model for AnyElement<'_> {
    fn ty() -> &'static Ty {
        static T: Ty = Ty::Any;
        &T
    }
    fn to_val(&self) -> Val {
        fn conv(e: &AnyElement<'_>) -> AnyVal {
            AnyVal {
                ns: e.ns.to_string(),
                name: e.name.to_string(),
                attrs: e
                    .attributes
                    .iter()
                    .map(|a| (a.ns.to_string(), a.name.to_string(), a.value.to_string()))
                    .collect(),
                text: e.text.as_ref().map(|t| t.to_string()),
                kids: e.children.iter().map(conv).collect(),
            }
        }
        Val::Any(Box::new(conv(self)))
    }
    fn from_val(_: &Val) -> Self {
        panic!("captured elements cannot be built from values")
    }
}

impl Ty {
    /// Namespace, name of the element for types that carry their own
    pub fn tag(&self) -> Option<&Tag> {
        match self {
            Ty::Struct(s) => Some(&s.tag),
            Ty::Tuple(t) => Some(&t.tag),
            Ty::UnitStruct(t) => Some(t),
            _ => None,
        }
    }

    pub fn is_scalar(&self) -> bool {
        match self {
            Ty::Scalar(_) | Ty::Enum(_) | Ty::Unit => true,
            Ty::Option(t) | Ty::Vec(t) | Ty::Box(t) => t.get().is_scalar(),
            _ => false,
        }
    }
}

/// A type under test, behind plain functions so that the engines need no generics
#[derive(Clone, Copy)]
pub struct Case {
    pub name: &'static str,
    pub ty: fn() -> &'static Ty,
    pub de: fn(&str) -> Result<Val, Error>,
    pub ser: fn(&Val, &mut dyn std::fmt::Write) -> Result<(), Error>,
    pub to_string: fn(&Val) -> Result<String, Error>,
}

/// A type that can only be deserialized
#[macro_export]
macro_rules! de_case {
    ($t:ty) => {
        $crate::model::Case {
            name: stringify!($t),
            ty: <$t as $crate::model::Model>::ty,
            de: |s| instant_xml::from_str::<$t>(s).map(|v| $crate::model::Model::to_val(&v)),
            ser: |_, _| unreachable!(),
            to_string: |_| unreachable!(),
        }
    };
}

#[macro_export]
macro_rules! case {
    ($t:ty) => {
        $crate::model::Case {
            name: stringify!($t),
            ty: <$t as $crate::model::Model>::ty,
            de: |s| instant_xml::from_str::<$t>(s).map(|v| $crate::model::Model::to_val(&v)),
            ser: |v, w| {
                instant_xml::to_writer(&<$t as $crate::model::Model>::from_val(v), w)
            },
            to_string: |v| instant_xml::to_string(&<$t as $crate::model::Model>::from_val(v)),
        }
    };
}

/// A namespace to be referred to by an absolute path
pub const FAR: &str = "urn:far";
