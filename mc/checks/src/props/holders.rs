//! C01 and C02: it does not matter what a value is held by. What is written for a vector or a value
//! itself (which the other parts compare with the reference) is written for every borrowed or boxed
//! form of it, to every kind of writer.

use std::borrow::Cow;
use std::fmt;
use std::net::IpAddr;

use chrono::{DateTime, NaiveDate, NaiveDateTime, Utc};
use instant_xml::{to_string, to_writer, Error, FromXmlOwned, ToXml};
use mcore::engine::{hash, Cx, Run};
use mcore::{gen, judge};
use mcore::model::{Model, Val};

use super::common;
use crate::zoo::leaf::{EL, FL, SL, TL, UL, XL};
use crate::zoo::misc::{Cased, Empty, Mixed, Tree, A1, D1, E1, T1};
use crate::zoo::scope::Any3;

/// What is held, in places that a derive makes
#[derive(ToXml)]
#[xml(rename = "pair", ns("urn:n"))]
struct Pair<A, B> {
    first: A,
    #[xml(ns("urn:m"))]
    second: B,
}

#[derive(ToXml)]
#[xml(transparent)]
struct Through<A> {
    inner: A,
}

#[derive(ToXml)]
struct Wrap<A>(A);

/// A writer that takes one character at a time
struct Slow(String);

impl fmt::Write for Slow {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        s.chars().try_for_each(|c| self.write_char(c))
    }

    fn write_char(&mut self, c: char) -> fmt::Result {
        self.0.push(c);
        Ok(())
    }
}

fn written<T: ToXml + ?Sized>(v: &T) -> Vec<Result<String, String>> {
    fn show(e: Error) -> String {
        e.to_string()
    }
    let mut out = vec![to_string(v).map_err(show)];
    let mut s = String::new();
    out.push(to_writer(v, &mut s).map_err(show).map(|_| s));
    let mut s = Slow(String::new());
    out.push(to_writer(v, &mut s).map_err(show).map(|_| s.0));
    let mut s = String::new();
    let dynamic: &mut dyn fmt::Write = &mut s;
    out.push(to_writer(v, dynamic).map_err(show).map(|_| s));
    out
}

fn same<T: ToXml + ?Sized>(cx: &mut Cx<'_>, what: &str, want: &Result<String, String>, v: &T) {
    let got = cx.guard(what, "", || written(v));
    cx.count(hash(&(what, want, std::any::type_name::<T>())));
    cx.validated += 1;
    match want {
        Ok(_) => cx.accepted += 1,
        Err(_) => cx.rejected += 1,
    }
    cx.sample(|| format!("{what}: {want:?}"));
    match got {
        Ok(all) if all.iter().all(|g| g == want) => {}
        other => cx.violation("held", &format!("{what} of {}", std::any::type_name::<T>()), &format!("{want:?}"), &format!("{other:?}")),
    }
}

fn as_is<T: ToXml>(v: &T) -> Result<String, String> {
    to_string(v).map_err(|e| e.to_string())
}

/// One value held in every way
fn one<T: ToXml + Clone>(cx: &mut Cx<'_>, v: &T) {
    let want = as_is(v);
    same(cx, "plain", &want, v);
    same(cx, "&", &want, &v);
    same(cx, "&&", &want, &&v);
    same(cx, "Box", &want, &Box::new(v.clone()));
    same(cx, "Box &", &want, &Box::new(v));
    same(cx, "& Box Box", &want, &&Box::new(Box::new(v.clone())));
    same(cx, "Option &", &want, &Some(v));
    same(cx, "Option Box", &want, &Some(Box::new(v.clone())));
    let want = as_is(&Through { inner: v.clone() });
    same(cx, "transparent &", &want, &Through { inner: v });
    same(cx, "transparent Box &", &want, &Through { inner: Box::new(v) });
}

/// The same in the fields of containers
fn fields<T: ToXml + Clone>(cx: &mut Cx<'_>, v: &T) {
    let want = as_is(&E1 { v: v.clone() });
    same(cx, "element &", &want, &E1 { v });
    same(cx, "element &&", &want, &E1 { v: &v });
    same(cx, "element Box", &want, &E1 { v: Box::new(v.clone()) });
    same(cx, "element Option &", &want, &E1 { v: Some(v) });
    same(cx, "element & Option", &want, &E1 { v: &Some(v.clone()) });
    same(cx, "element [_; 1]", &want, &E1 { v: &[v.clone()][..] });
    same(cx, "element Vec of &", &want, &E1 { v: vec![v] });
    let want = as_is(&Pair { first: v.clone(), second: v.clone() });
    same(cx, "pair &", &want, &Pair { first: v, second: &v });
    same(cx, "pair Box", &want, &Pair { first: Box::new(v), second: Some(v) });
    same(cx, "pair of a list", &want, &Pair { first: &[v][..], second: Cow::Borrowed(&[v.clone()][..]) });
    let want = as_is(&Wrap(v.clone()));
    same(cx, "tuple &", &want, &Wrap(v));
    same(cx, "tuple Box &", &want, &Wrap(Box::new(v)));
}

/// Attributes and direct text too
fn scalar<T: ToXml + Clone>(cx: &mut Cx<'_>, v: &T) {
    fields(cx, v);
    let want = as_is(&A1 { v: v.clone() });
    same(cx, "attribute &", &want, &A1 { v });
    same(cx, "attribute Box &", &want, &A1 { v: Box::new(v) });
    same(cx, "attribute Option &", &want, &A1 { v: Some(v) });
    same(cx, "attribute & Option", &want, &A1 { v: &Some(v) });
    let want = as_is(&D1 { v: v.clone() });
    same(cx, "direct &", &want, &D1 { v });
    same(cx, "direct Box &", &want, &D1 { v: Box::new(v) });
    same(cx, "direct Option &", &want, &D1 { v: Some(v) });
    let want = as_is(&T1(v.clone()));
    same(cx, "scalar tuple &", &want, &T1(v));
}

/// All lists of the values, up to three
fn lists<T: ToXml + FromXmlOwned + Clone + PartialEq + fmt::Debug>(cx: &mut Cx<'_>, all: &[T]) {
    let none = as_is(&E1 { v: None::<T> });
    for len in 0..=3 {
        for code in 0..all.len().pow(len) {
            let mut c = code;
            let list: Vec<T> = (0..len)
                .map(|_| {
                    let v = all[c % all.len()].clone();
                    c /= all.len();
                    v
                })
                .collect();
            let slice = &list[..];
            let want = as_is(&E1 { v: list.clone() });
            if list.is_empty() {
                same(cx, "nothing", &none, &E1 { v: slice });
            }
            same(cx, "[_]", &want, &E1 { v: slice });
            same(cx, "& Vec", &want, &E1 { v: &list });
            same(cx, "Vec of &", &want, &E1 { v: list.iter().collect::<Vec<_>>() });
            same(cx, "Vec of Box", &want, &E1 { v: list.iter().map(Box::new).collect::<Vec<_>>() });
            same(cx, "Vec of Option", &want, &E1 { v: list.iter().map(Some).collect::<Vec<_>>() });
            same(cx, "Box Vec", &want, &E1 { v: Box::new(list.clone()) });
            same(cx, "Box [_]", &want, &E1 { v: list.clone().into_boxed_slice() });
            same(cx, "Option &[_]", &want, &E1 { v: Some(slice) });
            same(cx, "Cow borrowed", &want, &E1 { v: Cow::Borrowed(slice) });
            same(cx, "Cow owned", &want, &E1 { v: Cow::<[T]>::Owned(list.clone()) });
            same(cx, "& Cow", &want, &E1 { v: &Cow::Borrowed(slice) });
            let want = as_is(&Pair { first: list.clone(), second: list.clone() });
            same(cx, "two lists", &want, &Pair { first: Cow::Borrowed(slice), second: slice });
            same(cx, "the two lists", &want, &Pair { first: Cow::<[T]>::Owned(list.clone()), second: &list });
            // And back
            let back = cx.guard("back", "", || {
                let Ok(doc) = to_string(&E1 { v: Cow::Borrowed(slice) }) else { return true };
                let a = instant_xml::from_str::<E1<Vec<T>>>(&doc).ok();
                let b = instant_xml::from_str::<E1<Cow<'_, [T]>>>(&doc).ok();
                a.is_some_and(|a| a.v == list) && b.is_some_and(|b| b.v == list)
            });
            cx.transitions += 2;
            if !matches!(back, Ok(true)) {
                cx.violation("read back", &format!("{:?}", want), &format!("{list:?}"), "another value");
            }
        }
    }
}

fn some<T: Model>(n: usize) -> Vec<T> {
    let mut vals: Vec<Val> = gen::spread(gen::values(T::ty(), common::quick_rich()), n);
    vals.retain(|v| !judge::ambiguous(T::ty(), v));
    vals.iter().map(T::from_val).collect()
}

fn of_scalar<T: Model + ToXml + FromXmlOwned + Clone + PartialEq + fmt::Debug>(cx: &mut Cx<'_>, n: usize) {
    for v in &some::<T>(n * 4) {
        one(cx, v);
        scalar(cx, v);
    }
    lists(cx, &some::<T>(n));
}

fn of_element<T: Model + ToXml + FromXmlOwned + Clone + PartialEq + fmt::Debug>(cx: &mut Cx<'_>, n: usize) {
    for v in &some::<T>(n * 4) {
        one(cx, v);
        fields(cx, v);
    }
    lists(cx, &some::<T>(n));
}

pub fn all(run: &Run) {
    let n = run.pick(4, 8);
    type Work = fn(&mut Cx<'_>, usize);
    let work: Vec<Work> = vec![
        of_scalar::<String>, of_scalar::<bool>, of_scalar::<char>, of_scalar::<i8>, of_scalar::<u16>, of_scalar::<i64>, of_scalar::<f32>,
        of_scalar::<f64>, of_scalar::<IpAddr>, of_scalar::<DateTime<Utc>>, of_scalar::<NaiveDateTime>, of_scalar::<NaiveDate>, of_scalar::<EL>,
        of_scalar::<Cased>, of_scalar::<u8>, of_scalar::<i16>, of_scalar::<i32>, of_scalar::<u32>, of_scalar::<u64>, of_scalar::<usize>,
        of_scalar::<isize>, of_element::<SL>, of_element::<TL>, of_element::<UL>, of_element::<FL>, of_element::<Any3>, of_element::<Tree>,
        of_element::<Empty>, of_element::<Mixed>,
        |cx, n| {
            for v in &some::<XL>(n * 8) {
                one(cx, v);
                fields(cx, v);
            }
        },
    ];
    run.par("values held in every way", &work, |cx, f| f(cx, n));
    // Texts held in every way
    let mut texts = Vec::new();
    common::strings(&["a", "&", "<", "\"", "é", " ", "]]>"], run.pick(3, 5), &mut |s| texts.push(s.to_owned()));
    run.par("texts held in every way", &texts, |cx, t| {
        let s: &str = t;
        let want = as_is(t);
        same(cx, "str", &want, s);
        same(cx, "&str", &want, &s);
        same(cx, "Box<str>", &want, &Box::<str>::from(s));
        same(cx, "Cow borrowed", &want, &Cow::Borrowed(s));
        same(cx, "Cow owned", &want, &Cow::<str>::Owned(t.clone()));
        macro_rules! places {
            ($($make:expr),*) => {$(
                let want = as_is(&$make(t.clone()));
                same(cx, "&str", &want, &$make(s));
                same(cx, "&&str", &want, &$make(&s));
                same(cx, "&String", &want, &$make(t));
                same(cx, "Box<str>", &want, &$make(Box::<str>::from(s)));
                same(cx, "Cow borrowed", &want, &$make(Cow::Borrowed(s)));
                same(cx, "Cow owned", &want, &$make(Cow::<str>::Owned(t.clone())));
                same(cx, "& Cow", &want, &$make(&Cow::Borrowed(s)));
                same(cx, "Option<&str>", &want, &$make(Some(s)));
                same(cx, "Option<Cow>", &want, &$make(Some(Cow::Borrowed(s))));
            )*};
        }
        fn e<T>(v: T) -> E1<T> {
            E1 { v }
        }
        fn a<T>(v: T) -> A1<T> {
            A1 { v }
        }
        fn d<T>(v: T) -> D1<T> {
            D1 { v }
        }
        places!(e, a, d);
        let want = as_is(&T1(t.clone()));
        same(cx, "&str", &want, &T1(s));
        same(cx, "Cow", &want, &T1(Cow::Borrowed(s)));
        same(cx, "Box<str>", &want, &T1(Box::<str>::from(s)));
    });
}
