//! Containers over every combination of own namespace, declared prefixes and `force_prefix`.

use instant_xml::{FromXml, ToXml};
use mcore::case;
use mcore::model::{Case, Val};
use model_derive::Model;

pub const A: &str = "urn:a";
pub const B: &str = "urn:b";
pub const C: &str = "urn:c";

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(scalar, ns("urn:b"))]
pub enum En {
    Yes,
    No,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Shape {
    /// Attribute, scalar elements in several namespaces, children
    Rich,
    /// As `Rich`, with an attribute in a namespace
    RichAttr,
    /// Only an attribute
    Attr,
    Unit,
    /// Optional direct text
    Direct,
    /// Tuple struct of children
    Tuple,
}

macro_rules! node {
    (Rich $name:ident [$($o:tt)*]) => {
        #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
        #[xml($($o)*)]
        pub struct $name {
            #[xml(attribute)]
            x: Option<u8>,
            f: Option<u8>,
            #[xml(ns(B))]
            g: Option<u8>,
            e: Option<En>,
            kids: Vec<Item>,
            #[xml(ns(A))]
            h: Option<u8>,
            i: Option<u8>,
        }
    };
    (RichAttr $name:ident [$($o:tt)*]) => {
        #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
        #[xml($($o)*)]
        pub struct $name {
            #[xml(attribute, ns(A))]
            x: Option<u8>,
            f: Option<u8>,
            #[xml(ns(B))]
            g: Option<u8>,
            e: Option<En>,
            kids: Vec<Item>,
            #[xml(ns(A))]
            h: Option<u8>,
            i: Option<u8>,
        }
    };
    (Attr $name:ident [$($o:tt)*]) => {
        #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
        #[xml($($o)*)]
        pub struct $name {
            #[xml(attribute)]
            x: Option<u8>,
        }
    };
    (Unit $name:ident [$($o:tt)*]) => {
        #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
        #[xml($($o)*)]
        pub struct $name;
    };
    (Direct $name:ident [$($o:tt)*]) => {
        #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
        #[xml($($o)*)]
        pub struct $name {
            #[xml(attribute)]
            x: Option<u8>,
            #[xml(direct)]
            t: Option<u8>,
        }
    };
    (Tuple $name:ident [$($o:tt)*]) => {
        #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
        #[xml($($o)*)]
        pub struct $name(Box<Item>);
    };
}

macro_rules! nodes {
    ($($shape:ident $name:ident [$($o:tt)*];)*) => {
        $(node!($shape $name [$($o)*]);)*

        #[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
        #[xml(forward)]
        pub enum Item {
            $($name($name),)*
        }

        pub const SHAPES: &[Shape] = &[$(Shape::$shape),*];
    };
}

nodes! {
    // No namespace of its own
    Rich N0 [rename = "N0"];
    Rich Np [ns(p = "urn:a")];
    Rich Nq [ns(p = "urn:b")];
    Rich Npq [ns(p = "urn:a", q = "urn:b")];
    Rich Nqp [ns(p = "urn:b", q = "urn:a")];
    Rich Nf [ns("", q = "urn:a"), force_prefix];
    // In A
    Rich A0 [ns("urn:a")];
    Rich A0f [ns("urn:a"), force_prefix];
    Rich Ap [ns("urn:a", p = "urn:a")];
    Rich Apf [ns("urn:a", p = "urn:a"), force_prefix];
    Rich Aqb [ns("urn:a", p = "urn:b")];
    Rich Aqbf [ns("urn:a", p = "urn:b"), force_prefix];
    RichAttr Apq [ns("urn:a", p = "urn:a", q = "urn:b")];
    RichAttr Apqf [ns("urn:a", p = "urn:a", q = "urn:b"), force_prefix];
    RichAttr Aqp [ns("urn:a", p = "urn:b", q = "urn:a")];
    Rich Ac [ns("urn:a", p = "urn:c", r = "urn:c")];
    // In B
    Rich B0 [ns("urn:b")];
    Rich B0f [ns(B), force_prefix];
    RichAttr Bp [ns("urn:b", p = "urn:a")];
    RichAttr Bpf [ns("urn:b", p = A), force_prefix];
    Rich Bq [ns("urn:b", p = "urn:b")];
    Rich Bqf [ns("urn:b", p = "urn:b"), force_prefix];
    RichAttr Bpq [ns("urn:b", p = "urn:a", q = "urn:b")];
    RichAttr Bqp [ns("urn:b", p = "urn:b", q = "urn:a"), force_prefix];
    // In C
    Rich C0 [ns("urn:c")];
    Rich Cp [ns("urn:c", p = C)];
    Rich Cpf [ns("urn:c", p = "urn:c"), force_prefix];
    RichAttr Cpa [ns("urn:c", p = "urn:a", d-e.f = "urn:c"), force_prefix];
    // Elements that are empty or hold text only
    Attr Tn [rename = "Tn"];
    Attr Ta [ns("urn:a")];
    Attr Tap [ns("urn:a", p = "urn:a")];
    Attr Tapf [ns("urn:a", p = "urn:a", q = "urn:b"), force_prefix];
    Attr Tb [ns("urn:b", p = "urn:a")];
    Unit Un [rename = "Un"];
    Unit Unp [ns(p = "urn:b")];
    Unit Ua [ns("urn:a")];
    Unit Uap [ns("urn:a", p = "urn:a")];
    Unit Ubf [ns("urn:b", q = "urn:b"), force_prefix];
    Unit Uc [ns("urn:c", p = "urn:b", q = "urn:a")];
    Direct Dn [ns(p = "urn:c")];
    Direct Da [ns("urn:a")];
    Direct Dap [ns("urn:a", q = "urn:a", p = "urn:b"), force_prefix];
    Direct Db [ns("urn:b", p = "urn:b")];
    Tuple Wn [ns(p = "urn:b")];
    Tuple Wa [ns("urn:a")];
    Tuple Wap [ns("urn:a", p = "urn:a"), force_prefix];
    Tuple Wb [ns("urn:b", p = "urn:a")];
}

pub fn case() -> Case {
    case!(Item)
}

/// A node of kind `k` with children; `full` fills in the optional fields
pub fn make(k: usize, full: bool, mut kids: Vec<Val>) -> Option<Val> {
    let opt = |n: &str| match full {
        true => Val::Some(Box::new(Val::S(n.into()))),
        false => Val::None,
    };
    let en = match full {
        true => Val::Some(Box::new(Val::Enum(1))),
        false => Val::None,
    };
    let rec = match SHAPES[k] {
        Shape::Rich | Shape::RichAttr => Val::Rec(vec![
            opt("1"),
            opt("2"),
            opt("3"),
            en,
            Val::List(kids),
            opt("4"),
            opt("5"),
        ]),
        Shape::Attr if kids.is_empty() => Val::Rec(vec![opt("6")]),
        Shape::Unit if kids.is_empty() => Val::Rec(vec![]),
        Shape::Direct if kids.is_empty() => Val::Rec(vec![opt("7"), opt("8")]),
        Shape::Tuple if kids.len() == 1 => Val::Rec(vec![kids.pop().unwrap()]),
        _ => return None,
    };
    Some(Val::Var(k, Box::new(rec)))
}

pub fn count() -> usize {
    SHAPES.len()
}

/// Trees with two nodes at most, with every choice of filling
pub fn small(root: usize, f: &mut dyn FnMut(Val)) {
    for full in [false, true] {
        if let Some(v) = make(root, full, vec![]) {
            f(v);
        }
        for k in 0..count() {
            for kfull in [false, true] {
                if let Some(kid) = make(k, kfull, vec![]) {
                    if let Some(v) = make(root, full, vec![kid]) {
                        f(v);
                    }
                }
            }
        }
    }
}

/// Trees with three nodes and the given root, filled in or not
pub fn three(root: usize, full: bool, f: &mut dyn FnMut(Val)) {
    for a in 0..count() {
        for b in 0..count() {
            if let Some(leaf) = make(b, full, vec![]) {
                if let Some(mid) = make(a, full, vec![leaf.clone()]) {
                    if let Some(v) = make(root, full, vec![mid]) {
                        f(v);
                    }
                }
                if let Some(first) = make(a, full, vec![]) {
                    if let Some(v) = make(root, full, vec![first, leaf]) {
                        f(v);
                    }
                }
            }
        }
    }
}

/// Trees with four nodes over the kinds in `set`
pub fn four(root: usize, set: &[usize], full: bool, f: &mut dyn FnMut(Val)) {
    let one = |k: usize, kids: Vec<Val>| make(k, full, kids);
    for &a in set {
        for &b in set {
            for &c in set {
                let mut put = |v: Option<Val>| {
                    if let Some(v) = v {
                        f(v)
                    }
                };
                // root(a(b(c)))
                put(one(c, vec![])
                    .and_then(|c| one(b, vec![c]))
                    .and_then(|b| one(a, vec![b]))
                    .and_then(|a| one(root, vec![a])));
                // root(a(b c))
                put((|| one(root, vec![one(a, vec![one(b, vec![])?, one(c, vec![])?])?]))());
                // root(a(b) c)
                put((|| one(root, vec![one(a, vec![one(b, vec![])?])?, one(c, vec![])?]))());
                // root(a b(c))
                put((|| one(root, vec![one(a, vec![])?, one(b, vec![one(c, vec![])?])?]))());
                // root(a b c)
                put((|| one(root, vec![one(a, vec![])?, one(b, vec![])?, one(c, vec![])?]))());
            }
        }
    }
}

/// Trees of every shape with five nodes over the kinds in `set`
pub fn five(root: usize, set: &[usize], f: &mut dyn FnMut(Val)) {
    for shape in mcore::cursor::shapes(5) {
        let mut pick = [0usize; 4];
        loop {
            // Children come after their parents
            let mut kids: Vec<Vec<Val>> = vec![Vec::new(); 5];
            let mut done = None;
            for i in (0..5).rev() {
                kids[i].reverse();
                let kind = if i == 0 { root } else { set[pick[i - 1]] };
                let Some(v) = make(kind, true, std::mem::take(&mut kids[i])) else { break };
                match i {
                    0 => done = Some(v),
                    _ => kids[shape[i - 1]].push(v),
                }
            }
            if let Some(v) = done {
                f(v);
            }
            let mut i = 0;
            while i < 4 && pick[i] + 1 == set.len() {
                pick[i] = 0;
                i += 1;
            }
            if i == 4 {
                break;
            }
            pick[i] += 1;
        }
    }
}

/// The kinds most likely to interact: for trees with four nodes
pub fn core() -> Vec<usize> {
    let names = [
        "N0", "Npq", "A0", "Ap", "Apf", "Aqb", "Apq", "Aqp", "B0", "Bp", "Bqf", "Bqp", "Cpa", "Tap", "Uc", "Dap",
    ];
    let mcore::model::Ty::Forward(f) = (case().ty)() else { unreachable!() };
    names
        .iter()
        .map(|n| {
            f.variants
                .iter()
                .position(|v| v.get().tag().is_some_and(|t| t.rust == *n))
                .unwrap()
        })
        .collect()
}
