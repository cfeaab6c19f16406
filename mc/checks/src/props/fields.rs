//! C08 and C19: sequences of the elements a struct may hold, and variants.

use instant_xml::{AnyElement, Error, FromXml, ToXml};
use mcore::engine::{hash, Cx, Run};
use mcore::gen::{self, Ns, Style};
use mcore::model::{Case, Field, Pos, Ty, Val};
use mcore::refde::{self, No};
use mcore::refser::{OEl, OKid};
use mcore::{case, de_case, judge};
use model_derive::Model;

use super::common;
use crate::zoo::{leaf::*, misc, pairs};

fn fields(ty: &'static Ty) -> Option<&'static [Field]> {
    match ty {
        Ty::Struct(s) => Some(&s.fields),
        Ty::Box(t) => fields(t.get()),
        _ => None,
    }
}

fn empty(ty: &'static Ty) -> OEl {
    match ty {
        Ty::Box(t) => empty(t.get()),
        ty => {
            let tag = ty.tag().unwrap();
            OEl::new(tag.ns, tag.name)
        }
    }
}

/// Attribute settings: good, absent or bad for each attribute field
fn attributes(fields: &'static [Field], bad: bool) -> Vec<(Vec<(String, String, String)>, bool)> {
    let mut out = vec![(Vec::new(), false)];
    for f in fields.iter().filter(|f| f.pos == Pos::Attr) {
        let ty = f.ty.get();
        let good = gen::values(ty, common::small_rich())
            .into_iter()
            .filter_map(|v| mcore::refser::text(ty, &v).ok().flatten())
            .next();
        let mut next = Vec::new();
        for (base, b) in &out {
            next.push((base.clone(), *b));
            if let Some(g) = &good {
                let mut new = base.clone();
                new.push((f.ns.to_owned(), f.name.clone(), g.clone()));
                next.push((new, *b));
            }
            if let (true, Some(t)) = (bad, gen::bad_text(ty)) {
                let mut new = base.clone();
                new.push((f.ns.to_owned(), f.name.clone(), t.into()));
                next.push((new, true));
            }
        }
        out = next;
    }
    out
}

/// Settings of the direct text: absent, good, bad
fn directs(fields: &'static [Field]) -> Vec<(Option<String>, bool)> {
    let Some(f) = fields.iter().find(|f| f.pos == Pos::Direct) else {
        return vec![(None, false), (Some("\n".into()), false)];
    };
    let ty = f.ty.get();
    let mut out = vec![(None, false)];
    for v in gen::values(ty, common::small_rich()) {
        if let Ok(Some(t)) = mcore::refser::text(ty, &v) {
            out.push((Some(t), false));
        }
    }
    out.truncate(3);
    if let Some(t) = gen::bad_text(ty) {
        out.push((Some(t.into()), true));
    }
    out
}

/// Does an element on its own make the library and the oracle happy?
fn sound(case: &Case, root: &OEl, kid: &OKid) -> bool {
    let mut one = root.clone();
    one.kids = vec![kid.clone()];
    let doc = gen::print(&one, gen::PLAIN);
    // Missing others do not matter
    matches!(refde::expect((case.ty)(), &doc), Ok(_) | Err(No::Fail("missing")))
}

struct Plan {
    case: Case,
    root: OEl,
    alphabet: Vec<(OKid, bool)>,
    attrs: Vec<(Vec<(String, String, String)>, bool)>,
    directs: Vec<(Option<String>, bool)>,
}

fn plan(case: &Case, rich: bool) -> Option<Plan> {
    let fields = fields((case.ty)())?;
    let root = empty((case.ty)());
    let alphabet: Vec<(OKid, bool)> = gen::alphabet(fields, rich)
        .into_iter()
        .map(|k| {
            let ok = sound(case, &root, &k);
            (k, ok)
        })
        .collect();
    Some(Plan { case: *case, root, alphabet, attrs: attributes(fields, true), directs: directs(fields) })
}

/// Compare, including the kind of error where it cannot be anything else
fn check(cx: &mut Cx<'_>, case: &Case, tree: &OEl, style: Style, flawed: bool) {
    let doc = gen::print(tree, style);
    let want = refde::expect((case.ty)(), &doc);
    judge::de_want(cx, case, &doc, &want);
    if flawed {
        return;
    }
    let kind = match want {
        Err(No::Fail("missing")) => "missing",
        Err(No::Fail("duplicate")) => {
            // Only if one element less makes it right
            let fixed = (0..tree.kids.len()).any(|i| {
                let mut less = tree.clone();
                less.kids.remove(i);
                refde::expect((case.ty)(), &gen::print(&less, gen::PLAIN)).is_ok()
            });
            match fixed {
                true => "duplicate",
                false => return,
            }
        }
        _ => return,
    };
    let got = cx.guard(case.name, &doc, || (case.de)(&doc));
    let ok = match (&got, kind) {
        (Ok(Err(Error::MissingValue(_))), "missing") => true,
        (Ok(Err(Error::DuplicateValue(_))), "duplicate") => true,
        _ => false,
    };
    if !ok {
        cx.violation(
            "kind of error",
            &format!("{}: {doc}", case.name),
            &format!("a {kind} value error"),
            &judge::show(&got),
        );
    }
}

fn sequences(run: &Run, part: &str, plans: &[Plan], max: usize) {
    let mut work: Vec<(usize, usize)> = Vec::new();
    for (i, p) in plans.iter().enumerate() {
        for a in 0..p.alphabet.len() {
            work.push((i, a));
        }
    }
    run.par(part, &work, |cx, &(i, first)| {
        let p = &plans[i];
        let n = p.alphabet.len();
        let mut tree = p.root.clone();
        // The empty sequence once, then all that begin with `first`
        if first == 0 {
            for (attrs, bad) in &p.attrs {
                for (text, tbad) in &p.directs {
                    let mut t = tree.clone();
                    t.attrs = attrs.clone();
                    t.text(text.as_deref().unwrap_or(""));
                    check(cx, &p.case, &t, gen::PLAIN, *bad || *tbad);
                    check(cx, &p.case, &t, common::SHORT, *bad || *tbad);
                }
            }
        }
        // All good attributes for the long sequences
        let full = p.attrs.iter().filter(|a| !a.1).max_by_key(|a| a.0.len()).unwrap();
        for len in 1..=max {
            let mut idx = vec![0usize; len];
            idx[0] = first;
            loop {
                if cx.run.stopped() {
                    return;
                }
                tree.kids.clear();
                let mut flawed = false;
                for &k in &idx {
                    tree.kids.push(p.alphabet[k].0.clone());
                    flawed |= !p.alphabet[k].1;
                }
                tree.attrs = full.0.clone();
                check(cx, &p.case, &tree, gen::PLAIN, flawed);
                if len <= 2 {
                    check(cx, &p.case, &tree, Style { ns: Ns::Root, short: true, ..gen::PLAIN }, flawed);
                    // Text at each place, and other attributes
                    for (text, tbad) in &p.directs {
                        let Some(text) = text else { continue };
                        for at in 0..=len {
                            let mut t = tree.clone();
                            t.kids.insert(at, OKid::T(text.clone()));
                            check(cx, &p.case, &t, gen::PLAIN, flawed || *tbad);
                        }
                    }
                    for (attrs, bad) in &p.attrs {
                        if attrs != &full.0 {
                            let mut t = tree.clone();
                            t.attrs = attrs.clone();
                            check(cx, &p.case, &t, gen::PLAIN, flawed || *bad);
                        }
                    }
                }
                let mut k = len;
                let done = loop {
                    if k == 1 {
                        break true;
                    }
                    k -= 1;
                    idx[k] += 1;
                    if idx[k] < n {
                        break false;
                    }
                    idx[k] = 0;
                };
                if done {
                    break;
                }
            }
        }
    });
}

pub fn c08(run: &Run) {
    let two: Vec<Plan> = pairs::cases().iter().filter_map(|c| plan(c, false)).collect();
    sequences(run, "two fields", &two, run.pick(3, 4));
    let one: Vec<Plan> = misc::scalar_cases().iter().filter_map(|c| plan(c, true)).collect();
    sequences(run, "one field", &one, run.pick(4, 5));
    let big: Vec<Plan> = misc::struct_cases()
        .iter()
        .chain(&more())
        .filter_map(|c| plan(c, false))
        .collect();
    sequences(run, "bigger structs", &big, run.pick(3, 4));
    interleaved(run);
    tuples(run);
    pieces(run);
    super::scale::lists(run);
    let any: Vec<Plan> = misc::any_cases().iter().filter_map(|c| plan_any(c)).collect();
    sequences(run, "captured elements", &any, run.pick(4, 5));
}

/// `AnyElement` fields take what nothing before them does
fn plan_any(case: &Case) -> Option<Plan> {
    let fields = fields((case.ty)())?;
    let root = empty((case.ty)());
    let mut alphabet: Vec<(OKid, bool)> = Vec::new();
    for e in [gen::leaf("", "s", "1"), gen::leaf("urn:k", "s", "t"), OEl::new("", "SL"), gen::leaf("", "q", "z")] {
        let ok = sound(case, &root, &OKid::E(e.clone()));
        alphabet.push((OKid::E(e), ok));
    }
    let mut sl = OEl::new("", "SL");
    sl.kids.push(OKid::E(gen::leaf("", "x", "v")));
    alphabet.push((OKid::E(sl), true));
    Some(Plan { case: *case, root, alphabet, attrs: attributes(fields, true), directs: directs(fields) })
}

/// Direct text in pieces with elements between them is refused or taken whole, never in part
fn pieces(run: &Run) {
    let cases = [
        (case!(misc::D1<String>), "D1"),
        (case!(misc::D1<Option<String>>), "D1"),
        (case!(misc::D1<u8>), "D1"),
        (case!(misc::D1<Option<u8>>), "D1"),
        (case!(misc::D1<Box<u8>>), "D1"),
        (case!(misc::D1<char>), "D1"),
        (case!(misc::Mixed), "Mixed"),
    ];
    // Text comes first
    let parts = ["1", " ", "\n", "a", "&#49;", "<![CDATA[2]]>", "<!---->", "<x/>", "<x>1</x>", "<SL><x>q</x></SL>", "<n:v xmlns:n='u'>3</n:v>"];
    let texts = 6;
    let max = run.pick(5, 7);
    let jobs: Vec<(usize, usize)> = (0..cases.len()).flat_map(|c| (0..parts.len()).map(move |p| (c, p))).collect();
    run.par("direct text in pieces", &jobs, |cx, &(c, first)| {
        let (case, name) = &cases[c];
        let mut stack = vec![vec![first]];
        while let Some(seq) = stack.pop() {
            if cx.run.stopped() {
                return;
            }
            let doc = |seq: &mut dyn Iterator<Item = &usize>| {
                let inner: String = seq.map(|&i| parts[i]).collect();
                format!("<{name}>{inner}</{name}>")
            };
            let pieces = doc(&mut seq.iter());
            match refde::expect((case.ty)(), &pieces) {
                Err(No::Open("direct text in several pieces")) => {
                    let whole = doc(&mut seq.iter().filter(|&&i| i < texts).chain(seq.iter().filter(|&&i| i >= texts)));
                    let want = refde::expect((case.ty)(), &whole);
                    cx.count(hash(&(case.name, &pieces)));
                    let got = cx.guard(case.name, &pieces, || (case.de)(&pieces));
                    let ok = match (&got, &want) {
                        (Ok(Err(_)), _) | (Ok(_), Err(No::Open(_))) => true,
                        (Ok(Ok(v)), Ok(w)) => v == w,
                        _ => false,
                    };
                    cx.rejected += matches!(got, Ok(Err(_))) as u64;
                    cx.accepted += matches!(got, Ok(Ok(_))) as u64;
                    if !ok {
                        let want = format!("an error, or as for {whole}");
                        cx.violation("pieces", &format!("{}: {pieces}", case.name), &want, &judge::show(&got));
                    }
                }
                want => judge::de_want(cx, case, &pieces, &want),
            }
            if seq.len() < max {
                for i in 0..parts.len() {
                    let mut s = seq.clone();
                    s.push(i);
                    stack.push(s);
                }
            }
        }
    });
}

/// Tuple structs take their elements in order
fn tuples(run: &Run) {
    let cases = vec![case!(misc::T1<SL>), case!(misc::T2), case!(misc::T3), case!(misc::T1<FL>), case!(misc::T1<Box<TL>>)];
    child_sequences(run, "tuple structs", &cases, &[case!(SL), case!(TL), case!(UL)], &[OEl::new("", "other"), OEl::new("urn:n", "SL")], run.pick(4, 5));
    let cases = vec![case!(misc::T5), case!(misc::T4), case!(misc::T1<misc::T5>), case!(misc::T1<Box<misc::T4>>)];
    let kids = [case!(misc::T1<u8>), case!(misc::T1<String>), case!(misc::T2), case!(misc::T4), case!(misc::T5)];
    child_sequences(run, "tuples of tuples", &cases, &kids, &[OEl::new("", "other"), OEl::new("urn:n", "T1")], run.pick(3, 4));
}

/// All sequences of children, taken from the values of some types and some elements of other names
fn child_sequences(run: &Run, part: &str, cases: &[Case], of: &[Case], others: &[OEl], max: usize) {
    let mut kids: Vec<OEl> = Vec::new();
    for c in of {
        for v in gen::values((c.ty)(), common::small_rich()).into_iter().take(2) {
            kids.push(mcore::refser::ser((c.ty)(), &v).unwrap());
        }
    }
    kids.extend(others.iter().cloned());
    run.par(part, cases, |cx, case| {
        let root = empty((case.ty)());
        let mut level: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..=max {
            let mut next = Vec::new();
            for seq in &level {
                let mut t = root.clone();
                t.kids = seq.iter().map(|&i| OKid::E(kids[i].clone())).collect();
                for style in [gen::PLAIN, common::SHORT] {
                    judge::de(cx, case, &gen::print(&t, style));
                }
                if seq.len() < max {
                    for i in 0..kids.len() {
                        let mut s = seq.clone();
                        s.push(i);
                        next.push(s);
                    }
                }
            }
            level = next;
        }
    });
}

/// Three lists and a single field, in every order
fn interleaved(run: &Run) {
    let case = case!(Lists);
    let max = run.pick(6, 8);
    let kids: Vec<OKid> = {
        let mut sl = OEl::new("", "SL");
        sl.kids.push(OKid::E(gen::leaf("", "x", "q")));
        vec![
            OKid::E(gen::leaf("", "n", "1")),
            OKid::E(gen::leaf("", "n", "2")),
            OKid::E(sl),
            OKid::E(OEl::new("urn:o", "UL")),
            OKid::E(gen::leaf("", "one", "z")),
            OKid::E(gen::leaf("", "odd", "?")),
        ]
    };
    let heads: Vec<Vec<usize>> = (0..kids.len())
        .flat_map(|a| (0..kids.len()).map(move |b| vec![a, b]))
        .collect();
    run.par("interleaved lists", &heads, |cx, head| {
        let mut stack = vec![head.clone()];
        while let Some(seq) = stack.pop() {
            if cx.run.stopped() {
                return;
            }
            let mut t = OEl::new("", "Lists");
            t.kids = seq.iter().map(|&i| kids[i].clone()).collect();
            check(cx, &case, &t, gen::PLAIN, false);
            if seq.len() < max {
                for i in 0..kids.len() {
                    let mut s = seq.clone();
                    s.push(i);
                    stack.push(s);
                }
            }
        }
    });
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
pub struct Lists {
    n: Vec<u8>,
    f: Vec<FL>,
    one: Option<String>,
    w: Vec<misc::Single>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
pub struct Nested {
    a: Vec<XL>,
    b: Option<Box<FR>>,
    c: Option<Vec<misc::Part>>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
pub struct Boxes {
    a: Box<SL>,
    b: Option<Box<TL>>,
    c: Box<FR>,
    d: Vec<Box<SR>>,
    e: Box<String>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(ns("urn:n"))]
pub struct Enums {
    #[xml(attribute)]
    k: Option<EL>,
    one: EL,
    some: Option<ER>,
    list: Vec<misc::Cased>,
    num: Option<misc::Num>,
}

fn more() -> Vec<Case> {
    vec![case!(Lists), case!(Boxes), case!(Enums), case!(Nested)]
}

// C19

pub fn c19(run: &Run) {
    texts(run);
    over_scalars(run);
    dispatch(run);
    inlined(run);
}

/// Texts near the names of variants
fn near(variants: &[String]) -> Vec<String> {
    let mut out: Vec<String> = vec!["".into(), " ".into(), "0".into(), "1".into(), "10".into(), "x".into(), "a".into()];
    for v in variants {
        out.push(v.clone());
        for t in [
            v.to_lowercase(),
            v.to_uppercase(),
            format!(" {v}"),
            format!("{v} "),
            format!("\n{v}"),
            format!("{v}\t"),
            format!("{v}{v}"),
            format!("{v}x"),
            format!("x{v}"),
            format!("p:{v}"),
            format!("{v}\u{301}"),
            format!("\u{feff}{v}"),
            format!("{v}\u{feff}"),
            format!("\u{200b}{v}"),
            format!("\u{a0}{v}"),
            format!("{v}\u{a0}"),
            format!("{v}\u{3000}"),
            format!("{v}\u{85}"),
            format!("{v}\u{2028}"),
            format!("{v}\u{ad}"),
            format!("{v}."),
            format!("{v};"),
            format!("'{v}'"),
            format!("\"{v}\""),
            v.replace('-', "_"),
            v.replace('_', "-"),
            v.replace(['-', '_'], ""),
            v.trim().to_owned(),
            v.chars().rev().collect(),
        ] {
            out.push(t);
        }
        for (i, c) in v.char_indices() {
            out.push(v[..i].to_owned());
            out.push(v[i..].to_owned());
            // One letter in the other case, or missing
            let mut flip = v.clone();
            let f: String = match c.is_lowercase() {
                true => c.to_uppercase().collect(),
                false => c.to_lowercase().collect(),
            };
            flip.replace_range(i..i + c.len_utf8(), &f);
            out.push(flip);
            let mut less = v.clone();
            less.remove(i);
            out.push(less);
        }
    }
    out.sort();
    out.dedup();
    out
}

macro_rules! enum_case {
    ($out:ident, $($e:ty),*) => {
        $(
            $out.push((case!($e), vec![
                case!(misc::E1<$e>), case!(misc::E1<Option<$e>>), case!(misc::E1<Vec<$e>>), case!(misc::E1<Box<$e>>),
                case!(misc::A1<$e>), case!(misc::A1<Option<$e>>), case!(misc::D1<$e>), case!(misc::D1<Option<$e>>),
                case!(misc::E1<Option<Box<$e>>>), case!(misc::T1<$e>), case!(misc::E1<Vec<Box<$e>>>),
            ]));
        )*
    };
}

#[derive(Clone, Copy, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(scalar, rename_all = "camelCase")]
pub enum Camel {
    North,
    NorthEast,
    NorthEastByNorth,
    N,
    #[xml(rename = "NorthEast")]
    Same,
}

#[derive(Clone, Copy, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(scalar, rename_all = "snake_case")]
pub enum Snake {
    A,
    AB,
    Ab,
    AbcDef,
    #[xml(rename = "")]
    Nothing2,
    #[xml(rename = "1")]
    One,
}

#[derive(Clone, Copy, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(scalar)]
pub enum Signed {
    Minus = 5,
    Zero = 0,
    Plus = 50,
    More = 500,
}

/// Variants that hold plain scalars have no element of their own, so none is theirs
#[derive(Clone, Debug, PartialEq, FromXml)]
#[xml(forward)]
#[allow(dead_code)]
enum OverScalars {
    Num(u8),
    Text(String),
    El(OnlyEl),
    Bool(bool),
    Far(FarEl),
}

#[derive(Clone, Debug, PartialEq, FromXml)]
#[xml(rename = "el")]
struct OnlyEl {
    v: Option<u8>,
}

#[derive(Clone, Debug, PartialEq, FromXml)]
#[xml(rename = "el", ns("urn:far"))]
struct FarEl {
    v: Option<u8>,
}

#[derive(Clone, Debug, PartialEq, FromXml)]
struct HoldsOver {
    one: Option<OverScalars>,
    many: Vec<u8>,
}

fn over_scalars(run: &Run) {
    run.seq("forwarding beside scalars", |cx| {
        let el = |v| Some(OverScalars::El(OnlyEl { v }));
        let far = |v| Some(OverScalars::Far(FarEl { v }));
        let cases: [(&str, Option<OverScalars>); 13] = [
            ("", None),
            ("<el/>", el(None)),
            ("<el><v>7</v></el>", el(Some(7))),
            ("<el xmlns='urn:far'/>", far(None)),
            ("<f:el xmlns:f='urn:far'><v xmlns=''>1</v><f:v>8</f:v></f:el>", far(Some(8))),
            ("<el xmlns='urn:enum'/>", None),
            ("<Num>1</Num>", None),
            ("<Text>a</Text><el/>", el(None)),
            ("<Enum>North</Enum><el xmlns='urn:far'/>", far(None)),
            ("<u8>1</u8><String/><Bool>true</Bool><el/>", el(None)),
            ("<Camel>north</Camel><North/>", None),
            ("<OverScalars><el/></OverScalars>", None),
            ("<zz>1</zz><el><v>1</v></el><zz/>", el(Some(1))),
        ];
        for (inner, want) in cases {
            for (extra, many) in [("", vec![]), ("<many>3</many>", vec![3]), ("<many>3</many><many>4</many>", vec![3, 4])] {
                for doc in [format!("<HoldsOver>{inner}{extra}</HoldsOver>"), format!("<HoldsOver>{extra}{inner}</HoldsOver>")] {
                    cx.transitions += 1;
                    cx.count(mcore::engine::hash(&doc));
                    let got = cx.guard("HoldsOver", &doc, || instant_xml::from_str::<HoldsOver>(&doc));
                    let want = HoldsOver { one: want.clone(), many: many.clone() };
                    if !matches!(&got, Ok(Ok(g)) if *g == want) {
                        cx.violation("forwarding beside scalars", &doc, &format!("{want:?}"), &format!("{got:?}"));
                    }
                }
            }
        }
    });
}

fn texts(run: &Run) {
    let mut all: Vec<(Case, Vec<Case>)> = Vec::new();
    enum_case!(all, EL, ER, misc::Num, misc::Cased, misc::Texts, Camel, Signed);
    let snake: Vec<Case> = vec![case!(misc::E1<Snake>), case!(misc::A1<Snake>), case!(misc::E1<Vec<Snake>>)];
    all.push((case!(Snake), snake));
    let mut work: Vec<(Case, Case)> = Vec::new();
    for (e, holders) in &all {
        for h in holders {
            work.push((*e, *h));
        }
    }
    run.par("texts of scalar enums", &work, |cx, (e, holder)| {
        let Ty::Enum(ty) = (e.ty)() else { unreachable!() };
        let all: Vec<String> = near(&ty.variants);
        for text in &all {
            if !text.chars().all(mcore::xml::is_char) {
                continue;
            }
            for tree in put_text((holder.ty)(), text) {
                judge::de(cx, holder, &gen::print(&tree, gen::PLAIN));
                judge::de(cx, holder, &gen::print(&tree, Style { ns: Ns::Root, short: true, ..gen::PLAIN }));
            }
        }
        for v in gen::values((holder.ty)(), common::wide_rich()) {
            judge::ser(cx, holder, &v);
            if !has_empty((holder.ty)(), &v, ty) {
                judge::round_trip(cx, holder, &v);
            }
        }
    });
}

/// Is one of the variants in it written as the empty string? (it does not read back: known)
fn has_empty(ty: &'static Ty, v: &Val, e: &mcore::model::EnumTy) -> bool {
    match v {
        Val::Enum(i) => e.variants[*i].is_empty(),
        Val::Rec(vs) | Val::List(vs) => vs.iter().any(|v| has_empty(ty, v, e)),
        Val::Some(v) => has_empty(ty, v, e),
        _ => false,
    }
}

/// Trees for a one-field type with the given text in its field
fn put_text(ty: &'static Ty, text: &str) -> Vec<OEl> {
    let mut root = empty(ty);
    match ty {
        Ty::Struct(s) => {
            let f = &s.fields[0];
            match f.pos {
                Pos::Attr => {
                    root.attrs.push((f.ns.to_owned(), f.name.clone(), text.to_owned()));
                    vec![root]
                }
                Pos::Direct => {
                    root.text(text);
                    vec![root]
                }
                Pos::Elem => {
                    let mut out = Vec::new();
                    for ns in [f.ns, "urn:enum", ""] {
                        let mut r = root.clone();
                        r.kids.push(OKid::E(gen::leaf(ns, &f.name, text)));
                        out.push(r);
                    }
                    out
                }
            }
        }
        Ty::Tuple(_) => {
            root.text(text);
            vec![root]
        }
        _ => unreachable!(),
    }
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(rename = "n", ns("urn:1"))]
pub struct P1 {
    v: Option<String>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(rename = "n", ns("urn:2"))]
pub struct P2 {
    v: Option<String>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(rename = "m", ns("urn:1"))]
pub struct P3 {
    v: Option<String>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(rename = "n")]
pub struct P4 {
    v: Option<String>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(rename = "nn", ns("urn:2"))]
pub struct P5;

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(rename = "t", ns("urn:1"))]
pub struct P6(String);

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(forward)]
pub enum Fwd {
    One(P1),
    Two(P2),
    Three(Box<P3>),
    Four(P4),
    Five(P5),
    Six(P6),
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(forward)]
pub enum Part {
    Two(P2),
    Four(P4),
}

/// A forward enum of forward enums
#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(forward)]
pub enum Far {
    Near(Part),
    One(P1),
    Six(Box<P6>),
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
pub struct Slots {
    first: Option<Part>,
    rest: Vec<Fwd>,
    k: Option<u8>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(ns("urn:1"))]
pub struct Slots1 {
    one: Box<Part>,
    far: Option<Far>,
    m: Vec<String>,
}

#[derive(Clone, Debug, PartialEq, FromXml, Model)]
pub struct SlotsAny<'a> {
    one: Option<Fwd>,
    #[xml(borrow)]
    rest: Vec<AnyElement<'a>>,
}

fn dispatch(run: &Run) {
    // Elements over all combinations of namespace and name, including near misses
    let mut kids: Vec<OKid> = Vec::new();
    for ns in ["", "urn:1", "urn:2", "urn:3"] {
        for name in ["n", "m", "nn", "t", "v", "N"] {
            let mut e = OEl::new(ns, name);
            e.kids.push(OKid::E(gen::leaf(ns, "v", "5")));
            kids.push(OKid::E(e));
            kids.push(OKid::E(OEl::new(ns, name)));
            kids.push(OKid::E(gen::leaf(ns, name, "5")));
        }
    }
    let alone = [case!(Fwd), case!(Part), case!(Far), case!(P1), case!(P5), case!(Box<Fwd>), case!(P6)];
    run.par("roots of forward enums", &alone, |cx, case| {
        for k in &kids {
            let OKid::E(e) = k else { continue };
            for ns in gen::ALL_NS {
                judge::de(cx, case, &gen::print(e, Style { ns, ..gen::PLAIN }));
            }
        }
        for v in gen::values((case.ty)(), common::wide_rich()) {
            judge::ser(cx, case, &v);
            judge::round_trip(cx, case, &v);
        }
    });
    let holders: Vec<Case> = vec![case!(Slots), case!(Slots1), de_case!(SlotsAny<'_>), case!(misc::Boths), case!(misc::T1<Fwd>)];
    let mut work = Vec::new();
    for h in &holders {
        for i in 0..kids.len() {
            work.push((*h, i));
        }
    }
    let three = !run.quick();
    run.par("fields of forward enums", &work, |cx, &(case, i)| {
        let root = empty((case.ty)());
        let mut t = root.clone();
        t.kids = vec![kids[i].clone()];
        judge::de(cx, &case, &gen::print(&t, gen::PLAIN));
        for b in &kids {
            t.kids.truncate(1);
            t.kids.push(b.clone());
            for ns in [Ns::Default, Ns::Root, Ns::Local] {
                judge::de(cx, &case, &gen::print(&t, Style { ns, ..gen::PLAIN }));
            }
            if three {
                for c in &kids {
                    t.kids.truncate(2);
                    t.kids.push(c.clone());
                    judge::de(cx, &case, &gen::print(&t, gen::PLAIN));
                }
            }
            if cx.run.stopped() {
                return;
            }
        }
    });
    // The variants of the fields of the first two overlap
    let cases = [
        case!(Slots),
        case!(Slots1),
        case!(misc::Boths),
        case!(misc::E1<Fwd>),
        case!(misc::E1<Vec<Fwd>>),
        case!(misc::E1<Option<Far>>),
        case!(misc::E1<Box<Far>>),
        case!(misc::E1<Vec<Box<Far>>>),
        case!(misc::T1<Far>),
    ];
    run.par("values with forward enums", &cases, |cx, case| {
        let overlap = (case.ty)() as *const Ty == (cases[0].ty)() || (case.ty)() as *const Ty == (cases[1].ty)();
        for v in gen::values((case.ty)(), common::wide_rich()) {
            judge::ser(cx, case, &v);
            if !overlap {
                judge::round_trip(cx, case, &v);
            }
        }
    });
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(transparent, rename_all = "UPPERCASE")]
pub struct Inner {
    a_b: Option<String>,
    #[xml(ns("urn:far"))]
    far: Option<u8>,
    list: Vec<u8>,
    s: Option<SL>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(ns("urn:out", p = "urn:in"))]
pub struct HoldsInner {
    before: Option<u8>,
    inner: Inner,
    after: Option<u8>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
pub struct OptInner {
    #[xml(attribute)]
    at: Option<u8>,
    inner: Option<Needs>,
    list: Vec<Only>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(transparent)]
pub struct Needs {
    x: u8,
    y: Box<SR>,
    z: Option<String>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(transparent)]
pub struct Only {
    f: FL,
}

fn inlined(run: &Run) {
    let cases = [
        case!(HoldsInner),
        case!(OptInner),
        case!(misc::HoldsOuter),
        case!(misc::Singles),
        case!(Nested),
        case!(pairs::EE<XL, XR>),
        case!(pairs::EE<Option<XL>, FR>),
        case!(pairs::EE<XL, Option<XR>>),
        case!(pairs::EE<Option<XL>, Vec<SR>>),
        case!(pairs::AE<String, XR>),
    ];
    run.par("values with inlined structs", &cases, |cx, case| {
        for v in gen::values((case.ty)(), common::wide_rich()) {
            judge::ser(cx, case, &v);
            judge::round_trip(cx, case, &v);
            if cx.run.stopped() {
                return;
            }
        }
    });
    let plans: Vec<Plan> = cases.iter().filter_map(|c| plan(c, true)).collect();
    sequences(run, "elements of inlined structs", &plans, run.pick(3, 4));
    let _ = hash::<str>;
    let kinds = [case!(misc::E1<Snake>), case!(misc::A1<Snake>)];
    run.seq("known exceptions", |cx| {
        let case = &kinds[0];
        let Ty::Enum(e) = (case!(Snake).ty)() else { unreachable!() };
        let i = e.variants.iter().position(|v| v.is_empty()).unwrap();
        let v = Val::Rec(vec![Val::Enum(i)]);
        let got = cx.guard(case.name, "empty variant", || (case.to_string)(&v).and_then(|x| (case.de)(&x)));
        let ok = matches!(&got, Ok(Ok(w)) if *w == v);
        cx.run.probe("enum-variant-with-empty-text", "E1 { v: Snake::Nothing2 }", "the value read back", &judge::show(&got), ok);
    });
}
