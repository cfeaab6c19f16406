//! C10: limits cut off exactly at the bound.

use instant_xml::de::{Limits, Node};
use instant_xml::{AnyElement, Deserializer, FromXml, ToXml};
use mcore::engine::{hash, Cx, Run};
use mcore::model::{Model as _, Ty, Val};
use mcore::refde;
use mcore::xml::{self, El, Kid};
use model_derive::Model;
use std::fmt::Write;

/// Consumes `o` and `t`, ignores anything else
#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(rename = "o")]
pub struct Own {
    #[xml(attribute)]
    a0: Option<String>,
    o: Vec<Own>,
    t: Vec<String>,
    #[xml(attribute)]
    a63: Option<String>,
}

#[derive(Clone, Debug, PartialEq, FromXml, Model)]
#[xml(rename = "o")]
pub struct Takes<'a> {
    #[xml(borrow)]
    any: Vec<AnyElement<'a>>,
}

#[derive(Clone, Copy, Debug)]
struct L {
    attrs: usize,
    levels: usize,
    decls: usize,
}

const DEFAULT: L = L { attrs: 64, levels: 32, decls: 32 };

impl L {
    fn limits(self) -> Limits {
        let mut l = Limits::default();
        l.max_attributes = self.attrs;
        l.max_levels = self.levels;
        l.max_ns_declarations = self.decls;
        l
    }
}

/// Is everything in `el` (at `depth`) within the limits?
fn within(el: &El<'_>, depth: usize, l: L, root: bool) -> bool {
    // The start tag of the root is read with the default limits
    let here = if root { DEFAULT } else { l };
    el.attrs.len() <= here.attrs
        && depth <= here.levels
        && el.decls.iter().filter(|(p, _)| !p.is_empty()).count() <= here.decls
        && el.kids.iter().all(|k| match k {
            Kid::E(e) => within(e, depth + 1, l, false),
            Kid::T(..) => true,
        })
}

#[derive(Clone, Copy)]
struct Way {
    name: &'static str,
    ty: fn() -> &'static Ty,
    plain: fn(&str) -> Result<Val, String>,
    limited: fn(&str, Limits) -> Result<Val, String>,
}

macro_rules! way {
    ($t:ty) => {
        Way {
            name: stringify!($t),
            ty: <$t as mcore::model::Model>::ty,
            plain: |s| instant_xml::from_str::<$t>(s).map(|v| v.to_val()).map_err(|e| e.to_string()),
            limited: |s, l| {
                let mut d = Deserializer::new(s).map_err(|e| e.to_string())?.with_limits(l);
                d.deserialize::<$t>().map(|v| v.to_val()).map_err(|e| e.to_string())
            },
        }
    };
}

/// Nothing but skipping
const SKIP: Way = Way {
    name: "ignore",
    ty: <() as mcore::model::Model>::ty,
    plain: |s| {
        let mut d = Deserializer::new(s).map_err(|e| e.to_string())?;
        d.ignore().map(|_| Val::Unit).map_err(|e| e.to_string())
    },
    limited: |s, l| {
        let mut d = Deserializer::new(s).map_err(|e| e.to_string())?.with_limits(l);
        d.ignore().map(|_| Val::Unit).map_err(|e| e.to_string())
    },
};

fn ways() -> [Way; 4] {
    [way!(Own), way!(AnyElement<'_>), way!(Takes<'_>), SKIP]
}

/// One document, one target, one setting (or the defaults, not set)
fn try_one(cx: &mut Cx<'_>, way: &Way, doc: &str, parsed: &xml::Doc<'_>, limits: Option<L>) {
    cx.count(hash(&(way.name, doc, limits.map(|l| (l.attrs, l.levels, l.decls)))));
    let ok = within(&parsed.root, 1, limits.unwrap_or(DEFAULT), true);
    let want = match ok {
        false => Err(refde::No::Fail("over the limits")),
        true if way.name == "ignore" => Ok(Val::Unit),
        true => refde::root((way.ty)(), &parsed.root),
    };
    let label = format!("{} with {limits:?}: {doc}", way.name);
    let got = cx.guard(way.name, doc, || match limits {
        None => (way.plain)(doc),
        Some(l) => (way.limited)(doc, l.limits()),
    });
    cx.sample(|| format!("{} -> {}", mcore::engine::short(&label), want.is_ok()));
    let good = match (&want, &got) {
        (Ok(v), Ok(Ok(w))) => {
            cx.accepted += 1;
            v == w
        }
        (Err(refde::No::Fail(_)), Ok(Err(_))) => {
            cx.rejected += 1;
            true
        }
        (Err(refde::No::Open(_)), Ok(_)) => {
            cx.open += 1;
            true
        }
        _ => false,
    };
    if !good {
        cx.violation("limits", &label, &format!("{want:?}"), &format!("{got:?}"));
    }
}

fn try_all(cx: &mut Cx<'_>, doc: &str, limits: Option<L>) {
    let parsed = xml::parse(doc).unwrap_or_else(|e| panic!("{e}: {doc}"));
    for way in &ways() {
        try_one(cx, way, doc, &parsed, limits);
    }
}

/// `n` attributes and `m` declarations, in one of four orders
fn head(name: &str, n: usize, m: usize, order: usize) -> String {
    let mut out = format!("<{name}");
    let decl = |out: &mut String, i: usize| write!(out, " xmlns:n{i}=\"urn:{i}\"").unwrap();
    let attr = |out: &mut String, i: usize| match m > 0 && i % 5 == 4 && order == 3 {
        true => write!(out, " n{}:a{i}='{i}'", i % m).unwrap(),
        false => write!(out, " a{i}=\"{i}\"").unwrap(),
    };
    if order == 1 {
        // The default declaration counts as neither
        out.push_str(" xmlns=''");
    }
    match order {
        0 | 3 => {
            (0..m).for_each(|i| decl(&mut out, i));
            (0..n).for_each(|i| attr(&mut out, i));
        }
        1 => {
            (0..n).for_each(|i| attr(&mut out, i));
            (0..m).for_each(|i| decl(&mut out, i));
        }
        _ => {
            for i in 0..n.max(m) {
                if i < m {
                    decl(&mut out, i);
                }
                if i < n {
                    attr(&mut out, i);
                }
            }
        }
    }
    out
}

const NAMES: [&str; 3] = ["o", "x", "t"];

fn nested(names: &[&str]) -> String {
    let mut out = String::new();
    for n in names {
        write!(out, "<{n}>").unwrap();
    }
    for n in names.iter().rev() {
        write!(out, "</{n}>").unwrap();
    }
    out
}

pub fn c10(run: &Run) {
    wide(run);
    deep(run);
    settings(run);
    small(run);
    later(run);
}

/// Elements with many attributes and declarations, in every kind of place
fn wide(run: &Run) {
    let mut work: Vec<(usize, usize, usize)> = Vec::new();
    for order in 0..4 {
        for n in 0..=run.pick(70, 140) {
            for m in [0, 1, 31, 32, 33] {
                work.push((n, m, order));
            }
        }
        for m in 0..=run.pick(40, 80) {
            for n in [0, 1, 63, 64, 65] {
                work.push((n, m, order));
            }
        }
        for n in 60..68 {
            for m in 28..36 {
                work.push((n, m, order));
            }
        }
    }
    run.par("many attributes and declarations", &work, |cx, &(n, m, order)| {
        // As root
        let h = head("o", n, m, order);
        try_all(cx, &format!("{h}/>"), None);
        try_all(cx, &format!("{h}>text<o/></o>"), None);
        let full = head("o", 64, 32, order);
        let full_x = head("x", 64, 32, order);
        for name in NAMES {
            let h = head(name, n, m, order);
            for el in [format!("{h}/>"), format!("{h}>t</{name}>")] {
                if cx.run.stopped() {
                    return;
                }
                let docs = [
                    format!("<o>{el}</o>"),
                    format!("{full}>{el}</o>"),
                    format!("<o>{full}/>{el}</o>"),
                    format!("<o>{full_x}>u</x>{el}{full}></o></o>"),
                    format!("<o>{el}{el}</o>"),
                    format!("<o>{full_x}>{full}>{el}</o>{el}</x></o>"),
                    format!("<o>{full}>{full}/>{el}</o></o>"),
                ];
                for d in docs {
                    try_all(cx, &d, None);
                }
                // Deep down, where the levels run out next
                for depth in [5, 30, 31, 32] {
                    for at in ["o", "x"] {
                        let open = format!("<{at}>").repeat(depth - 1);
                        let close = format!("</{at}>").repeat(depth - 1);
                        try_all(cx, &format!("<o>{open}{el}{close}</o>"), None);
                    }
                }
            }
        }
    });
}

/// Deep elements next to each other
fn deep(run: &Run) {
    let max = run.pick(36, 70);
    let mut work: Vec<(usize, usize)> = Vec::new();
    for base in [1, 2, 7, 29, 31] {
        for d1 in 0..=max {
            work.push((base, d1));
        }
    }
    run.par("depths", &work, |cx, &(base, d1)| {
        for from in 0..4 {
            for d2 in 0..=max {
                if cx.run.stopped() {
                    return;
                }
                // Names of the levels: consumed up to somewhere, ignored below
                let names = |d: usize| -> Vec<&str> {
                    let turn = match from {
                        0 => 0,
                        1 => d,
                        2 => d / 2,
                        _ => d.saturating_sub(1),
                    };
                    (0..d).map(|i| if i < turn { "o" } else { "x" }).collect()
                };
                let (a, b) = (nested(&names(d1)), nested(&names(d2)));
                let open = "<o>".repeat(base);
                let close = "</o>".repeat(base);
                try_all(cx, &format!("{open}{a}{b}{close}"), None);
                if d1 == 0 {
                    // The innermost element empty, or text
                    let mut n = names(d2);
                    n.push("t");
                    let doc = format!("{open}{}{close}", nested(&n));
                    try_all(cx, &doc, None);
                    try_all(cx, &doc.replace("<t></t>", "<t/>"), None);
                    try_all(cx, &doc.replace("<t></t>", "<o a0='1'/>"), None);
                    try_all(cx, &doc.replace("<t></t>", "<x/><x/><t>1</t>"), None);
                }
            }
        }
    });
}

/// Other settings, at their bounds
fn settings(run: &Run) {
    let max = run.pick(100, 220);
    let values: Vec<usize> = (0..=max).chain([usize::MAX]).collect();
    run.par("other settings", &values, |cx, &l| {
        let near = |l: usize| -> Vec<usize> {
            match l {
                usize::MAX => vec![max + 5],
                l => (l.saturating_sub(1)..=l + 2).collect(),
            }
        };
        for n in near(l) {
            for name in NAMES {
                for others in [0, 3, usize::MAX] {
                    let h = head(name, n, 0, 0);
                    let doc = format!("<o><x/>{h}/><o/></o>");
                    try_all(cx, &doc, Some(L { attrs: l, levels: 2, decls: others }));
                    let h = head(name, 0, n, 0);
                    let doc = format!("<o><t>1</t>{h}>t</{name}></o>");
                    try_all(cx, &doc, Some(L { attrs: others, levels: 2, decls: l }));
                }
                let mut names = vec!["o"];
                names.resize(n.max(1), if name == "t" { "o" } else { name });
                let doc = nested(&names);
                for others in [0, usize::MAX] {
                    try_all(cx, &doc, Some(L { attrs: others, levels: l, decls: others }));
                }
            }
        }
    });
}

/// Trees of up to `n` nodes, as lists of parents in document order
fn shapes(n: usize) -> Vec<Vec<usize>> {
    fn go(n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        out.push(cur.clone());
        if cur.len() + 1 >= n {
            return;
        }
        // The new node (cur.len() + 1) hangs off the last node or one of its ancestors
        let mut at = Some(cur.len());
        while let Some(p) = at {
            cur.push(p);
            go(n, cur, out);
            cur.pop();
            at = (p > 0).then(|| cur[p - 1]);
        }
    }
    let mut out = Vec::new();
    go(n, &mut Vec::new(), &mut out);
    out
}

fn write_tree(parents: &[usize], marks: &[(usize, usize, usize)], i: usize, out: &mut String) {
    let (name, n, m) = marks[i];
    let name = NAMES[name];
    out.push_str(&head(name, n, m, (n + m) % 3));
    out.push('>');
    for (k, &p) in parents.iter().enumerate() {
        if p == i {
            write_tree(parents, marks, k + 1, out);
        }
    }
    write!(out, "</{name}>").unwrap();
}

/// All small trees under all small settings
fn small(run: &Run) {
    let mut marks = Vec::new();
    for name in 0..2 {
        for n in 0..3 {
            for m in 0..2 {
                marks.push((name, n, m));
            }
        }
    }
    let mut settings = Vec::new();
    for attrs in 0..3 {
        for levels in 0..5 {
            for decls in 0..2 {
                settings.push(L { attrs, levels, decls });
            }
        }
    }
    let shapes = shapes(4);
    let mut work = Vec::new();
    for s in &shapes {
        for (i, _) in marks.iter().enumerate() {
            for (j, _) in marks.iter().enumerate() {
                if s.len() > 1 || (j == 0 && s.is_empty()) || s.len() == 1 {
                    work.push((s, i, j));
                }
            }
        }
    }
    let quick = run.quick();
    run.par("small trees under small settings", &work, |cx, &(s, i, j)| {
        // Marks of the nodes after the root; the root is always `o`
        let n = s.len();
        let third: &[(usize, usize, usize)] = if n > 2 { &marks } else { &marks[..1] };
        for (x, c) in third.iter().enumerate() {
            let all = [(0, (i + j) % 3, i % 2), marks[i], marks[j], *c];
            let mut doc = String::new();
            write_tree(s, &all, 0, &mut doc);
            let parsed = xml::parse(&doc).unwrap_or_else(|e| panic!("{e}: {doc}"));
            for (y, l) in settings.iter().enumerate() {
                for (w, way) in ways().iter().enumerate() {
                    // One target for each in the quick tier
                    if !quick || n < 3 || (x + y + i + j) % 4 == w {
                        try_one(cx, way, &doc, &parsed, Some(*l));
                    }
                }
                if cx.run.stopped() {
                    return;
                }
            }
        }
    });
}

/// Opens the first child `depth - 1` times, sets the limits there, and takes the rest of that element
fn set_at(d: &mut Deserializer<'_, '_>, depth: usize, l: L, whole: bool) -> Result<(), String> {
    let element = match d.next() {
        Some(Ok(Node::Open(element))) => element,
        Some(Ok(Node::Attribute(_))) => return set_at(d, depth, l, whole),
        Some(Err(e)) => return Err(e.to_string()),
        other => panic!("{other:?}"),
    };
    let mut inner = d.nested(element);
    if depth > 2 {
        return set_at(&mut inner, depth - 1, l, whole);
    }
    let mut inner = inner.with_limits(l.limits());
    match whole {
        true => inner.deserialize::<AnyElement<'_>>().map(|_| ()).map_err(|e| e.to_string()),
        false => inner.ignore().map_err(|e| e.to_string()),
    }
}

/// Limits set on the way, for what is inside of the element entered then
fn later(run: &Run) {
    let mut settings = Vec::new();
    for attrs in [0, 1, 2, 65, usize::MAX] {
        for levels in [0, 1, 2, 3, 4, 5, 6, 33, usize::MAX] {
            for decls in [0, 1, 33] {
                settings.push(L { attrs, levels, decls });
            }
        }
    }
    let first = [None, Some(DEFAULT), Some(L { attrs: 1, levels: 4, decls: 1 }), Some(L { attrs: 70, levels: 40, decls: 70 })];
    run.par("limits set on the way", &settings, |cx, &l| {
        for before in first {
            for depth in 2..=5 {
                for below in [0, 1, 2, 28, 40] {
                    for (n, m) in [(0, 0), (1, 0), (2, 0), (3, 0), (0, 1), (0, 2), (1, 1), (64, 0), (65, 0), (66, 0), (0, 32), (0, 33), (0, 34)] {
                        let open = "<o>".repeat(depth + below);
                        let close = "</o>".repeat(depth + below);
                        let doc = format!("{open}{}/>{close}", head("x", n, m, below % 4));
                        let outer = before.unwrap_or(DEFAULT);
                        // The start tags down to that element are read before
                        let ok = depth <= outer.levels
                            && (below == 0 || depth + below <= l.levels)
                            && depth + below < l.levels
                            && n <= l.attrs
                            && m <= l.decls;
                        for whole in [false, true] {
                            let label = format!("{before:?}, then {l:?} at level {depth} of {doc}");
                            cx.count(hash(&(&label, whole)));
                            let got = cx.guard("limits set on the way", &doc, || {
                                let mut d = Deserializer::new(&doc).map_err(|e| e.to_string())?;
                                if let Some(l) = before {
                                    d = d.with_limits(l.limits());
                                }
                                set_at(&mut d, depth, l, whole)
                            });
                            match (&got, ok) {
                                (Ok(Ok(())), true) => cx.accepted += 1,
                                (Ok(Err(_)), false) => cx.rejected += 1,
                                _ => cx.violation("limits set on the way", &label, if ok { "accepted" } else { "refused" }, &format!("{got:?}")),
                            }
                        }
                        if cx.run.stopped() {
                            return;
                        }
                    }
                }
            }
        }
    });
}
