//! C01, C02 and C20: every value of every type in the zoo, written and read.

use mcore::engine::{Cx, Run};
use mcore::gen;
use mcore::model::{Case, Val};
use mcore::nodes::{self, Look};
use mcore::{case, judge};

use super::common;
use crate::zoo::{misc, ns};

type Judge = fn(&mut Cx<'_>, &Case, &Val);

fn everything(run: &Run, j: Judge) {
    let rich = run.pick(common::quick_rich(), common::wide_rich());
    let cases = common::cases();
    run.par("all types", &cases, |cx, case| {
        for v in gen::values((case.ty)(), rich) {
            j(cx, case, &v);
            if cx.run.stopped() {
                return;
            }
        }
    });
    #[cfg(feature = "wide")]
    {
        let triples = crate::zoo::triples::cases();
        let rich = gen::Rich { scalars: 2, depth: 1, cap: 600, inner: 4, list: 2 };
        run.par("three fields", &triples, |cx, case| {
            for v in gen::values((case.ty)(), rich) {
                j(cx, case, &v);
            }
        });
    }
    trees(run, j);
    long(run, j);
    super::scale::values(run, &j);
    super::vocab::contents(run, &j);
}

fn trees(run: &Run, j: Judge) {
    let node = ns::case();
    let roots: Vec<usize> = (0..ns::count()).collect();
    run.par("container trees, up to 2 nodes", &roots, |cx, &r| ns::small(r, &mut |v| j(cx, &node, &v)));
    for full in [true, false] {
        run.par("container trees, 3 nodes", &roots, |cx, &r| {
            ns::three(r, full, &mut |v| {
                if !cx.run.stopped() {
                    j(cx, &node, &v)
                }
            })
        });
    }
    let core = ns::core();
    let few: Vec<usize> = run.pick(core.clone(), roots.clone());
    run.par("container trees, 4 nodes", &few, |cx, &r| {
        ns::four(r, &core, true, &mut |v| {
            if !cx.run.stopped() {
                j(cx, &node, &v)
            }
        })
    });
    if !run.quick() {
        let few: Vec<usize> = core.iter().copied().step_by(2).collect();
        run.par("container trees, 5 nodes", &roots, |cx, &r| {
            ns::five(r, &few, &mut |v| {
                if !cx.run.stopped() {
                    j(cx, &node, &v)
                }
            })
        });
    }
    let deep: Vec<(usize, usize)> =
        (0..ns::count()).flat_map(|a| (0..ns::count()).map(move |b| (a, b))).collect();
    run.par("alternating containers, 5 to 15 deep", &deep, |cx, &(a, b)| {
        for depth in [5, 8, 15] {
            for full in [false, true] {
                let mut v: Option<Val> = None;
                for i in 0..depth {
                    let k = if i % 2 == 0 { a } else { b };
                    let kids = match v.take() {
                        Some(v) => vec![v],
                        None => vec![],
                    };
                    v = ns::make(k, full, kids);
                    if v.is_none() {
                        return;
                    }
                }
                j(cx, &node, &v.unwrap());
            }
        }
    });
}

fn num(n: usize) -> Val {
    Val::S(n.to_string())
}

/// Long lists and deep nesting
fn long(run: &Run, j: Judge) {
    let max = run.pick(120, 1500);
    let lens: Vec<usize> = (0..=max).collect();
    let nums = case!(misc::E1<Vec<u32>>);
    let strs = case!(misc::E1<Vec<String>>);
    let tree = case!(misc::Tree);
    let chain = case!(misc::Chain);
    let singles = case!(misc::Singles);
    run.par("list lengths", &lens, |cx, &n| {
        j(cx, &nums, &Val::Rec(vec![Val::List((0..n).map(num).collect())]));
        let s = (0..n).map(|i| Val::S("x&".repeat(i % 3))).collect();
        j(cx, &strs, &Val::Rec(vec![Val::List(s)]));
        let leaf = |i: usize| Val::Rec(vec![num(i % 256), Val::None, Val::List(vec![])]);
        let v = Val::Rec(vec![num(1), Val::Some(Box::new(Val::S("n".into()))), Val::List((0..n).map(leaf).collect())]);
        j(cx, &tree, &v);
        let one = |i: usize| Val::Rec(vec![num(i % 256)]);
        let tr = Val::Rec(vec![Val::List(vec![num(3)])]);
        let v = Val::Rec(vec![Val::List((0..n.min(1)).map(one).collect()), Val::None, tr]);
        j(cx, &singles, &v);
    });
    let depths: Vec<usize> = (0..=30).collect();
    run.par("nesting depths", &depths, |cx, &n| {
        let mut v = Val::Rec(vec![num(0), Val::None, Val::List(vec![])]);
        let mut c = Val::Rec(vec![Val::None, Val::None, Val::Some(Box::new(num(1)))]);
        for i in 1..=n {
            let leaf = Val::Rec(vec![num(9), Val::Some(Box::new(Val::S(i.to_string()))), Val::List(vec![])]);
            v = Val::Rec(vec![num(i), Val::Some(Box::new(Val::S("é".into()))), Val::List(vec![leaf.clone(), v, leaf])]);
            let opt = |y: bool| if y { Val::Some(Box::new(num(i))) } else { Val::None };
            c = Val::Rec(vec![opt(i % 2 == 0), Val::Some(Box::new(c)), opt(i % 3 != 0)]);
        }
        j(cx, &tree, &v);
        j(cx, &chain, &c);
    });
}

pub fn c01(run: &Run) {
    everything(run, |cx, case, v| judge::round_trip(cx, case, v));
    super::holders::all(run);
    // What is known not to read back
    let probes: [(&str, Case, Val); 5] = [
        ("attribute-in-default-namespace", case!(misc::NsAttr), Val::Rec(vec![num(1)])),
        ("box-of-option", case!(misc::E1<Box<Option<u8>>>), Val::Rec(vec![Val::None])),
        ("box-of-vec", case!(misc::E1<Box<Vec<u8>>>), Val::Rec(vec![Val::List(vec![])])),
        ("tuple-option", case!(misc::T1<Option<crate::zoo::leaf::SL>>), Val::Rec(vec![Val::None])),
        (
            "list-attribute",
            case!(misc::A1<Vec<u8>>),
            Val::Rec(vec![Val::List(vec![num(1), num(2)])]),
        ),
    ];
    run.seq("known exceptions", |cx| {
        for (key, case, v) in &probes {
            let label = format!("{}: {v:?}", case.name);
            let got = cx.guard(case.name, &label, || {
                (case.to_string)(v).map_err(|e| format!("{e:?}")).and_then(|x| {
                    (case.de)(&x).map_err(|e| format!("{x} reads as {e:?}")).map(|w| (x, w))
                })
            });
            // Nothing is said of what is refused
            let refused = (case.to_string)(v).is_err();
            let holds = refused || matches!(&got, Ok(Ok((_, w))) if w == v);
            cx.run.probe(key, &label, "the value read back", &format!("{got:?}"), holds);
        }
    });
}

pub fn c02(run: &Run) {
    everything(run, |cx, case, v| judge::ser(cx, case, v));
    super::holders::all(run);
    nodes::explore(run, Look::Tree);
    run.seq("known exceptions", |cx| {
        let case = case!(misc::NsAmp);
        let v = Val::Rec(vec![]);
        let out = (case.to_string)(&v).unwrap_or_default();
        let ok = mcore::xml::parse(&out).is_ok_and(|d| d.open.is_none() && d.root.ns == "urn:a&b\"");
        cx.run.probe("namespace-uri-not-escaped", "NsAmp", "the URI escaped", &out, ok);
        let case = case!(misc::NsAttr);
        let v = Val::Rec(vec![num(1)]);
        let out = (case.to_string)(&v);
        // An error would do as well: the namespace has no prefix
        let ok = match &out {
            Ok(out) => mcore::xml::parse(out).is_ok_and(|d| d.root.attrs.len() == 1 && d.root.attrs[0].ns == "urn:own"),
            Err(_) => true,
        };
        cx.run.probe("attribute-in-default-namespace", "NsAttr { a: 1 }", "the attribute in urn:own", &format!("{out:?}"), ok);
    });
}

pub fn c20(run: &Run) {
    everything(run, |cx, case, v| judge::policy(cx, case, v));
    nodes::explore(run, Look::Policy);
}
