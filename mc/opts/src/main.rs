//! C17: derive options mean the same in both directions.

mod hand;

use mcore::engine::{hash, Cx, Run};
use mcore::gen::{self, Rich, Style, ALL_NS};
use mcore::model::Case;
use mcore::{judge, refser};

fn check(cx: &mut Cx<'_>, case: &Case) {
    let rich = match cx.run.quick() {
        true => Rich { scalars: 2, depth: 2, cap: 64, inner: 3, list: 2 },
        false => Rich { scalars: 6, depth: 2, cap: 1000, inner: 6, list: 3 },
    };
    let ty = (case.ty)();
    let vals = gen::values(ty, rich);
    for v in &vals {
        judge::ser(cx, case, v);
        judge::policy(cx, case, v);
        judge::round_trip(cx, case, v);
        if cx.run.stopped() {
            return;
        }
    }
    let some = gen::spread(vals, cx.run.pick(5, 40));
    for v in &some {
        let Ok(tree) = refser::ser(ty, v) else { continue };
        for ns in ALL_NS {
            for short in [false, true] {
                let doc = gen::print(&tree, Style { ns, short, ..gen::PLAIN });
                judge::de(cx, case, &doc);
            }
        }
        let mut edit = |t: &refser::OEl| {
            for ns in [gen::Ns::Default, gen::Ns::Root] {
                let doc = gen::print(t, Style { ns, ..gen::PLAIN });
                judge::de(cx, case, &doc);
            }
        };
        for path in gen::paths(&tree) {
            let here = gen::at(&tree, &path).clone();
            for name in gen::near_names(&here.name) {
                edit(&gen::edited(&tree, &path, |e| e.name = name));
            }
            for ns in gen::near_ns(&here.ns) {
                edit(&gen::edited(&tree, &path, |e| e.ns = ns));
            }
            for i in 0..here.attrs.len() {
                for name in gen::near_names(&here.attrs[i].1) {
                    edit(&gen::edited(&tree, &path, |e| e.attrs[i].1 = name));
                }
                for ns in gen::near_ns(&here.attrs[i].0).into_iter().chain([here.ns.clone()]) {
                    edit(&gen::edited(&tree, &path, |e| e.attrs[i].0 = ns));
                }
            }
        }
        if cx.run.stopped() {
            return;
        }
    }
}

fn c17(run: &Run) {
    let mut cases = Vec::new();
    let mut odd = hand::odd();
    opts_a::cases(&mut cases, &mut odd);
    opts_b::cases(&mut cases, &mut odd);
    opts_c::cases(&mut cases, &mut odd);
    opts_d::cases(&mut cases, &mut odd);
    run.par("generated types", &cases, check);
    run.par("generics, lifetimes and awkward names", &hand::cases(), check);
    run.par("checked by hand", &odd, |cx, (what, f)| {
        cx.count(hash(*what));
        match cx.guard("check", what, f) {
            Ok(Ok(())) => cx.accepted += 1,
            Ok(Err(e)) | Err(e) => cx.violation("by hand", what, "as documented", &e),
        }
    });
    let got = hand::attribute_with();
    let ok = got.contains("b=\\\"hex fe\\\"");
    run.probe("attribute-serialize-with-ignored", "SerAttr { b: 254 }", "<SerAttr b=\"hex fe\" />", &got, ok);
}

fn main() {
    mcore::engine::main(c17)
}
