//! C03: names are expanded names, however they are spelled.

use mcore::engine::Run;
use mcore::gen::{self, Style, ALL_NS};
use mcore::model::Case;
use mcore::refser::{OEl, OKid};
use mcore::{case, de_case, judge, refde, refser};

use super::common;
use crate::zoo::{misc, ns, scope};

/// Declarations an element may have
const DECLS: [&str; 13] = [
    "",
    " xmlns=\"urn:a\"",
    " xmlns=\"urn:b\"",
    " xmlns=\"\"",
    " xmlns:p=\"urn:a\"",
    " xmlns:p=\"urn:b\"",
    " xmlns:q=\"urn:a\"",
    " xmlns:p=\"urn:a\" xmlns:q=\"urn:b\"",
    " xmlns=\"urn:a\" xmlns:p=\"urn:b\"",
    " xmlns:p=\"urn:b\" xmlns=\"urn:a\" xmlns:q=\"urn:a\"",
    " xmlns:p=\"urn:a\" xmlns=\"urn:b\"",
    " xmlns:q=\"urn:b\" xmlns=\"\"",
    " xmlns:p=\"urn:ab\"",
];

const PREFIXES: [&str; 3] = ["", "p:", "q:"];

/// Start tags without the final bracket, and their names
fn starts(local: &str, decls: usize, attrs: &[&str]) -> Vec<(String, String)> {
    let mut out = Vec::new();
    for prefix in PREFIXES {
        for d in &DECLS[..decls] {
            for (i, a) in attrs.iter().enumerate() {
                // Attributes before and after the declarations
                match i % 2 {
                    0 => out.push((format!("{prefix}{local}"), format!("<{prefix}{local}{d}{a}"))),
                    _ => out.push((format!("{prefix}{local}"), format!("<{prefix}{local}{a}{d}"))),
                }
            }
        }
    }
    out
}

fn renamed(start: &(String, String), local: &str) -> (String, String) {
    let f = |s: &str, lead: &str| -> String {
        // Only the first occurrence is the name
        let name = &start.0;
        let new = format!("{}{local}", &name[..name.len() - 1]);
        s.replacen(&format!("{lead}{name}"), &format!("{lead}{new}"), 1)
    };
    (f(&start.0, ""), f(&start.1, "<"))
}

pub fn c03(run: &Run) {
    spellings(run);
    misses(run);
    near_namespaces(run);
    super::scale::distances(run);
    super::vocab::prefixes(run);
    run.seq("known exceptions", |cx| {
        let case = case!(misc::NsAmp);
        let doc = "<NsAmp xmlns='urn:a&amp;b&quot;'/>";
        let got = cx.guard(case.name, doc, || (case.de)(doc));
        let ok = matches!(&got, Ok(Ok(_)));
        cx.run.probe("namespace-reference-not-expanded", doc, "the value", &judge::show(&got), ok);
    });

    let sel = case!(scope::Any3);
    let any = de_case!(instant_xml::AnyElement<'_>);
    let kinds: [Case; 2] = [sel, any];
    let decls = run.pick(9, 13);

    // Three elements with attributes
    let attrs = ["", " x=\"1\"", " p:x=\"2\"", " q:x=\"3\"", " x=\"4\" p:x=\"5\""];
    let tags = starts("e", decls, &attrs[..run.pick(4, 5)]);
    run.par("scopes of 2 and 3 elements", &tags, |cx, root| {
        let mut doc = String::new();
        for a in &tags {
            for case in &kinds {
                doc.clear();
                doc.push_str(&format!("{}>{}/></{}>", root.1, a.1, root.0));
                judge::de(cx, case, &doc);
            }
            for b in &tags {
                if cx.run.stopped() {
                    return;
                }
                for (i, case) in kinds.iter().enumerate() {
                    // Children next to each other for one type, nested for the other, and both in
                    // the thorough tier
                    if i == 0 || !cx.run.quick() {
                        doc.clear();
                        doc.push_str(&format!("{}>{}/>{}/></{}>", root.1, a.1, b.1, root.0));
                        judge::de(cx, case, &doc);
                    }
                    if i == 0 || !cx.run.quick() {
                        doc.clear();
                        doc.push_str(&format!("{}>{}>{}></{}></{}></{}>", root.1, a.1, b.1, b.0, a.0, root.0));
                        judge::de(cx, case, &doc);
                    }
                }
            }
        }
    });

    // Four elements, no attributes
    let tags = starts("e", run.pick(7, 9), &[""]);
    run.par("scopes of 4 elements", &tags, |cx, root| {
        let mut doc = String::new();
        for a in &tags {
            for b in &tags {
                for c in &tags {
                    if cx.run.stopped() {
                        return;
                    }
                    let shapes: [String; 4] = [
                        format!("{}>{}/></{}>{}/>", a.1, b.1, a.0, c.1),
                        format!("{}/>{}>{}/></{}>", a.1, b.1, c.1, b.0),
                        format!("{}>{}>{}/></{}></{}>", a.1, b.1, c.1, b.0, a.0),
                        format!("{}>{}/>{}></{}></{}>", a.1, b.1, c.1, c.0, a.0),
                    ];
                    for s in &shapes {
                        doc.clear();
                        doc.push_str(&root.1);
                        doc.push('>');
                        doc.push_str(s);
                        doc.push_str("</");
                        doc.push_str(&root.0);
                        doc.push('>');
                        judge::de(cx, &sel, &doc);
                    }
                }
            }
        }
    });

    // Scalar fields told apart by their namespaces
    let kinds = [case!(scope::FieldsNone), case!(scope::FieldsA), case!(scope::FieldsB)];
    let roots = starts("r", 13, &[""]);
    let kids = starts("e", run.pick(9, 13), &[""]);
    run.par("scopes of scalar fields", &roots, |cx, root| {
        let mut doc = String::new();
        for a in &kids {
            for b in &kids {
                for (na, nb) in [("e", "e"), ("f", "f"), ("e", "g"), ("g", "f"), ("h", "e"), ("f", "h")] {
                    let (a, b) = (renamed(a, na), renamed(b, nb));
                    for case in &kinds {
                        doc.clear();
                        doc.push_str(&format!("{}>{}>Y</{}>{}>n</{}></{}>", root.1, a.1, a.0, b.1, b.0, root.0));
                        judge::de(cx, case, &doc);
                    }
                }
                if cx.run.stopped() {
                    return;
                }
            }
        }
    });
}

/// Every tree in every spelling gives the value it was made from
fn spellings(run: &Run) {
    let rich = run.pick(common::small_rich(), common::quick_rich());
    let corpus = common::corpus(rich, run.pick(24, 200), true);
    run.par("spellings of all types", &corpus, |cx, item| {
        for tree in &item.trees {
            for ns in ALL_NS {
                for decls_last in [false, true] {
                    let doc = gen::print(tree, Style { ns, decls_last, ..gen::PLAIN });
                    judge::de(cx, &item.case, &doc);
                }
            }
        }
    });
    // Container trees, compared with the value directly
    let node = ns::case();
    let roots: Vec<usize> = (0..ns::count()).collect();
    run.par("spellings of container trees", &roots, |cx, &r| {
        let mut visit = |v: mcore::model::Val| {
            if cx.run.stopped() {
                return;
            }
            let tree = refser::ser((node.ty)(), &v).unwrap();
            for ns in ALL_NS {
                let doc = gen::print(&tree, Style { ns, ..gen::PLAIN });
                judge::de_want(cx, &node, &doc, &Ok(v.clone()));
            }
        };
        ns::small(r, &mut visit);
        if !run.quick() {
            ns::three(r, true, &mut visit);
        }
    });
}

/// Names that are nearly right
fn misses(run: &Run) {
    let corpus = common::corpus(common::small_rich(), run.pick(8, 40), true);
    run.par("near misses", &corpus, |cx, item| {
        for tree in &item.trees {
            for path in gen::paths(tree) {
                let here = gen::at(tree, &path).clone();
                for name in gen::near_names(&here.name) {
                    let t = gen::edited(tree, &path, |e| e.name = name.clone());
                    check(cx, &item.case, &t);
                }
                for ns in gen::near_ns(&here.ns) {
                    let t = gen::edited(tree, &path, |e| e.ns = ns.clone());
                    check(cx, &item.case, &t);
                }
                for i in 0..here.attrs.len() {
                    for name in gen::near_names(&here.attrs[i].1) {
                        let t = gen::edited(tree, &path, |e| e.attrs[i].1 = name.clone());
                        check(cx, &item.case, &t);
                    }
                    for ns in gen::near_ns(&here.attrs[i].0).into_iter().chain([here.ns.clone()]) {
                        let t = gen::edited(tree, &path, |e| e.attrs[i].0 = ns.clone());
                        check(cx, &item.case, &t);
                    }
                }
            }
        }
    });
}

/// Namespaces that are nearly right, all of them
fn near_namespaces(run: &Run) {
    let kinds: Vec<(Case, &str, &str)> = vec![
        (case!(scope::InA), "<e xmlns='@'><e/></e>", "urn:a"),
        (case!(scope::InA), "<p:e xmlns:p='@' p:x='1'/>", "urn:a"),
        (case!(scope::InA), "<e xmlns='urn:a' xmlns:p='@' p:x='1'/>", "urn:a"),
        (case!(scope::InA), "<e xmlns='urn:a'><p:e xmlns:p='@'/></e>", "urn:a"),
        (case!(scope::InA), "<e xmlns='urn:a'><e xmlns='@'/></e>", "urn:a"),
        (case!(scope::FieldsA), "<r xmlns='urn:a'><e xmlns='@'>1</e><f xmlns='@'>2</f></r>", "urn:a"),
        (case!(scope::FieldsA), "<r xmlns='urn:a' xmlns:p='@'><p:g>Y</p:g><p:e>1</p:e></r>", "urn:b"),
        (case!(scope::Any3), "<e xmlns='@' xmlns:p='@' p:x='1'><p:e/></e>", "urn:b"),
        (de_case!(instant_xml::AnyElement<'_>), "<e xmlns='@' xmlns:p='@' p:x='1'><p:e/></e>", "urn:a"),
        (de_case!(instant_xml::AnyElement<'_>), "<e xmlns='urn:a' xmlns:p='@' p:x='1'><e xmlns='@' x='2'/></e>", "urn:b"),
    ];
    run.par("namespaces nearly right", &kinds, |cx, (case, form, ns)| {
        for near in gen::all_near_ns(ns) {
            judge::de(cx, case, &form.replace('@', &near));
        }
    });
}

fn check(cx: &mut mcore::engine::Cx<'_>, case: &Case, tree: &OEl) {
    for ns in [gen::Ns::Default, gen::Ns::Root] {
        let doc = gen::print(tree, Style { ns, ..gen::PLAIN });
        judge::de(cx, case, &doc);
    }
}

#[allow(dead_code)]
fn unused(_: &OKid) {
    let _ = refde::MAX_LEVELS;
}
