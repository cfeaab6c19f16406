//! C09: what a type does not ask for does not matter.

use mcore::engine::{Cx, Run};
use mcore::gen::{self, Ns, Style, ALL_NS};
use mcore::model::{Case, Ty, Val};
use mcore::refde::{self, No};
use mcore::refser::{OEl, OKid};
use mcore::judge;

use super::common;

/// The edited document must give the value of the original, unless what was inserted has a meaning
/// for the type after all (the reference knows)
pub fn same(cx: &mut Cx<'_>, case: &Case, orig: &Val, doc: &str) {
    match refde::expect((case.ty)(), doc) {
        Ok(v) if v == *orig => judge::de_want(cx, case, doc, &Ok(v)),
        // The insertion means something here
        Ok(_) | Err(No::Open(_)) | Err(No::Fail(_)) => cx.open += 1,
    }
}

/// Types whose named fields alone decide
pub fn plain_struct(ty: &'static Ty) -> bool {
    match ty {
        Ty::Struct(_) | Ty::Tuple(_) | Ty::UnitStruct(_) => true,
        Ty::Box(t) => plain_struct(t.get()),
        Ty::Forward(f) => f.variants.iter().all(|v| plain_struct(v.get())),
        _ => false,
    }
}

fn strangers(known: &[(String, String)]) -> Vec<OEl> {
    let mut out = vec![
        OEl::new("", "zz-unknown"),
        gen::leaf("urn:zz", "zz", "text & more"),
        {
            let mut e = OEl::new("urn:zz", "zz");
            e.attrs.push(("".into(), "id".into(), "1".into()));
            e.attrs.push(("urn:zz".into(), "v".into(), "2".into()));
            e.text("mixed");
            e.kids.push(OKid::E(gen::leaf("urn:zz", "zz", "deep")));
            e.text("content");
            e
        },
    ];
    // Known names deeper down, and in another namespace
    let mut e = OEl::new("", "zz-outer");
    for (ns, name) in known.iter().take(6) {
        e.kids.push(OKid::E(gen::leaf(ns, name, "1")));
        let mut deep = OEl::new("urn:zz", "zz");
        deep.kids.push(OKid::E(OEl::new(ns, name)));
        e.kids.push(OKid::E(deep));
    }
    out.push(e);
    for (_, name) in known.iter().take(3) {
        out.push(gen::leaf("urn:zz", name, "1"));
    }
    out
}

fn known(tree: &OEl) -> Vec<(String, String)> {
    let mut out = Vec::new();
    for p in gen::paths(tree) {
        let e = gen::at(tree, &p);
        let id = (e.ns.clone(), e.name.clone());
        if !out.contains(&id) {
            out.push(id);
        }
    }
    out
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = Vec::new();
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

pub fn c09(run: &Run) {
    let rich = run.pick(common::small_rich(), common::quick_rich());
    let mut corpus = common::corpus(rich, run.pick(10, 60), true);
    corpus.retain(|i| plain_struct((i.case.ty)()));
    let corpus = &corpus;

    super::vocab::strangers(run);

    run.par("inserted elements", corpus, |cx, item| {
        for tree in &item.trees {
            let Ok(orig) = refde::expect((item.case.ty)(), &gen::print(tree, gen::PLAIN)) else { continue };
            let strange = strangers(&known(tree));
            for path in gen::paths(tree) {
                let places = gen::at(tree, &path).kids.len() + 1;
                for at in 0..places {
                    for s in &strange {
                        let t = gen::edited(tree, &path, |e| e.kids.insert(at, OKid::E(s.clone())));
                        for st in [gen::PLAIN, Style { ns: Ns::Shadow, short: true, ..gen::PLAIN }] {
                            same(cx, &item.case, &orig, &gen::print(&t, st));
                        }
                    }
                    if cx.run.stopped() {
                        return;
                    }
                }
                // Everywhere at once
                let t = gen::edited(tree, &path, |e| {
                    let mut kids = vec![OKid::E(strange[2].clone())];
                    for k in e.kids.drain(..) {
                        kids.push(k);
                        kids.push(OKid::E(strange[0].clone()));
                        kids.push(OKid::E(strange[3].clone()));
                    }
                    e.kids = kids;
                });
                same(cx, &item.case, &orig, &gen::print(&t, gen::PLAIN));
            }
        }
    });

    run.par("inserted attributes", corpus, |cx, item| {
        for tree in &item.trees {
            let Ok(orig) = refde::expect((item.case.ty)(), &gen::print(tree, gen::PLAIN)) else { continue };
            let mut names: Vec<(String, String)> = vec![
                ("".into(), "zz".into()),
                ("urn:zz".into(), "zz".into()),
                (mcore::xml::XML_NS.into(), "lang".into()),
                (mcore::xml::XML_NS.into(), "space".into()),
            ];
            for (ns, name) in known(tree) {
                // Names of elements, as attributes
                names.push((ns.clone(), name.clone()));
                names.push(("".into(), name));
            }
            for path in gen::paths(tree) {
                let here = gen::at(tree, &path);
                for (_, name, _) in here.attrs.clone() {
                    names.push(("urn:zz".into(), name));
                }
                for (ns, name) in &names {
                    if here.attrs.iter().any(|(n, l, _)| n == ns && l == name) {
                        continue;
                    }
                    for at in [0, here.attrs.len()] {
                        let t = gen::edited(tree, &path, |e| {
                            e.attrs.insert(at, (ns.clone(), name.clone(), "1".into()))
                        });
                        for st in [gen::PLAIN, Style { ns: Ns::Root, decls_last: true, ..gen::PLAIN }] {
                            same(cx, &item.case, &orig, &gen::print(&t, st));
                        }
                    }
                }
                // All of them at once, and on every element at once
                let more = |e: &mut OEl| {
                    let old = std::mem::take(&mut e.attrs);
                    let mut i = 0;
                    for (ns, name) in &names {
                        if e.attrs.iter().chain(&old).any(|(n, l, _)| n == ns && l == name) {
                            continue;
                        }
                        e.attrs.push((ns.clone(), name.clone(), "1".into()));
                        if let Some(a) = old.get(i) {
                            e.attrs.push(a.clone());
                        }
                        i += 1;
                    }
                    e.attrs.extend(old.into_iter().skip(i));
                };
                let t = gen::edited(tree, &path, more);
                same(cx, &item.case, &orig, &gen::print(&t, gen::PLAIN));
                if path.is_empty() {
                    let mut t = tree.clone();
                    for p in gen::paths(tree) {
                        more(gen::at_mut(&mut t, &p));
                    }
                    same(cx, &item.case, &orig, &gen::print(&t, gen::PLAIN));
                    same(cx, &item.case, &orig, &gen::print(&t, common::SHORT));
                }
                if cx.run.stopped() {
                    return;
                }
            }
        }
    });

    // Every two things at every two places
    let two = &corpus;
    run.par("pairs of insertions", two, |cx, item| {
        for tree in item.trees.iter().take(cx.run.pick(4, 60)) {
            for st in [gen::PLAIN, Style { ns: Ns::Mixed, short: true, ..gen::PLAIN }] {
                let doc = gen::print(tree, st);
                let Ok(orig) = refde::expect((item.case.ty)(), &doc) else { continue };
                let toks = common::tokens(&doc);
                if toks.len() > cx.run.pick(24, 40) {
                    continue;
                }
                let known = known(tree);
                let mut menu: Vec<String> = vec![
                    "<!--c-->".into(),
                    "\n ".into(),
                    "<zz/>".into(),
                    "<z:z xmlns:z='urn:zz' a='1'>t<z:z/></z:z>".into(),
                ];
                if let Some((_, name)) = known.last() {
                    menu.push(format!("<{name} xmlns='urn:zz'>1</{name}>"));
                    menu.push(format!("<zz><{name}>1</{name}</zz>").replace(&format!("</{name}</zz>"), &format!("</{name}></zz>")));
                }
                let attrs = [" zz='1'", " xmlns:zz='urn:zz'", " xml:lang='e'"];
                // Sites: (token, where in it, what)
                let mut sites: Vec<(usize, usize, String)> = Vec::new();
                for (i, t) in toks.iter().enumerate() {
                    if i > 0 {
                        sites.extend(menu.iter().map(|m| (i, 0, m.clone())));
                    }
                    if t.starts_with('<') && !t.starts_with("</") && !t.starts_with("<!") {
                        let first = t.find([' ', '>', '/']).unwrap();
                        let last = t.len() - if t.ends_with("/>") { 2 } else { 1 };
                        for a in attrs {
                            sites.push((i, first, a.to_owned()));
                            if last != first {
                                sites.push((i, last, a.to_owned()));
                            }
                        }
                    }
                }
                for (k, a) in sites.iter().enumerate() {
                    for b in &sites[k..] {
                        // The same attribute twice
                        if a.0 == b.0 && a.1 > 0 && a.2 == b.2 {
                            continue;
                        }
                        let mut new = String::new();
                        for (i, t) in toks.iter().enumerate() {
                            let mut here: Vec<(usize, &str)> = Vec::new();
                            for s in [a, b] {
                                if s.0 == i {
                                    here.push((s.1, &s.2));
                                }
                            }
                            here.sort_by_key(|h| h.0);
                            let mut done = 0;
                            for (at, s) in here {
                                new.push_str(&t[done..at]);
                                new.push_str(s);
                                done = at;
                            }
                            new.push_str(&t[done..]);
                        }
                        same(cx, &item.case, &orig, &new);
                    }
                    if cx.run.stopped() {
                        return;
                    }
                }
            }
        }
    });

    run.par("inserted comments, white space and declarations", corpus, |cx, item| {
        for tree in &item.trees {
            for st in [gen::PLAIN, Style { ns: Ns::Root, short: true, ..gen::PLAIN }] {
                let doc = gen::print(tree, st);
                let Ok(orig) = refde::expect((item.case.ty)(), &doc) else { continue };
                let toks = common::tokens(&doc);
                for i in 0..=toks.len() {
                    for new in ["<!-- c -->", "<!--<v>1</v>-->", "<!---->", " ", "\n\t", "<!--a--> <!--b-->", " xmlns=''", "<![CDATA[]]>"] {
                        let mut t = toks.clone();
                        t.insert(i, new);
                        same(cx, &item.case, &orig, &t.concat());
                    }
                    // A comment inside text
                    if let Some(text) = toks.get(i).filter(|t| !t.starts_with('<')) {
                        for (k, c) in text.char_indices() {
                            if c == ';' || text[..k].contains('&') {
                                break;
                            }
                            let cut = format!("{}<!--c-->{}", &text[..k], &text[k..]);
                            let mut t = toks.clone();
                            t[i] = &cut;
                            same(cx, &item.case, &orig, &t.concat());
                        }
                    }
                }
                // Between all of them
                for sep in ["<!--c-->", "\n"] {
                    same(cx, &item.case, &orig, &toks.join(sep));
                }
                for lead in [
                    "<?xml version=\"1.0\"?>",
                    "<?xml version='1.0' encoding='UTF-8'?>\n",
                    "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?><!--c-->",
                    "\u{FEFF}",
                    "\n<!--c-->\n",
                ] {
                    same(cx, &item.case, &orig, &format!("{lead}{doc}"));
                    same(cx, &item.case, &orig, &format!("{lead}{doc}\n<!--end-->\n"));
                }
                if cx.run.stopped() {
                    return;
                }
            }
        }
    });

    // All forms of the XML declaration
    let mut decls = Vec::new();
    for version in ["version=\"1.0\"", "version='1.0'", "version = '1.0'"] {
        for encoding in ["", " encoding='UTF-8'", " encoding=\"utf-8\"", "\n\tencoding\n= \"Utf-8\""] {
            for alone in ["", " standalone='yes'", " standalone=\"no\"", "  standalone =\t'yes'"] {
                for end in ["", " ", "\n"] {
                    decls.push(format!("<?xml {version}{encoding}{alone}{end}?>"));
                }
            }
        }
    }
    run.par("forms of the XML declaration", corpus, |cx, item| {
        let Some(tree) = item.trees.last() else { return };
        let doc = gen::print(tree, gen::PLAIN);
        let Ok(orig) = refde::expect((item.case.ty)(), &doc) else { return };
        for d in &decls {
            for sep in ["", "\n", "<!--c-->"] {
                same(cx, &item.case, &orig, &format!("{d}{sep}{doc}"));
            }
        }
    });

    run.par("spellings of tags", corpus, |cx, item| {
        for tree in &item.trees {
            let Ok(orig) = refde::expect((item.case.ty)(), &gen::print(tree, gen::PLAIN)) else { continue };
            for ns in ALL_NS {
                for quote in ['"', '\''] {
                    for short in [false, true] {
                        for pad in ["", " ", "\n\t"] {
                            for decls_last in [false, true] {
                                let st = Style { ns, quote, short, pad, decls_last };
                                let doc = gen::print(tree, st);
                                judge::de_want(cx, &item.case, &doc, &Ok(orig.clone()));
                            }
                        }
                    }
                }
            }
            if cx.run.stopped() {
                return;
            }
        }
    });

    let rich = run.pick(common::quick_rich(), common::quick_rich());
    let mut corpus = common::corpus(rich, run.pick(20, 60), true);
    corpus.retain(|i| plain_struct((i.case.ty)()));
    run.par("reordered fields", &corpus, |cx, item| {
        let max = if cx.run.quick() { 5 } else { 6 };
        for tree in &item.trees {
            let Ok(orig) = refde::expect((item.case.ty)(), &gen::print(tree, gen::PLAIN)) else { continue };
            for path in gen::paths(tree) {
                let here = gen::at(tree, &path).clone();
                let n = here.kids.len();
                let orders = match n {
                    0 | 1 => vec![],
                    n if n <= max => permutations(n),
                    n => (0..n).map(|r| (0..n).map(|i| (i + r) % n).collect()).collect(),
                };
                for order in orders {
                    // Elements of the same name keep their order
                    let mixed: Vec<OKid> = order.iter().map(|&i| here.kids[i].clone()).collect();
                    let t = gen::edited(tree, &path, |e| e.kids = mixed);
                    same(cx, &item.case, &orig, &gen::print(&t, gen::PLAIN));
                }
                let n = here.attrs.len();
                if n > 1 && n <= 4 {
                    for order in permutations(n) {
                        let mixed = order.iter().map(|&i| here.attrs[i].clone()).collect();
                        let t = gen::edited(tree, &path, |e| e.attrs = mixed);
                        same(cx, &item.case, &orig, &gen::print(&t, gen::PLAIN));
                    }
                }
                if cx.run.stopped() {
                    return;
                }
            }
        }
    });
    super::scale::strangers(run);
}
