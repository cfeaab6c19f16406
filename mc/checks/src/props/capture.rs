//! C14: captured elements against the reference tree.

use instant_xml::AnyElement;
use mcore::cursor::{self, KINDS, ROOTS, TEXTS};
use mcore::engine::{Cx, Run};
use mcore::model::{Case, Model as _, Val};
use mcore::{de_case, judge, refde, xml};

use super::common;
use crate::zoo::misc;

/// Fields and where they go
struct Holder {
    case: Case,
    before: &'static str,
    after: &'static str,
    /// The element twice, with something in between
    twice: Option<&'static str>,
}

fn holders() -> Vec<Holder> {
    let h = |case, before, after, twice| Holder { case, before, after, twice };
    vec![
        h(de_case!(AnyElement<'_>), "", "", None),
        h(de_case!(misc::AnyOne<'_>), "<AnyOne xmlns:p='urn:p'>", "</AnyOne>", None),
        h(de_case!(misc::AnyOne<'_>), "<AnyOne xmlns:p='urn:o' id='7'>t", "t</AnyOne>", None),
        h(de_case!(misc::AnyOpt<'_>), "<k:AnyOpt xmlns:k='urn:k' xmlns='urn:2'>", "</k:AnyOpt>", None),
        h(de_case!(misc::AnyMany<'_>), "<AnyMany xmlns='' xmlns:q='urn:p'><s>1</s>", "</AnyMany>", Some("<z xmlns='urn:z'/>")),
        h(de_case!(misc::AnyBox<'_>), "<AnyBox> ", "\n</AnyBox>", None),
        h(de_case!(misc::Two<AnyElement<'_>>), "<Two xmlns='urn:2'>", "</Two>", Some("")),
        h(de_case!(misc::Two<AnyElement<'_>>), "<Two xmlns='urn:2'>", "<more/></Two>", Some("<!-- -->")),
    ]
}

/// The owned form shows the same
fn owned(cx: &mut Cx<'_>, doc: &str) {
    let Ok(parsed) = xml::parse(doc) else { return };
    let want = Val::Any(Box::new(refde::any(&parsed.root)));
    let got = cx.guard("into_owned", doc, || {
        instant_xml::from_str::<AnyElement<'_>>(doc).map(|any| {
            let owned: AnyElement<'static> = any.clone().into_owned();
            (any == owned, owned.to_val())
        })
    });
    cx.transitions += 1;
    match got {
        Ok(Ok((true, v))) if v == want => {}
        other => cx.violation("into_owned", doc, &format!("{want:?}"), &format!("{other:?}")),
    }
}

fn all(cx: &mut Cx<'_>, holders: &[Holder], doc: &str) {
    owned(cx, doc);
    let mut buf = String::new();
    for h in holders {
        buf.clear();
        buf.push_str(h.before);
        buf.push_str(doc);
        if let Some(mid) = h.twice {
            buf.push_str(mid);
            buf.push_str(doc);
        }
        buf.push_str(h.after);
        judge::de(cx, &h.case, &buf);
    }
}

/// All assignments of `0..n` to `len` places, the first `given` fixed by the work item
fn counts(n: usize, len: usize, f: &mut dyn FnMut(&[usize]) -> bool) {
    let mut pick = vec![0; len];
    loop {
        if !f(&pick) {
            return;
        }
        let mut i = len;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            pick[i] += 1;
            if pick[i] < n {
                break;
            }
            pick[i] = 0;
        }
    }
}

const GAPS: [&str; 12] = [
    "", "t", "é&lt;", "<![CDATA[]]>", " ", "<!--c-->", "<![CDATA[a&]]>", "u<!-- - -->v", "&#x1F600;<![CDATA[]]]]>&gt;", "\n<!---->\n", "\t", "&#13;&#10;",
];

pub fn c14(run: &Run) {
    // Trees with every kind of tag
    let plan: &[(usize, usize)] = run.pick(&[(1, 9), (2, 9), (3, 9), (4, 9), (5, 3)], &[(1, 9), (2, 9), (3, 9), (4, 9), (5, 5), (6, 3), (7, 2)]);
    for &(nodes, kinds) in plan {
        let mut work = Vec::new();
        for s in cursor::shapes(nodes) {
            for r in 0..ROOTS.len() {
                for t in 0..TEXTS.len() {
                    work.push((s.clone(), r, t));
                }
            }
        }
        run.par(&format!("trees of {nodes} elements"), &work, |cx, (s, r, t)| {
            let holders = holders();
            counts(kinds, nodes - 1, &mut |pick| {
                let mut tags = vec![ROOTS[*r]];
                tags.extend(pick.iter().map(|&k| KINDS[k]));
                for short in [false, true] {
                    all(cx, &holders, &cursor::doc(s, &tags, TEXTS[*t], short));
                }
                !cx.run.stopped()
            });
        });
    }

    // Every content between the tags
    let shapes: Vec<_> = (1..=run.pick(3, 4)).flat_map(cursor::shapes).collect();
    let mut work = Vec::new();
    for s in &shapes {
        for g in 0..GAPS.len() {
            work.push((s.clone(), g));
        }
    }
    run.par("contents", &work, |cx, (s, g)| {
        let holders = holders();
        let places = 2 * s.len() + 1;
        let gaps = match s.len() {
            3 => 6,
            _ => GAPS.len(),
        };
        if *g >= gaps {
            return;
        }
        let tags = [ROOTS[2], KINDS[0], KINDS[2], KINDS[4]];
        counts(gaps, places - 1, &mut |pick| {
            let mut texts = vec![GAPS[*g]];
            texts.extend(pick.iter().map(|&p| GAPS[p]));
            let doc = cursor::doc(s, &tags[..s.len() + 1], &texts, false);
            owned(cx, &doc);
            judge::de(cx, &holders[0].case, &doc);
            !cx.run.stopped()
        });
    });

    // Attributes: all orders and subsets, with and without namespaces
    let differ = [
        "x='1'", "p:x='2'", "q:x=\"&lt;é\"", "xmlns:p='urn:2'", "xmlns='urn:d'", "y=''", "xml:x='3'", "p:y='a\"b'", "xmlns:q='urn:1'",
    ];
    // The same with one value for all
    let same = [
        "x='v'", "p:x='v'", "q:x='v'", "xmlns:p='v'", "xmlns='v'", "y='v'", "xml:x='v'", "p:y='v'", "xmlns:q='w'",
    ];
    let n = run.pick(5, 7);
    let heads: Vec<_> = [differ, same].into_iter().flat_map(|attrs| common::heads(&attrs).into_iter().map(move |h| (attrs, h))).collect();
    run.par("attributes", &heads, |cx, (attrs, head)| {
        let holders = holders();
        common::from_head(&["a", "b", "c", "d", "e", "f", "g", "h", "i"], &(tag(attrs, &head.0), head.1), n, &mut |code| {
            if cx.run.stopped() {
                return;
            }
            let picks: Vec<usize> = code.bytes().map(|b| (b - b'a') as usize).collect();
            if (1..picks.len()).any(|i| picks[..i].contains(&picks[i])) {
                return;
            }
            let list: String = picks.iter().map(|&i| format!(" {}", attrs[i])).collect();
            for doc in [
                format!("<a xmlns:p='urn:p' xmlns:q='urn:q'><b{list}><c{list}/></b></a>"),
                format!("<p:a xmlns:p='urn:p' xmlns:q='urn:q'><p:b{list}>t<c p:x='0'/></p:b></p:a>"),
            ] {
                all(cx, &holders, &doc);
            }
        });
    });

    let both = |cx: &mut Cx<'_>, doc: &str| {
        judge::de(cx, &de_case!(AnyElement<'_>), doc);
        owned_if(cx, doc);
    };
    super::scale::captured(run, &both);
    super::vocab::documents(run, &|cx, doc| {
        let holders = holders();
        for h in &holders {
            judge::de(cx, &h.case, &format!("{}{doc}{}", h.before, h.after));
        }
        owned_if(cx, doc);
    });

    // Long and deep
    run.seq("long and deep", |cx| {
        for n in [1, 2, 10, 28, 29, 30, 31, 32] {
            let mut doc = String::new();
            for i in 0..n {
                doc.push_str(&format!("t{i}<e{i} xmlns='urn:{i}'>"));
            }
            for i in (0..n).rev() {
                doc.push_str(&format!("u{i}</e{i}>v{i}"));
            }
            let doc = doc.trim_start_matches("t0").trim_end_matches("v0");
            judge::de(cx, &de_case!(AnyElement<'_>), doc);
            owned_if(cx, doc);
        }
        for n in [10usize, 100, 1000] {
            let mut doc = String::from("<a>");
            for i in 0..n {
                doc.push_str(&format!("{i}<b i='{i}'>{i}</b>"));
            }
            doc.push_str("</a>");
            judge::de(cx, &de_case!(AnyElement<'_>), &doc);
            owned_if(cx, &doc);
        }
    });
}

fn owned_if(cx: &mut Cx<'_>, doc: &str) {
    if refde::expect(AnyElement::ty(), doc).is_ok() {
        owned(cx, doc);
    }
}

/// One letter for each piece of the head
fn tag(attrs: &[&str], head: &str) -> String {
    let mut out = String::new();
    let mut rest = head;
    while !rest.is_empty() {
        let i = (0..attrs.len()).filter(|&i| rest.starts_with(attrs[i])).max_by_key(|&i| attrs[i].len()).unwrap();
        out.push((b'a' + i as u8) as char);
        rest = &rest[attrs[i].len()..];
    }
    out
}
