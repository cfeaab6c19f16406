//! C18: document types, entities and processing instructions are refused wherever they occur.

use mcore::engine::{hash, Cx, Run};
use mcore::gen::{self, Ns, Style};
use mcore::model::Case;
use mcore::{case, de_case, judge, refde};

use super::common;
use crate::zoo::misc;

/// What must never be accepted in a document
const FORBIDDEN: [&str; 22] = [
    "<!DOCTYPE r>",
    "<!DOCTYPE r []>",
    "<!DOCTYPE r [<!ENTITY e \"x\">]>",
    "<!DOCTYPE r [<!ENTITY e \"&#38;e;&#38;e;\"><!ENTITY f \"&e;\">]>",
    "<!DOCTYPE r [<!ENTITY % e \"x\">%e;]>",
    "<!DOCTYPE r SYSTEM \"r.dtd\">",
    "<!DOCTYPE r PUBLIC \"-//R\" \"r.dtd\" [\n]>",
    "<!DOCTYPE r SYSTEM 'file:///etc/passwd' [<!ENTITY amp \"x\">]>",
    "<!DOCTYPE r [<!ELEMENT r (#PCDATA)>]>",
    "<!DOCTYPE r [<!ATTLIST r v CDATA \"1\">]>",
    "<!DOCTYPE r [<!NOTATION n SYSTEM \"n\">]>",
    "<!DOCTYPE r [<!--c--><?p i?>]>",
    "<!ENTITY e \"x\">",
    "<!ENTITY e SYSTEM \"x\">",
    "<!ELEMENT r ANY>",
    "<!ATTLIST r v CDATA \"1\">",
    "<!doctype r>",
    "<?p?>",
    "<?p i?>",
    "<?xml-stylesheet href=\"s.css\"?>",
    "<?p <a></a> ?>",
    "<!>",
];

/// Fine at the very start only
const DECLS: [&str; 4] = [
    "<?xml version=\"1.0\"?>",
    "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone='yes'?>",
    "<?xml version='1.1'?>",
    "<?xml?>",
];

fn refuse(cx: &mut Cx<'_>, case: &Case, doc: &str) {
    cx.count(hash(&(case.name, doc)));
    let got = cx.guard(case.name, doc, || (case.de)(doc));
    cx.sample(|| format!("{}: {doc}", case.name));
    match got {
        Ok(Err(_)) => cx.rejected += 1,
        _ => cx.violation("forbidden", &format!("{}: {doc}", case.name), "an error", &judge::show(&got)),
    }
}

/// Between any two pieces of the document
fn put(cx: &mut Cx<'_>, case: &Case, doc: &str, toks: &[&str], what: &str, start: bool) {
    let mut at = 0;
    let mut buf = String::new();
    for i in 0..=toks.len() {
        if i > 0 || start {
            for after in ["", " "] {
                buf.clear();
                buf.push_str(&doc[..at]);
                buf.push_str(what);
                buf.push_str(after);
                buf.push_str(&doc[at..]);
                refuse(cx, case, &buf);
            }
        }
        at += toks.get(i).map_or(0, |t| t.len());
    }
}

/// References to entities of other names, with and without a declaration
const ENTITIES: [&str; 22] = [
    "&e;", "&nbsp;", "&copy;", "&AMP;", "&Lt;", "&amp", "&amp ;", "&;", "&&;", "&%e;", "&am;", "&ampx;", "&quote;", "&apo;", "&gtt;", "&xml;",
    "&r;", "&l t;", "&e.f;", "&e:f;", "&_;", "&é;",
];

pub fn c18(run: &Run) {
    let rich = run.pick(common::small_rich(), common::quick_rich());
    let corpus = common::corpus(rich, run.pick(6, 40), true);
    let styles: &[Style] = &[
        gen::PLAIN,
        Style { short: true, ns: Ns::Root, ..gen::PLAIN },
        Style { pad: "\n", quote: '\'', ns: Ns::Local, decls_last: true, ..gen::PLAIN },
    ];
    let styles = &styles[..run.pick(2, 3)];

    run.par("declarations and instructions", &corpus, |cx, item| {
        let ty = (item.case.ty)();
        for tree in &item.trees {
            for st in styles {
                let doc = gen::print(tree, *st);
                // Only in documents that are accepted without
                if refde::expect(ty, &doc).is_err() {
                    continue;
                }
                judge::de(cx, &item.case, &doc);
                let toks = common::tokens(&doc);
                for what in FORBIDDEN {
                    put(cx, &item.case, &doc, &toks, what, true);
                    // Also after a declaration
                    refuse(cx, &item.case, &format!("{}{what}{doc}", DECLS[0]));
                    refuse(cx, &item.case, &format!("{} \n<!--c-->{what}\n{doc}", DECLS[1]));
                }
                for what in DECLS {
                    put(cx, &item.case, &doc, &toks, what, false);
                    refuse(cx, &item.case, &format!(" {what}{doc}"));
                    refuse(cx, &item.case, &format!("<!--c-->{what}{doc}"));
                    refuse(cx, &item.case, &format!("{what}{what}{doc}"));
                }
                // Inside an element that the type ignores
                let mut odd = tree.clone();
                odd.kids.insert(0, mcore::refser::OKid::E(gen::leaf("urn:odd", "odd", "HERE")));
                let doc = gen::print(&odd, *st);
                for what in FORBIDDEN.iter().chain(&DECLS) {
                    refuse(cx, &item.case, &doc.replace("HERE", what));
                    refuse(cx, &item.case, &doc.replace("HERE", &format!("t{what}<b/>")));
                    refuse(cx, &item.case, &doc.replace("HERE", &format!("<b>{what}</b>")));
                }
                if cx.run.stopped() {
                    return;
                }
            }
        }
    });

    // Undeclared and declared entities in every text and attribute that is read
    run.par("entities", &corpus, |cx, item| {
        let ty = (item.case.ty)();
        for tree in &item.trees {
            let doc = gen::print(tree, gen::PLAIN);
            if refde::expect(ty, &doc).is_err() {
                continue;
            }
            let holes = holes(&doc);
            for e in ENTITIES {
                for &at in &holes {
                    let new = format!("{}{e}{}", &doc[..at], &doc[at..]);
                    refuse(cx, &item.case, &new);
                    refuse(
                        cx,
                        &item.case,
                        &format!("<!DOCTYPE r [<!ENTITY {} \"1\">]>{new}", e.trim_matches(['&', ';'])),
                    );
                }
                if cx.run.stopped() {
                    return;
                }
            }
        }
    });

    // Two of them, and constructs letter by letter
    let any: Vec<Case> = vec![
        de_case!(instant_xml::AnyElement<'_>),
        case!(misc::E1<String>),
        case!(misc::D1<String>),
        case!(misc::E1<Option<u8>>),
        case!(misc::AttrsOnly),
    ];
    let names = ["AnyElement", "E1", "D1", "E1", "AttrsOnly"];
    let pieces = [
        "<!", "<?", "?>", ">", "DOCTYPE", "ENTITY", " ", "xml", "r", "[", "]", "\"", "e", "version=\"1.0\"", "-->", "<!--", "&e;", "%", "'", "SYSTEM",
    ];
    let max = run.pick(4, 5);
    run.par("pieces of declarations", &common::heads(&pieces), |cx, head| {
        common::from_head(&pieces, head, max, &mut |s| {
            if cx.run.stopped() {
                return;
            }
            for (case, n) in any.iter().zip(names) {
                let body = match n {
                    "E1" => "<v>1</v>",
                    "AttrsOnly" => "",
                    _ => "t",
                };
                let tag = match n {
                    "AttrsOnly" => "AttrsOnly b='1'",
                    n => n,
                };
                for doc in [
                    format!("{s}<{tag}>{body}</{n}>"),
                    format!("<{tag}>{s}{body}</{n}>"),
                    format!("<{tag}>{body}</{n}>{s}"),
                ] {
                    judge::de(cx, case, &doc);
                }
            }
        });
    });

    use super::malformed::{R, RDirect, RUnit, V};
    let kinds: Vec<Case> = vec![
        de_case!(instant_xml::AnyElement<'_>),
        case!(R<Option<V>>),
        case!(R<Vec<u8>>),
        case!(RUnit),
        case!(RDirect),
        de_case!(R<()>),
    ];
    let mut faults = FORBIDDEN.to_vec();
    faults.push("&e;");
    super::scale::faults(run, &refuse, &kinds, &faults);

    // Decoded text is never longer than its source
    run.seq("length of decoded text", |cx| {
        let case = de_case!(instant_xml::AnyElement<'_>);
        for r in ["&amp;", "&lt;", "&#9;", "&#x1F600;", "&#128512;", "&#xA;", "&#169;", "&#x20AC;"] {
            for n in [1, 2, 10, 1000] {
                let text = r.repeat(n);
                let doc = format!("<a b='{text}'>{text}</a>");
                judge::de(cx, &case, &doc);
                let got = cx.guard(case.name, &doc, || {
                    instant_xml::from_str::<instant_xml::AnyElement<'_>>(&doc)
                        .map(|a| (a.attributes[0].value.len(), a.text.map_or(0, |t| t.len())))
                });
                cx.count(hash(&(r, n)));
                match got {
                    Ok(Ok((a, b))) if a <= text.len() && b <= text.len() => cx.accepted += 1,
                    other => cx.violation("length", &doc, "no longer than the source", &format!("{other:?}")),
                }
            }
        }
    });
}

/// Places for more character data: in attribute values and next to text
fn holes(doc: &str) -> Vec<usize> {
    let mut out = Vec::new();
    let mut at = 0;
    for tok in common::tokens(doc) {
        match tok.starts_with('<') {
            true => {
                let mut open = false;
                let mut decl = false;
                for (i, c) in tok.char_indices() {
                    if c == '"' {
                        open = !open;
                        if open {
                            decl = tok[..i].rsplit(' ').next().unwrap().starts_with("xmlns");
                        }
                        if !decl {
                            out.push(at + i + open as usize);
                        }
                    }
                }
            }
            false => {
                out.push(at);
                out.push(at + tok.len());
            }
        }
        at += tok.len();
    }
    out
}
