//! C04 and C05: character data in both directions.

use std::fmt::Write;

use instant_xml::{AnyElement, FromXml, ToXml};
use mcore::engine::{Cx, Run};
use mcore::model::{Case, Val};
use mcore::{case, de_case, judge};
use std::borrow::Cow;

use super::common;
use crate::zoo::misc::{self, A1, D1, E1, T1};

/// A type with the document around a text
struct Spot {
    case: Case,
    before: &'static str,
    after: &'static str,
}

fn spot(case: Case, before: &'static str, after: &'static str) -> Spot {
    Spot { case, before, after }
}

fn spots() -> Vec<Spot> {
    vec![
        spot(case!(E1<String>), "<E1><v>", "</v></E1>"),
        spot(case!(D1<String>), "<D1>", "</D1>"),
        spot(case!(A1<String>), "<A1 v=\"", "\"></A1>"),
        spot(de_case!(AnyElement<'_>), "<a b='", "'/>"),
        spot(de_case!(AnyElement<'_>), "<a>", "</a>"),
        spot(case!(E1<Vec<String>>), "<E1><v>q</v><v>", "</v></E1>"),
        spot(case!(T1<String>), "<T1>", "</T1>"),
        spot(case!(Cow1<'_>), "<Cow1><v>", "</v></Cow1>"),
        spot(case!(Cow1At<'_>), "<Cow1At v='", "'/>"),
        spot(case!(E1<Option<Cow<'_, str>>>), "<E1><v>", "</v></E1>"),
    ]
}

#[derive(Clone, Debug, PartialEq, instant_xml::FromXml, instant_xml::ToXml, model_derive::Model)]
pub struct Cow1<'a> {
    #[xml(borrow)]
    pub v: Cow<'a, str>,
}

#[derive(Clone, Debug, PartialEq, instant_xml::FromXml, instant_xml::ToXml, model_derive::Model)]
pub struct Cow1At<'a> {
    #[xml(attribute)]
    pub v: Cow<'a, str>,
}

const PIECES: [&str; 22] = [
    "a", "&amp;", "é", "<!--c-->", "<![CDATA[", "]]>", "&#65;", "&lt;", " ", "😀", "&#x1F600;", "&gt;", "&quot;",
    "&apos;", ";", "&", "&#", "x", "&#0;", "]", "\n", "&nbsp;",
];

fn read(cx: &mut Cx<'_>, s: &Spot, text: &str, doc: &mut String) {
    doc.clear();
    doc.push_str(s.before);
    doc.push_str(text);
    doc.push_str(s.after);
    judge::de(cx, &s.case, doc);
}

pub fn c04(run: &Run) {
    let spots = spots();
    let max = run.pick(4, 5);
    // In the quick tier the longest texts go through the first four positions only
    run.par("texts in pieces", &common::heads(&PIECES), |cx, head| {
        let mut doc = String::new();
        common::from_head(&PIECES, head, max, &mut |text| {
            if cx.run.stopped() {
                return;
            }
            for s in &spots {
                read(cx, s, text, &mut doc);
            }
        });
    });

    // References letter by letter
    let letters = ["#", "x", "X", "0", "1", "4", "9", "a", "D", "m", "p", "l", "t", "g", "+", "-", " ", "é", "&", "o", "s", "q", "u"];
    let max = run.pick(4, 5);
    run.par("references letter by letter", &common::heads(&letters), |cx, head| {
        let mut doc = String::new();
        let mut text = String::new();
        common::from_head(&letters, head, max, &mut |body| {
            if cx.run.stopped() {
                return;
            }
            for (lead, tail) in [("", ";"), ("é", ";z")] {
                text.clear();
                let _ = write!(text, "{lead}&{body}{tail}");
                for s in &spots[..run.pick(3, 5)] {
                    read(cx, s, &text, &mut doc);
                }
            }
        });
    });

    // Every code point up to and beyond the last
    let blocks: Vec<u32> = (0..0x1110).collect();
    run.par("every character reference", &blocks, |cx, &block| {
        let mut doc = String::new();
        let mut text = String::new();
        for n in block << 8..(block + 1) << 8 {
            if cx.run.stopped() {
                return;
            }
            for form in 0..5 {
                text.clear();
                let _ = match form {
                    0 => write!(text, "&#{n};"),
                    1 => write!(text, "&#x{n:x};"),
                    2 => write!(text, "a&#x{n:X};b"),
                    3 => write!(text, "&#x{n:06X};"),
                    _ => write!(text, "é&#{n:07};"),
                };
                let which = match cx.run.quick() {
                    true => &spots[form % 3..form % 3 + 1],
                    false => &spots[..],
                };
                for s in which {
                    read(cx, s, &text, &mut doc);
                }
            }
            // The character itself, where it may stand
            if let Some(c) = char::from_u32(n) {
                text.clear();
                text.push(c);
                read(cx, &spots[(n % 5) as usize], &text, &mut doc);
                let _ = write!(text, "&amp;{c}");
                read(cx, &spots[(n / 7 % 5) as usize], &text, &mut doc);
            }
        }
    });

    // Positions in long texts
    let len = run.pick(40, 90);
    let at: Vec<usize> = (0..len).collect();
    let fill = ["a", "é", "€", "😀"];
    let refs = ["&amp;", "&#65;", "&#x1F600;", "<!--é-->", "<![CDATA[&€]]>", "&bad;", "&#xD800;"];
    run.par("positions in long texts", &at, |cx, &i| {
        let mut doc = String::new();
        for f in fill {
            for j in i..=len {
                for a in refs {
                    for b in refs {
                        if cx.run.stopped() {
                            return;
                        }
                        let text =
                            format!("{}{a}{}{b}{}", f.repeat(i), f.repeat(j - i), f.repeat(len - j));
                        let s = &spots[(i + j) % spots.len()];
                        read(cx, s, &text, &mut doc);
                    }
                }
            }
        }
    });
    let read_at = |cx: &mut Cx<'_>, i: usize, text: &str| read(cx, &spots[i], text, &mut String::new());
    super::scale::texts(run, &read_at, spots.len());
    run.seq("known exceptions", |cx| {
        let case = case!(E1<String>);
        let doc = "<E1><v>&#0000000065;</v></E1>";
        let got = cx.guard(case.name, doc, || (case.de)(doc));
        let ok = matches!(&got, Ok(Ok(v)) if *v == Val::Rec(vec![Val::S("A".into())]));
        cx.run.probe("long-character-reference", doc, "\"A\"", &judge::show(&got), ok);
        let doc = "<E1><v>a<x/>b</v></E1>";
        let got = cx.guard("E1", doc, || (case.de)(doc));
        let ok = match &got {
            Ok(Ok(v)) => *v == Val::Rec(vec![Val::S("ab".into())]),
            Ok(Err(_)) => true,
            Err(_) => false,
        };
        cx.run.probe("text-after-child-dropped", doc, "\"ab\" or an error", &judge::show(&got), ok);
    });
}

// Writing

type Make = fn(&str) -> Val;

fn holders() -> Vec<(Case, Make)> {
    fn s(t: &str) -> Val {
        Val::S(t.to_owned())
    }
    vec![
        (case!(E1<String>), |t| Val::Rec(vec![s(t)])),
        (case!(A1<String>), |t| Val::Rec(vec![s(t)])),
        (case!(D1<String>), |t| Val::Rec(vec![s(t)])),
        (case!(E1<Vec<String>>), |t| Val::Rec(vec![Val::List(vec![s(t), s("|"), s(t)])])),
        (case!(misc::Mixed), |t| {
            Val::Rec(vec![Val::Some(Box::new(s(t))), Val::None, match t {
                "" => Val::None,
                t => Val::Some(Box::new(s(t))),
            }])
        }),
        (case!(misc::Cows<'_>), |t| Val::Rec(vec![s(t), s(t), s(t)])),
        (case!(T1<String>), |t| Val::Rec(vec![s(t)])),
        (case!(A1<Option<Cow<'_, str>>>), |t| Val::Rec(vec![Val::Some(Box::new(s(t)))])),
        (case!(misc::E1k<Option<Box<String>>>), |t| Val::Rec(vec![Val::Some(Box::new(s(t))), Val::None])),
        (case!(misc::AttrsOnly), |t| {
            Val::Rec(vec![Val::Some(Box::new(s(t))), s("true"), Val::Some(Box::new(s("\"")))])
        }),
    ]
}

fn write(cx: &mut Cx<'_>, case: &Case, v: &Val) {
    judge::ser(cx, case, v);
    judge::round_trip(cx, case, v);
}

const MARKUP: [&str; 22] = [
    "&", "<", "a", "é", "\"", "'", ">", "]]>", "😀", "\r", "\n", " ", "\t", "]", "&amp;", "-->", "\u{1}", "\u{FFFE}", "€",
    "<!--", "\u{85}", "/>",
];

pub fn c05(run: &Run) {
    let all = holders();
    let max = run.pick(3, 5);
    run.par("strings in pieces", &common::heads(&MARKUP), |cx, head| {
        common::from_head(&MARKUP, head, max, &mut |text| {
            if cx.run.stopped() {
                return;
            }
            for (i, (case, make)) in all.iter().enumerate() {
                if i < 4 || max < 5 {
                    write(cx, case, &make(text));
                }
            }
        });
    });
    let deep = run.pick(4, 4);
    run.par("strings of four pieces", &common::heads(&MARKUP), |cx, head| {
        common::from_head(&MARKUP, head, deep, &mut |text| {
            if cx.run.stopped() {
                return;
            }
            for (case, make) in &all[..run.pick(2, 10)] {
                write(cx, case, &make(text));
            }
        });
    });

    let blocks: Vec<u32> = (0..0x1100).collect();
    let ch: [Case; 4] = [case!(E1<char>), case!(A1<char>), case!(D1<char>), case!(E1<Vec<char>>)];
    run.par("every character", &blocks, |cx, &block| {
        let mut text = String::new();
        for n in block << 8..(block + 1) << 8 {
            let Some(c) = char::from_u32(n) else { continue };
            if cx.run.stopped() {
                return;
            }
            text.clear();
            text.push(c);
            // All positions for the blocks where characters are treated differently
            let special = n < 0x3000 || (n & 0xfffe) == 0xfffe || !cx.run.quick();
            if special {
                for (case, make) in &all {
                    write(cx, case, &make(&text));
                }
            }
            text.clear();
            let _ = write!(text, "é{c}&{c}");
            write(cx, &all[(n % 3) as usize].0, &(all[(n % 3) as usize].1)(&text));
            let v = Val::Rec(vec![Val::S(c.to_string())]);
            for (i, case) in ch.iter().take(3).enumerate() {
                if special || n as usize % 3 == i {
                    write(cx, case, &v);
                }
            }
        }
    });

    // Names of enum variants are text, too
    let enums: Vec<Case> = vec![
        case!(E1<misc::Num>),
        case!(A1<misc::Num>),
        case!(D1<misc::Num>),
        case!(E1<Vec<misc::Num>>),
        case!(E1<misc::Texts>),
        case!(A1<misc::Texts>),
        case!(D1<misc::Texts>),
        case!(E1<Option<Box<misc::Texts>>>),
        case!(T1<misc::Texts>),
    ];
    run.par("enum texts", &enums, |cx, case| {
        for v in mcore::gen::values((case.ty)(), common::wide_rich()) {
            write(cx, case, &v);
        }
    });

    // Types written through the helper for `Display`
    run.par("display_to_xml and references", &common::heads(&MARKUP), |cx, head| {
        common::from_head(&MARKUP, head, 3, &mut |text| {
            let shown = Shown(text.to_owned());
            let legal = text.chars().all(mcore::xml::is_char);
            let by_ref: &str = text;
            let outs = [
                ("element", cx.guard("display_to_xml", text, || instant_xml::to_string(&ShownEl { v: shown.clone() })), "<ShownEl><v>"),
                ("attribute", cx.guard("display_to_xml", text, || instant_xml::to_string(&ShownAt { v: shown.clone() })), "<ShownAt v=\""),
                ("str", cx.guard("&str", text, || instant_xml::to_string(&StrEl { v: by_ref, w: &by_ref })), "<StrEl w=\""),
            ];
            for (what, got, lead) in outs {
                cx.count(mcore::engine::hash(&(what, text)));
                let ok = match &got {
                    Ok(Ok(xml)) => {
                        legal && xml.starts_with(lead)
                            && mcore::xml::parse(xml).is_ok_and(|d| reads(&d.root, text))
                    }
                    Ok(Err(_)) => !legal,
                    Err(_) => false,
                };
                if !ok {
                    cx.violation(what, text, "the text, escaped, or an error if it cannot be", &format!("{got:?}"));
                }
            }
        });
    });

    let write_at = |cx: &mut Cx<'_>, i: usize, text: &str| write(cx, &all[i].0, &(all[i].1)(text));
    super::scale::strings(run, &write_at, all.len());

    run.seq("known exceptions", |cx| {
        for (key, case, text, bad) in [
            ("carriage-return-not-escaped", case!(E1<String>), "a\rb", "\r"),
            ("attribute-whitespace-not-escaped", case!(A1<String>), "a\tb\nc", "\t"),
        ] {
            let got = cx.guard(case.name, text, || (case.to_string)(&Val::Rec(vec![Val::S(text.into())])));
            let ok = matches!(&got, Ok(Ok(xml)) if !xml.contains(bad));
            cx.run.probe(key, text, "a character reference", &format!("{got:?}"), ok);
        }
    });
}

/// Does the text occur as the content or attribute of the element or of its child, and nothing else?
fn reads(root: &mcore::xml::El<'_>, text: &str) -> bool {
    use mcore::xml::Kid;
    let own = |el: &mcore::xml::El<'_>| match &el.kids[..] {
        [] => text.is_empty(),
        [Kid::T(t, _)] => t == text,
        _ => false,
    };
    match (&root.attrs[..], &root.kids[..]) {
        ([a], []) => a.value == text,
        ([a], [Kid::E(e)]) => a.value == text && own(e) && e.attrs.is_empty(),
        ([], [Kid::E(e)]) => own(e) && e.attrs.is_empty(),
        _ => false,
    }
}

#[derive(Clone, Debug)]
struct Shown(String);

impl std::fmt::Display for Shown {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        // In several pieces
        for c in self.0.chars() {
            f.write_char(c)?;
        }
        Ok(())
    }
}

impl instant_xml::ToXml for Shown {
    fn serialize<W: std::fmt::Write + ?Sized>(
        &self,
        field: Option<instant_xml::Id<'_>>,
        serializer: &mut instant_xml::Serializer<'_, W>,
    ) -> Result<(), instant_xml::Error> {
        instant_xml::display_to_xml(self, field, serializer)
    }
}

#[derive(instant_xml::ToXml)]
struct ShownEl {
    v: Shown,
}

#[derive(instant_xml::ToXml)]
struct ShownAt {
    #[xml(attribute)]
    v: Shown,
}

#[derive(instant_xml::ToXml)]
struct StrEl<'a> {
    #[xml(attribute)]
    w: &'a &'a str,
    v: &'a str,
}
