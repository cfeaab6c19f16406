//! The same laws far away from the small cases: long texts and names, many items, deep scopes.
//!
//! Each part takes every size of `sizes`: all small ones, then around every power of two and of ten.

use std::fmt::Write;

use mcore::engine::{Cx, Run};
use mcore::model::{Case, Model, Val};
use mcore::{case, de_case, judge};

use super::common;
use crate::zoo::{misc, scope};

pub fn sizes(max: usize) -> Vec<usize> {
    let mut out: Vec<usize> = (0..=40).collect();
    let mut around = |n: usize| {
        for m in [n - 1, n, n + 1] {
            if m <= max && !out.contains(&m) {
                out.push(m);
            }
        }
    };
    let mut n = 64;
    while n <= max {
        around(n);
        n *= 2;
    }
    let mut n = 100;
    while n <= max {
        around(n);
        n *= 10;
    }
    out.retain(|&n| n <= max);
    // The long ones first, so that the cores are busy to the end
    out.sort_by(|a, b| b.cmp(a));
    out
}

/// Sizes with how much to do for each: less for the long ones
fn rotate<T: Copy>(all: &[T], size: usize, salt: usize, few: usize) -> Vec<T> {
    match size {
        0..=300 => all.to_vec(),
        _ => (0..few).map(|i| all[(salt + i * (all.len() / few).max(1)) % all.len()]).collect(),
    }
}

/// C04: references, comments and sections at the ends of long texts, and many of them
pub fn texts(run: &Run, read: &(dyn Fn(&mut Cx<'_>, usize, &str) + Sync), spots: usize) {
    let all = sizes(run.pick(66_000, 1_100_000));
    let fills = ["a", "é", "😀", " ", "]", ";"];
    let specials = [
        "&amp;", "&#65;", "&#x1F600;", "<!--c-->", "<![CDATA[<&]]>", "&bad;", "&#0;", "&amp", "&", "]]>", "", "&#x10FFFF;z",
        "<![CDATA[]]>&lt;", "\"", "'", ">", "]", "\t", "\n", "/>", "=", "-->", "?>", "\u{2028}", "\u{ffff}",
    ];
    let mut work: Vec<(usize, usize)> = Vec::new();
    for &n in &all {
        for f in 0..fills.len() {
            work.push((n, f));
        }
    }
    run.par("long texts", &work, |cx, &(n, f)| {
        let long = fills[f].repeat(n);
        let half = fills[f].repeat(n / 2);
        let rest = fills[f].repeat(n - n / 2);
        for (k, s) in specials.iter().enumerate() {
            for form in 0..4 {
                let text = match form {
                    0 => format!("{s}{long}"),
                    1 => format!("{long}{s}"),
                    2 => format!("{half}{s}{rest}{s}"),
                    // Inside a section
                    _ => format!("z<![CDATA[{long}]]>{s}<!--{}-->", fills[f].repeat(n)),
                };
                let at: Vec<usize> = (0..spots).collect();
                for i in rotate(&at, n, n + f + k + form, 3) {
                    read(cx, i, &text);
                }
                if cx.run.stopped() {
                    return;
                }
            }
        }
    });
    let units = [
        "&lt;", "&#65;", "&#x1F600;", "a&amp;", "&amp;é", "<!---->", "<!--é-->b", "<![CDATA[]]>", "<![CDATA[&]]>", "&apos;&quot;&gt;",
        "&#xe9;&#8364;", "]&gt;",
    ];
    let mut work: Vec<(usize, usize)> = Vec::new();
    for &n in &all {
        for u in 0..units.len() {
            work.push((n, u));
        }
    }
    run.par("many references", &work, |cx, &(n, u)| {
        for (k, tail) in ["", "z", "&bad;", "&#xD800;", "&am"].iter().enumerate() {
            let text = format!("{}{tail}", units[u].repeat(n));
            let at: Vec<usize> = (0..spots).collect();
            for i in rotate(&at, n, n + u + k, 3) {
                read(cx, i, &text);
            }
            if cx.run.stopped() {
                return;
            }
        }
    });
}

/// C05: special characters at the ends of long strings, and many of them
pub fn strings(run: &Run, write: &(dyn Fn(&mut Cx<'_>, usize, &str) + Sync), holders: usize) {
    let all = sizes(run.pick(66_000, 1_100_000));
    let fills = ["a", "é", "😀", "&", "<", "\"", "'", "]", ">", " ", "\u{fffd}"];
    let specials = ["&", "<", ">", "\"", "'", "]]>", "é", "\u{1}", "\u{ffff}", "<!--", "&amp;", ""];
    let mut work: Vec<(usize, usize)> = Vec::new();
    for &n in &all {
        for f in 0..fills.len() {
            work.push((n, f));
        }
    }
    run.par("long strings", &work, |cx, &(n, f)| {
        let long = fills[f].repeat(n);
        let half = fills[f].repeat(n / 2);
        let rest = fills[f].repeat(n - n / 2);
        for (k, s) in specials.iter().enumerate() {
            for form in 0..3 {
                let text = match form {
                    0 => format!("{s}{long}"),
                    1 => format!("{long}{s}"),
                    _ => format!("{half}{s}{rest}{s}"),
                };
                let at: Vec<usize> = (0..holders).collect();
                for i in rotate(&at, n * 8, n + f + k + form, 3) {
                    write(cx, i, &text);
                }
                if cx.run.stopped() {
                    return;
                }
            }
        }
    });
}

/// C03: a declaration and its use at any distance, with any others between them
pub fn distances(run: &Run) {
    let any = de_case!(instant_xml::AnyElement<'_>);
    let sel = case!(scope::Any3);
    // What is declared on the levels between, for prefixes and the default namespace
    let between = [
        "", " xmlns:r='urn:r'", " xmlns:q='urn:b'", " xmlns='urn:b'", " xmlns:p='urn:b'", " xmlns=''", " xmlns:r='urn:r' xmlns:s='urn:s' x='1'",
        " xmlns:q='urn:b' xmlns:p='urn:a'",
    ];
    let firsts = [" xmlns:p='urn:a'", " xmlns='urn:a'", " xmlns:p='urn:a' xmlns:q='urn:b' xmlns='urn:a'", " xmlns:q='urn:a' xmlns:p='urn:b'"];
    let uses = [
        "<p:e/>", "<e/>", "<p:e p:x='1'/>", "<e p:x='1' x='2'/>", "<q:e q:x='3' p:x='4'/>", "<e><p:e/></e>", "<p:e xmlns:p='urn:b'/>", "<p:e><e/></p:e><e/>",
    ];
    let levels: Vec<usize> = (0..32).collect();
    run.par("declarations at every distance", &levels, |cx, &at| {
        for end in at..32 {
            for mid in between {
                // On all levels between, on the first, on the last, on every third
                for where_ in 0..4 {
                    if mid.is_empty() && where_ > 0 {
                        continue;
                    }
                    for first in firsts {
                        let mut head = String::new();
                        for i in 0..=end {
                            head.push_str("<e");
                            if i == at {
                                head.push_str(first);
                            } else if i > at
                                && match where_ {
                                    0 => true,
                                    1 => i == at + 1,
                                    2 => i == end,
                                    _ => i % 3 == 0,
                                }
                            {
                                head.push_str(mid);
                            }
                            head.push('>');
                        }
                        let tail = "</e>".repeat(end + 1);
                        for (k, u) in uses.iter().enumerate() {
                            if cx.run.quick() && (end + at + k + where_) % 2 == 1 {
                                continue;
                            }
                            let doc = format!("{head}{u}{tail}");
                            judge::de(cx, &any, &doc);
                            judge::de(cx, &sel, &doc);
                        }
                        if cx.run.stopped() {
                            return;
                        }
                    }
                }
            }
        }
    });

    // Many prefixes, each of them used, spread over some levels
    let counts: Vec<usize> = (1..=32).collect();
    run.par("many prefixes", &counts, |cx, &n| {
        for levels in [1, 2, 3, 8] {
            for dup in [false, true] {
                for used in 0..n {
                    let mut head = String::new();
                    for l in 0..levels {
                        let _ = write!(head, "<e{l}");
                        for i in (0..n).filter(|i| i % levels == l || dup) {
                            let _ = write!(head, " xmlns:p{i}='urn:{}'", if dup { format!("{i}-{l}") } else { i.to_string() });
                        }
                        head.push('>');
                    }
                    let mut doc = format!("{head}<p{used}:e p{used}:x='1' x='2'>");
                    for i in 0..n {
                        let _ = write!(doc, "<p{i}:e/>");
                    }
                    let _ = write!(doc, "</p{used}:e>");
                    for l in (0..levels).rev() {
                        let _ = write!(doc, "<p{used}:f/></e{l}>");
                    }
                    judge::de(cx, &any, &doc);
                }
            }
        }
    });

    // The same scope after many elements
    let sizes = sizes(run.pick(10_001, 100_001));
    run.par("scopes after many siblings", &sizes, |cx, &n| {
        let kids = ["<p:e/>", "<e xmlns='urn:b'/>", "<e xmlns:p='urn:b'><p:e/></e>", "<q:e xmlns:q='urn:b' q:x='1'>t</q:e>", "<e xmlns=''><e/></e>"];
        for root in [" xmlns:p='urn:a'", " xmlns='urn:a' xmlns:p='urn:a'", " xmlns:p='urn:b' xmlns:q='urn:a'"] {
            for kid in kids {
                for last in ["<e/>", "<p:e/>", "<p:e p:x='1' x='2'/>", "<q:e/>"] {
                    let doc = format!("<e{root}>{}{last}</e>", kid.repeat(n));
                    judge::de(cx, &any, &doc);
                    judge::de(cx, &sel, &doc);
                }
            }
            if cx.run.stopped() {
                return;
            }
        }
    });

    // Long names, prefixes and namespaces
    run.par("long names", &sizes, |cx, &n| {
        for unit in ["a", "é", "a.b-c_"] {
            let long = format!("n{}", unit.repeat(n));
            let other = format!("{long}b");
            let p = format!("p{long}");
            let docs = [
                format!("<{long}><{other} {long}='1' {other}='2'/></{long}>"),
                format!("<{p}:e xmlns:{p}='urn:{long}'><{p}b:e xmlns:{p}b='urn:{other}' {p}:x='1' {p}b:x='2'/></{p}:e>"),
                format!("<e xmlns='urn:{long}'><e xmlns='urn:{other}'/><e/></e>"),
                format!("<{long}></{other}>"),
                format!("<{other}></{long}>"),
                format!("<{p}:e xmlns:{p}='urn:{long}'></{p}b:e>"),
                format!("<{p}:e xmlns:{p}b='urn:{long}'/>"),
                format!("<e xmlns='urn:a{}'/>", unit.repeat(n)),
                format!("<e xmlns:p='urn:a{}' xmlns='urn:a'><p:e/></e>", unit.repeat(n)),
                format!("<e{} xmlns='urn:a'/>", unit.repeat(n)),
            ];
            for doc in &docs {
                judge::de(cx, &any, doc);
                judge::de(cx, &sel, doc);
            }
        }
    });
}

/// C06 and C18: one fault behind any amount of good content
pub fn faults(run: &Run, refuse: &(dyn Fn(&mut Cx<'_>, &Case, &str) + Sync), kinds: &[Case], faults: &[&str]) {
    let sizes = sizes(run.pick(10_001, 100_001));
    let mut work: Vec<(usize, usize)> = Vec::new();
    for &n in &sizes {
        for f in 0..faults.len() {
            work.push((n, f));
        }
    }
    let pads = ["<v>1</v>", "<o a='1'/>", "t", "<!--c-->", " ", "<o><v/>&lt;</o>", "<![CDATA[x]]>"];
    run.par("faults behind good content", &work, |cx, &(n, f)| {
        let fault = faults[f];
        for (k, pad) in pads.iter().enumerate() {
            let long = pad.repeat(n);
            let docs = [
                format!("<r>{long}{fault}</r>"),
                format!("<r>{fault}{long}</r>"),
                format!("<r><o>{long}{fault}</o></r>"),
                format!("<r>{long}<v>1{fault}</v>{pad}</r>"),
            ];
            for doc in &docs {
                for case in rotate(kinds, n, n + f + k, 2) {
                    refuse(cx, &case, doc);
                }
            }
            // After the root only what may stand there
            if matches!(*pad, " " | "<!--c-->") {
                for case in rotate(kinds, n, n + f + k, 2) {
                    refuse(cx, &case, &format!("<r/>{long}{fault}"));
                    refuse(cx, &case, &format!("{long}{fault}<r/>"));
                }
            }
            if cx.run.stopped() {
                return;
            }
        }
        if n < 32 {
            // Deep down
            for open in ["<r>", "<o>", "<r a='1'>"] {
                let close = format!("</{}>", &open[1..2]);
                let doc = format!("<r>{}{fault}{}</r>", open.repeat(n), close.repeat(n));
                for case in kinds {
                    refuse(cx, case, &doc);
                }
            }
        }
    });
}

/// C08: lists of any length, with a surprise at either end or in the middle
pub fn lists(run: &Run) {
    let sizes = sizes(run.pick(10_001, 100_001));
    let cases: Vec<(Case, &str, &str, Vec<&str>)> = vec![
        (
            case!(misc::E1<Vec<u8>>),
            "<E1>",
            "</E1>",
            vec!["<v>1</v>", "<v>255</v>", "<v>256</v>", "<v/>", "<v>x</v>", "<o/>", "<v xmlns='urn:o'>x</v>", "<v><b/></v>"],
        ),
        (
            case!(misc::E1<Vec<String>>),
            "<E1 v='1'>",
            "</E1>",
            vec!["<v>a</v>", "<v/>", "<v>&lt;<!--c--></v>", "<v>&bad;</v>", "<o><v>z</v></o>", "<v><v>z</v></v>"],
        ),
        (
            case!(misc::Tree),
            "<Tree id='1'>",
            "</Tree>",
            vec![
                "<Tree id='2'/>", "<Tree/>", "<name>n</name>", "<Tree id='3'><name>m</name><Tree id='4'/></Tree>", "<Tree id='256'/>", "<o id='3'/>",
                "<Tree id='3'><name/><name/></Tree>",
            ],
        ),
        (
            case!(super::fields::Lists),
            "<Lists>",
            "</Lists>",
            vec![
                "<n>1</n>", "<n>2</n>", "<UL xmlns='urn:o'/>", "<one>a</one>", "<n>?</n>", "<only-one>1</only-one>", "<only-one>x</only-one>", "t",
            ],
        ),
        (
            case!(misc::HoldsOuter),
            "<HoldsOuter><before>1</before><ell>q</ell>",
            "</HoldsOuter>",
            vec!["<o/>", "<first>f</first>", "<after>3</after>", "<before>1</before>", "<ell>q</ell>"],
        ),
        (case!(misc::E1<Option<String>>), "<E1>", "</E1>", vec!["<o/>", "<v>a</v>", "<v/>", "<w/>"]),
        (case!(misc::E1<u8>), "<E1>", "</E1>", vec!["<o/>", "<v>1</v>", "<v>x</v>", "<o><v>9</v></o>"]),
        (case!(misc::Singles), "<Singles>", "</Singles>", vec!["<only-one>1</only-one>", "<o/>", "<only-one/>", "<only-one>x</only-one>"]),
    ];
    let mut work: Vec<(usize, usize)> = Vec::new();
    for &n in &sizes {
        for c in 0..cases.len() {
            work.push((n, c));
        }
    }
    run.par("long lists", &work, |cx, &(n, c)| {
        let (case, head, tail, kids) = &cases[c];
        for base in kids {
            let long = base.repeat(n);
            let half = base.repeat(n / 2);
            let rest = base.repeat(n - n / 2);
            for odd in kids {
                for doc in [
                    format!("{head}{long}{odd}{tail}"),
                    format!("{head}{odd}{long}{tail}"),
                    format!("{head}{half}{odd}{rest}{tail}"),
                    format!("{head}{odd}{long}{odd}{tail}"),
                ] {
                    judge::de(cx, case, &doc);
                }
                if n <= 300 {
                    judge::de(cx, case, &format!("{head}{}{tail}", format!("{base}{odd}").repeat(n)));
                }
                if cx.run.stopped() {
                    return;
                }
            }
        }
    });
}

/// C09: any amount of what is not asked for
pub fn strangers(run: &Run) {
    let sizes = sizes(run.pick(10_001, 100_001));
    let mut corpus = common::corpus(common::small_rich(), 2, false);
    // A document each, with its value
    let picks: Vec<(Case, String, Val)> = corpus
        .drain(..)
        .filter(|i| super::inert::plain_struct((i.case.ty)()))
        .filter_map(|i| {
            let tree = i.trees.iter().max_by_key(|t| t.kids.len() + t.attrs.len())?;
            let doc = mcore::gen::print(tree, mcore::gen::PLAIN);
            let v = mcore::refde::expect((i.case.ty)(), &doc).ok()?;
            Some((i.case, doc, v))
        })
        .collect();
    let step = (picks.len() / run.pick(24, 60)).max(1);
    let picks: Vec<&(Case, String, Val)> = picks.iter().step_by(step).chain(picks.iter().rev().take(12)).collect();
    let mut work: Vec<(usize, usize)> = Vec::new();
    for &n in &sizes {
        for c in 0..picks.len() {
            work.push((n, c));
        }
    }
    run.par("many and long strangers", &work, |cx, &(n, c)| {
        let (case, doc, orig) = picks[c];
        let toks = common::tokens(doc);
        let mut long: Vec<String> = vec![
            "<zz/>".repeat(n),
            "<zz>t<zz a='1'/></zz>".repeat(n),
            format!("<zz>{}</zz>", "<v>1</v>".repeat(n)),
            format!("<zz>{}</zz>", "t&amp;".repeat(n)),
            format!("<zz a='{}'/>", "v&lt;".repeat(n)),
            format!("<!--{}-->", "c ".repeat(n)),
            "<!--c-->".repeat(n),
            " ".repeat(n),
            "\n\t".repeat(n),
            format!("<z{}/>", "z".repeat(n)),
            format!("<zz xmlns='urn:{}'/>", "z".repeat(n)),
        ];
        if n <= 28 {
            long.push(format!("{}{}", "<zz>".repeat(n), "</zz>".repeat(n)));
            long.push(format!("{}{}", "<zz xmlns='urn:zz' a='1'>".repeat(n), "</zz>".repeat(n)));
            long.push(format!("<zz{}/>", (0..n).map(|i| format!(" a{i}='1' xmlns:z{i}='urn:z'")).collect::<String>()));
        }
        for s in &long {
            for i in 1..toks.len() {
                if n > 300 && i != 1 && i != toks.len() - 1 {
                    continue;
                }
                let mut t = toks.clone();
                t.insert(i, s);
                super::inert::same(cx, case, orig, &t.concat());
            }
            // Around the root
            if s.trim().is_empty() || s.starts_with("<!--") {
                super::inert::same(cx, case, orig, &format!("{s}{doc}{s}"));
            }
            if cx.run.stopped() {
                return;
            }
        }
        // Long tags
        if let Some(end) = doc.find(['>', ' ']).filter(|_| !doc.starts_with("<?")) {
            let end = match &doc[..end] {
                d if d.ends_with('/') => end - 1,
                _ => end,
            };
            for s in [
                " \n".repeat(n),
                format!(" zz='{}'", "é".repeat(n)),
                format!(" z{}='1'", "z".repeat(n)),
                format!(" xmlns:z{}='urn:z'", "z".repeat(n)),
                format!(" xmlns:zz='urn:{}'", "z".repeat(n)),
            ] {
                super::inert::same(cx, case, orig, &format!("{}{s}{}", &doc[..end], &doc[end..]));
            }
        }
    });
}

/// C14: captured elements of any size
pub fn captured(run: &Run, both: &(dyn Fn(&mut Cx<'_>, &str) + Sync)) {
    let sizes = sizes(run.pick(66_000, 1_100_000));
    run.par("sizes of captured elements", &sizes, |cx, &n| {
        let mut docs = vec![
            format!("<a>{}</a>", "t".repeat(n)),
            format!("<a>{}<b/>{}</a>", "é".repeat(n), "&lt;".repeat(n)),
            format!("<a x='{}'/>", "v".repeat(n)),
            format!("<a x='{}&amp;'/>", "v".repeat(n)),
            format!("<a>{}</a>", "<b/>".repeat(n)),
            format!("<a>{}</a>", "t<b>u</b>".repeat(n)),
            format!("<a>{}</a>", "<![CDATA[]]><!---->".repeat(n)),
            format!("<a{0}>t</a{0}>", "n".repeat(n)),
            format!("<p{0}:a xmlns:p{0}='urn:{0}' p{0}:x{0}='1'/>", "n".repeat(n)),
            format!("{}<a/>{}", "<!--c-->".repeat(n), "\n".repeat(n)),
        ];
        if n <= 64 {
            docs.push(format!("<a{}/>", (0..n).map(|i| format!(" a{i}='{i}'")).collect::<String>()));
            docs.push(format!("<a><b{}>t</b></a>", (0..n).rev().map(|i| format!(" a{i}='&#{};'", 65 + i)).collect::<String>()));
        }
        if n <= 32 {
            docs.push(format!("<a{}/>", (0..n).map(|i| format!(" xmlns:p{i}='urn:{i}' p{i}:a='{i}'")).collect::<String>()));
        }
        for doc in &docs {
            both(cx, doc);
            if cx.run.stopped() {
                return;
            }
        }
    });
}

/// C16: spaces, zeros and digits without end
pub fn numbers(run: &Run) {
    let sizes = sizes(run.pick(10_001, 100_001));
    macro_rules! all {
        ($out:ident: $($t:ty),*) => { $($out.push(case!(misc::E1<$t>)); $out.push(case!(misc::A1<$t>)); $out.push(case!(misc::D1<$t>));)* };
    }
    let mut cases: Vec<Case> = Vec::new();
    all!(cases: u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, f32, f64, bool, char, String, std::net::IpAddr,
        chrono::DateTime<chrono::Utc>, chrono::NaiveDateTime, chrono::NaiveDate);
    let mut work: Vec<(usize, usize)> = Vec::new();
    for &n in &sizes {
        for c in 0..cases.len() {
            work.push((n, c));
        }
    }
    run.par("long numbers", &work, |cx, &(n, c)| {
        let case = &cases[c];
        for t in [
            format!("{}7", " ".repeat(n)),
            format!("7{}", "\n".repeat(n)),
            format!("{}7{}", "\t ".repeat(n), " ".repeat(n)),
            format!("{}7", "0".repeat(n)),
            format!("-{}7", "0".repeat(n)),
            format!("+{}7", "0".repeat(n)),
            "7".repeat(n),
            format!("-{}", "9".repeat(n)),
            format!("0.{}1", "0".repeat(n)),
            format!("1.5{}", "0".repeat(n)),
            format!("1{}.5e-{n}", "0".repeat(n)),
            format!("1e{}", "0".repeat(n)),
            format!("{}true", " ".repeat(n)),
            format!("true{}", "e".repeat(n)),
            format!("{}1", "\u{3000}".repeat(n)),
            format!("::{}1", "0".repeat(n)),
            format!("1{}.0.0.1", "0".repeat(n)),
            format!("2024-02-29T00:00:00.1{}Z", "0".repeat(n)),
            format!("2024-02-29T00:00:00.{}1", "0".repeat(n)),
            format!("2024-02-29{}", " ".repeat(n)),
            format!("{}2024-02-29", "0".repeat(n)),
        ] {
            for doc in [format!("<E1><v>{t}</v></E1>"), format!("<A1 v='{t}'/>"), format!("<D1>{t}</D1>")] {
                if doc[1..].starts_with((case.ty)().tag().unwrap().name) {
                    judge::de(cx, case, &doc);
                }
            }
            if cx.run.stopped() {
                return;
            }
        }
    });
}

/// C01 and C02: big values
pub fn values(run: &Run, check: &(dyn Fn(&mut Cx<'_>, &Case, &Val) + Sync)) {
    fn s(t: impl Into<String>) -> Val {
        Val::S(t.into())
    }
    fn some(v: Val) -> Val {
        Val::Some(Box::new(v))
    }
    fn tree(id: usize, name: Option<&str>, kids: Vec<Val>) -> Val {
        Val::Rec(vec![s((id % 256).to_string()), name.map_or(Val::None, |n| some(s(n))), Val::List(kids)])
    }
    let right = mcore::gen::values(crate::zoo::leaf::TR::ty(), common::small_rich()).remove(0);
    let sizes = sizes(run.pick(10_001, 100_001));
    run.par("big values", &sizes, |cx, &n| {
        let numbered: Vec<Val> = (0..n).map(|i| s(i.to_string())).collect();
        let small: Vec<Val> = (0..n).map(|i| s((i % 256).to_string())).collect();
        check(cx, &case!(misc::E1<Vec<u32>>), &Val::Rec(vec![Val::List(numbered.clone())]));
        check(cx, &case!(misc::E1<Vec<String>>), &Val::Rec(vec![Val::List(numbered)]));
        check(cx, &case!(misc::E1<Vec<misc::Cased>>), &Val::Rec(vec![Val::List((0..n).map(|i| Val::Enum(i % 5)).collect())]));
        check(cx, &case!(misc::Tree), &tree(1, Some("x"), (0..n).map(|i| tree(i, None, vec![])).collect()));
        check(
            cx,
            &case!(misc::Tree),
            &tree(1, None, (0..n).map(|i| tree(i, Some("é&"), (0..i % 3).map(|j| tree(j, None, vec![])).collect())).collect()),
        );
        check(
            cx,
            &case!(misc::Singles),
            &Val::Rec(vec![
                Val::List(small.iter().map(|v| Val::Rec(vec![v.clone()])).collect()),
                Val::None,
                right.clone(),
            ]),
        );
        for unit in ["a", "&", "é"] {
            let t = unit.repeat(n);
            check(cx, &case!(misc::E1<String>), &Val::Rec(vec![s(t.clone())]));
            check(cx, &case!(misc::A1<String>), &Val::Rec(vec![s(t.clone())]));
            check(cx, &case!(misc::D1<String>), &Val::Rec(vec![s(t.clone())]));
            check(cx, &case!(misc::Mixed), &Val::Rec(vec![some(s(t.clone())), Val::None, if n == 0 { Val::None } else { some(s(t)) }]));
        }
        // As deep as can be read
        if n < 32 {
            let mut v = tree(0, Some("leaf"), vec![]);
            let mut w = v.clone();
            for i in 1..n {
                v = tree(i, None, vec![v]);
                w = tree(i, if i % 2 == 0 { Some("n") } else { None }, vec![tree(9, None, vec![]), w, tree(8, None, vec![])]);
            }
            // The name is one more level
            if n < 31 {
                check(cx, &case!(misc::Tree), &v);
                check(cx, &case!(misc::Tree), &w);
            }
            let mut c = Val::Rec(vec![some(s("1")), Val::None, Val::None]);
            for i in 1..n {
                c = Val::Rec(vec![some(s((i % 256).to_string())), some(c), if i % 2 == 0 { some(s("3")) } else { Val::None }]);
            }
            if n < 31 {
                check(cx, &case!(misc::Chain), &c);
            }
        }
    });
}

/// C15: lengths and numbers of borrowed strings
pub fn borrowed(run: &Run, one: &(dyn Fn(&mut Cx<'_>, &str, &str) + Sync)) {
    let sizes = sizes(run.pick(66_000, 1_100_000));
    run.par("long borrowed strings", &sizes, |cx, &n| {
        for unit in ["a", "é", "😀", "\n", "]", "'\u{2028}", ";"] {
            let s = unit.repeat(n);
            let at = s.replace('\'', "z");
            one(cx, &at, &s);
            one(cx, &format!("{at}&lt;"), &format!("&gt;{s}"));
            one(cx, &format!("&lt;{at}"), &format!("{s}&gt;"));
            one(cx, "q", &format!("{s}<!--c-->"));
            one(cx, "q", &format!("<![CDATA[{s}]]>"));
            one(cx, &at, &format!("{s}&bad;"));
            if cx.run.stopped() {
                return;
            }
        }
        // One other character at the beginning, in the middle, at the end
        let (half, rest) = ("k".repeat(n / 2), "k".repeat(n - n / 2));
        for c in ["\"", "'", ">", "]", "\t", "\n", "/>", "=", "-->", "]]>", "?>", "é", "\u{2028}", ";", "#", "&gt;", "<!---->"] {
            for s in [format!("{c}{half}{rest}"), format!("{half}{c}{rest}"), format!("{half}{rest}{c}")] {
                if !c.starts_with('<') {
                    one(cx, &s, "q");
                }
                one(cx, "q", &s);
            }
            if cx.run.stopped() {
                return;
            }
        }
        one(cx, &"&amp;".repeat(n), &"&#65;".repeat(n));
        one(cx, "q", &"<![CDATA[b]]>".repeat(n));
    });
}
