//! C07: no input or value makes the library panic, hang or overflow.

use instant_xml::de::Node;
use instant_xml::{AnyElement, Deserializer};
use mcore::engine::{hash, Cx, Run};
use mcore::model::{Case, Val};
use mcore::{case, de_case, gen};

use super::common;
use super::malformed::{RDirect, RTuple, RUnit, R, RF, V};
use crate::zoo::{misc, ns, pairs};

fn survive(cx: &mut Cx<'_>, case: &Case, doc: &str) {
    cx.count(hash(&(case.name, doc)));
    let run = || match (case.de)(doc) {
        Ok(_) => true,
        // What went wrong can be told
        Err(e) => e.to_string() == "\0" || format!("{e:?}") == "\0",
    };
    match cx.guard(case.name, doc, run) {
        Ok(true) => cx.accepted += 1,
        Ok(false) => cx.rejected += 1,
        Err(p) => cx.violation("panic", &format!("{}: {doc}", case.name), "Ok or Err", &p),
    }
}

const CHARS: [&str; 18] =
    ["<", ">", "/", "v", ":", "=", "\"", "&", ";", "#", "!", "-", "[", "]", "?", " ", "x", "é"];

pub fn c07(run: &Run) {
    let kinds: Vec<Case> = vec![
        case!(R<Option<u8>>),
        de_case!(AnyElement<'_>),
        case!(RDirect),
        case!(RF),
        de_case!(R<()>),
        case!(RTuple),
        case!(R<Vec<V>>),
        case!(RUnit),
        case!(misc::A1<String>),
        case!(misc::Cows<'_>),
    ];
    // All short strings, alone and in places where more is possible
    let max = run.pick(4, 5);
    run.par("strings letter by letter", &common::heads(&CHARS), |cx, head| {
        let mut doc = String::new();
        common::from_head(&CHARS, head, max, &mut |s| {
            if cx.run.stopped() {
                return;
            }
            for (before, after) in [("", ""), ("<r>", "</r>"), ("<r ", "/>"), ("<r><v>&", "</v></r>"), ("<r", "></r>")] {
                doc.clear();
                doc.push_str(before);
                doc.push_str(s);
                doc.push_str(after);
                for case in &kinds[..run.pick(2, 4)] {
                    survive(cx, case, &doc);
                }
            }
        });
    });
    let toks = [
        "<r>", "</r>", "<v>", "</v>", "<v", ">", "/>", "t", " a=\"1\"", " xmlns=\"u\"", "<p:v xmlns:p=\"u\">", "&#65;",
        "<!--", "-->", "<![CDATA[", "]]>",
    ];
    let max = run.pick(4, 5);
    run.par("token sequences", &common::heads(&toks), |cx, head| {
        let mut doc = String::new();
        common::from_head(&toks, head, max, &mut |s| {
            if cx.run.stopped() {
                return;
            }
            for before in ["", "<r>"] {
                doc.clear();
                doc.push_str(before);
                doc.push_str(s);
                for case in &kinds {
                    survive(cx, case, &doc);
                }
                doc.push_str("</r>");
                for case in &kinds[..4] {
                    survive(cx, case, &doc);
                }
            }
        });
    });
    let some = &kinds;
    super::vocab::documents(run, &|cx, doc| {
        for case in some {
            survive(cx, case, doc);
        }
    });
    wide_names(run, &kinds);
    super::scalar::foreign_texts(run, &survive);
    super::scalar::long_texts(run, run.pick(300, 1100), &survive);
    sizes(run);
    values(run);
    scripts(run);
}

/// Names, values and declarations of all lengths, in characters of one to four bytes that begin at
/// all alignments, in documents that are refused for all reasons
fn wide_names(run: &Run, kinds: &[Case]) {
    type Make = fn(&str) -> String;
    // Where the long text is a value of the type, which an error may quote
    let values: Vec<Make> = vec![
        |n| format!("<r>{n}</r>"),
        |n| format!("<r><v>{n}</v></r>"),
        |n| format!("<r v='{n}'/>"),
        |n| format!("<{n}/>"),
        |n| format!("<r><{n}/></r>"),
        |n| format!("<r {n}='1'/>"),
        |n| format!("<r xmlns='{n}'><v/></r>"),
        |n| format!("<r><v>&{n};</v></r>"),
    ];
    let makes: Vec<Make> = vec![
        |n| format!("<r></{n}>"),
        |n| format!("<r><{n}></r>"),
        |n| format!("<r><v></{n}></r>"),
        |n| format!("<r><{n}><v></{n}></r>"),
        |n| format!("<{n}></r>"),
        |n| format!("<{n}"),
        |n| format!("<{n}/>"),
        |n| format!("<{n}:r xmlns:{n}='u'/>"),
        |n| format!("<r xmlns='{n}'/>"),
        |n| format!("<r><{n}>1</{n}><v>x</v></r>"),
        |n| format!("<r><{n}:v/></r>"),
        |n| format!("<r><v>1</v></{n}:r>"),
        |n| format!("<r {n}:v='1'/>"),
        |n| format!("<r {n}='1' {n}='1'/>"),
        |n| format!("<r v='1' v='{n}'/>"),
        |n| format!("<r xmlns:{n}='' xmlns:{n}='u'/>"),
        |n| format!("<r xmlns:p='{n}'><p:v></v></r>"),
        |n| format!("<r {n}={n}/>"),
        |n| format!("<r {n}"),
        |n| format!("<r {n}='"),
        |n| format!("<r><?{n} {n}?></r>"),
        |n| format!("<!DOCTYPE {n}><r/>"),
        |n| format!("<r><v>{n}</v></r>"),
        |n| format!("<r>{n}<v/>{n}<v/></r>"),
        |n| format!("<r><v>{n}</v><v>{n}</v></r>"),
        |n| format!("<r><v><{n}/></v></r>"),
        |n| format!("<r><v>{n}<{n}/></v></r>"),
        |n| format!("<r><v>&{n};</v></r>"),
        |n| format!("<r v='&{n};'/>"),
        |n| format!("<r><![CDATA[{n}"),
        |n| format!("<r><!--{n}"),
        |n| format!("<r/>{n}"),
        |n| format!("<r/><{n}/>"),
        |n| format!("{n}<r/>"),
        |n| format!("<r>{}{}</r>", format!("<{n}>").repeat(40), format!("</{n}>").repeat(40)),
        |n| format!("<{n}:{n}:{n}/>"),
        |n| format!("<r:{n}></{n}:r>"),
    ];
    let long: usize = run.pick(70, 300);
    run.par("values of all lengths and alignments", &values, |cx, make| {
        let mut text = String::new();
        for c in ['a', 'é', '€', '\u{10000}'] {
            for before in ["", "a", "ab", "abc"] {
                for n in 0..=run.pick(300, 1100) / c.len_utf8() + 1 {
                    if cx.run.stopped() {
                        return;
                    }
                    text.clear();
                    text.push_str(before);
                    text.extend(std::iter::repeat_n(c, n));
                    let doc = make(&text);
                    for case in kinds {
                        survive(cx, case, &doc);
                    }
                }
            }
        }
    });
    let jobs: Vec<(usize, char)> = (0..makes.len()).flat_map(|m| ['a', 'é', '€', '\u{10000}'].map(|c| (m, c))).collect();
    run.par("names of all lengths and alignments", &jobs, |cx, &(m, c)| {
        let mut name = String::new();
        for before in 0..4 {
            for n in 0..=long / c.len_utf8() + 1 {
                for after in ["", "a"] {
                    if cx.run.stopped() {
                        return;
                    }
                    name.clear();
                    name.push_str(&"abc"[..before.min(3)]);
                    name.extend(std::iter::repeat_n(c, n));
                    name.push_str(after);
                    let doc = makes[m](&name);
                    for case in kinds {
                        survive(cx, case, &doc);
                    }
                }
            }
        }
    });
}

/// Long and deep inputs of every kind
fn sizes(run: &Run) {
    let sizes: Vec<usize> = run.pick(vec![1000, 100_000, 2_000_000], vec![1000, 100_000, 1_000_000, 8_000_000]);
    type Make = fn(usize) -> String;
    let makes: Vec<(&str, Make)> = vec![
        ("text", |n| format!("<r><v>{}</v></r>", "a".repeat(n))),
        ("multi-byte text", |n| format!("<r><v>{}</v></r>", "é".repeat(n / 2))),
        ("references", |n| format!("<r><v>{}</v></r>", "&amp;".repeat(n / 5))),
        ("one reference at the end", |n| format!("<r><v>{}&lt;</v></r>", "a".repeat(n))),
        ("unterminated reference", |n| format!("<r><v>&{}</v></r>", "a".repeat(n))),
        ("many unterminated references", |n| format!("<r><v>{}</v></r>", "&".repeat(n))),
        ("attribute", |n| format!("<r v='{}'/>", "é&gt;".repeat(n / 6))),
        ("comments", |n| format!("<r><v>{}</v></r>", "<!--c-->".repeat(n / 8))),
        ("text and comments", |n| format!("<r><v>{}</v></r>", "t<!---->".repeat(n / 8))),
        ("CDATA sections", |n| format!("<r><v>{}</v></r>", "<![CDATA[x]]>".repeat(n / 13))),
        ("CDATA section", |n| format!("<r><v><![CDATA[{}]]></v></r>", "&<".repeat(n / 2))),
        ("comment", |n| format!("<r><!--{}--></r>", "- ".repeat(n / 2))),
        ("siblings", |n| format!("<r>{}</r>", "<v/>".repeat(n / 4))),
        ("siblings with text", |n| format!("<r>{}</r>", "<v>1</v>".repeat(n / 8))),
        ("unknown siblings", |n| format!("<r>{}</r>", "<u a='1'>t<w/></u>".repeat(n / 18))),
        ("text between siblings", |n| format!("<r>{}</r>", "t<v/>".repeat(n / 5))),
        ("nesting", |n| format!("{}{}", "<v>".repeat(n / 7), "</v>".repeat(n / 7))),
        ("nesting in root", |n| format!("<r>{}{}</r>", "<v>".repeat(n / 7), "</v>".repeat(n / 7))),
        ("ignored nesting", |n| format!("<r>{}{}</r>", "<u>".repeat(n / 7), "</u>".repeat(n / 7))),
        ("open tags only", |n| "<r>".repeat(n / 3)),
        ("close tags only", |n| format!("<r>{}", "</r>".repeat(n / 4))),
        ("attributes", |n| {
            let mut s = "<r".to_owned();
            for i in 0..n / 10 {
                s.push_str(&format!(" a{i}=''"));
            }
            s + "/>"
        }),
        ("declarations", |n| {
            let mut s = "<r".to_owned();
            for i in 0..n / 16 {
                s.push_str(&format!(" xmlns:a{i}='u'"));
            }
            s + "/>"
        }),
        ("default declarations", |n| format!("<r{}/>", " xmlns=''".repeat(n / 9))),
        ("name", |n| format!("<{0}></{0}>", "n".repeat(n / 2))),
        ("white space", |n| format!("{0}<r{0}>{0}</r{0}>{0}", " \n".repeat(n / 8))),
        ("markup soup", |n| "<<>>&&//''".repeat(n / 10)),
        ("digits", |n| format!("<r><v>{}</v></r>", "9".repeat(n))),
        ("zeros in a reference", |n| format!("<r><v>&#{}65;</v></r>", "0".repeat(n))),
        ("namespace", |n| format!("<r xmlns='{0}'><v xmlns='{0}'/></r>", "u".repeat(n / 2))),
    ];
    let kinds: Vec<Case> = vec![
        case!(R<Option<u8>>),
        case!(R<Vec<V>>),
        case!(R<String>),
        case!(R<Vec<String>>),
        de_case!(AnyElement<'_>),
        case!(RDirect),
        case!(RUnit),
        case!(RF),
        de_case!(R<()>),
        case!(V),
        case!(misc::A1<String>),
        case!(RTuple),
    ];
    run.par("long inputs", &makes, |cx, &(name, make)| {
        let docs: Vec<String> = sizes.iter().map(|&n| make(n)).collect();
        for case in &kinds {
            growth(cx, &sizes, &|k| format!("{}: {name} of {} bytes", case.name, sizes[k]), &mut |k| (case.de)(&docs[k]).is_ok());
        }
        // The tree must not be built recursively before the limit is seen
        growth(cx, &sizes, &|k| format!("skipped: {name} of {} bytes", sizes[k]), &mut |k| match Deserializer::new(&docs[k]) {
            Ok(mut d) => d.ignore().is_ok(),
            Err(_) => false,
        });
    });
    type Write = Box<dyn Fn(usize) -> Box<dyn Fn() -> bool> + Sync>;
    fn write<T: instant_xml::ToXml + 'static>(make: fn(usize) -> T) -> Write {
        Box::new(move |n| {
            let v = make(n);
            Box::new(move || instant_xml::to_string(&v).is_ok())
        })
    }
    let writes: Vec<(&str, Write)> = vec![
        ("element", write(|n| misc::E1 { v: "a".repeat(n) })),
        ("element of specials", write(|n| misc::E1 { v: "&".repeat(n / 5) })),
        ("element of letters and specials", write(|n| misc::E1 { v: "aé<b".repeat(n / 8) })),
        ("attribute", write(|n| misc::A1 { v: "a".repeat(n) })),
        ("attribute of specials", write(|n| misc::A1 { v: "\"'".repeat(n / 12) })),
        ("direct text", write(|n| misc::D1 { v: "é>".repeat(n / 6) })),
        ("list", write(|n| misc::E1 { v: vec![1u8; n / 8] })),
        ("list of strings", write(|n| misc::E1 { v: vec!["&lt;".to_owned(); n / 16] })),
        ("list of structs", write(|n| R { v: vec![V { v: None }; n / 16] })),
        ("list of namespaces", write(|n| misc::E1 { v: vec![misc::E1k { v: 1u8, w: Some(2) }; n / 64] })),
        ("forbidden character at the end", write(|n| misc::E1 { v: "a".repeat(n) + "\0" })),
    ];
    run.par("long values", &writes, |cx, (name, make)| {
        let values: Vec<Box<dyn Fn() -> bool>> = sizes.iter().map(|&n| make(n)).collect();
        growth(cx, &sizes, &|k| format!("writing {name} of {} bytes", sizes[k]), &mut |k| values[k]());
    });
    references(run);
}

/// Processor time this thread has used
fn cpu() -> f64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    }
}

/// How much more than the input's growth the time may grow
const SLACK: f64 = 6.0;
const FLOOR: f64 = 0.15;

/// The work on inputs of growing sizes survives and takes time proportional to the size
fn growth(cx: &mut Cx<'_>, sizes: &[usize], label: &dyn Fn(usize) -> String, work: &mut dyn FnMut(usize) -> bool) {
    let mut times: Vec<f64> = Vec::new();
    for k in 0..sizes.len() {
        let label = label(k);
        cx.count(hash(&label));
        let mut once = |cx: &mut Cx<'_>| -> Option<f64> {
            let t = cpu();
            let r = cx.guard("long", &label, || work(k));
            let t = cpu() - t;
            match r {
                Ok(true) => cx.accepted += 1,
                Ok(false) => cx.rejected += 1,
                Err(p) => {
                    cx.violation("panic", &label, "Ok or Err", &p);
                    return None;
                }
            }
            Some(t)
        };
        let Some(mut t) = once(cx) else { return };
        // Compared to the size before, repeated when it looks slow
        if let Some(&before) = times.last() {
            let allowed = before * SLACK * (sizes[k] as f64 / sizes[k - 1] as f64) + FLOOR;
            let mut tries = 2;
            while t > allowed && tries > 0 {
                let Some(again) = once(cx) else { return };
                t = t.min(again);
                tries -= 1;
            }
            if t > allowed {
                let got = format!("{t:.3} s, after {before:.3} s for {} bytes", sizes[k - 1]);
                cx.violation("growth", &label, "time in proportion to the size", &got);
                return;
            }
        }
        times.push(t);
    }
}

/// Malformed references of all lengths, with characters of several bytes at all places in them
fn references(run: &Run) {
    let max: usize = run.pick(12, 20);
    let kinds = [case!(R<String>), case!(misc::A1<String>), case!(misc::D1<String>), de_case!(AnyElement<'_>), case!(R<Option<u8>>)];
    let heads = ["", "#", "#x", "#x1", "a", "é;", "&", "&lt;"];
    run.par("broken references", &heads, |cx, head| {
        let wide = ['b', 'é', '€', '\u{1F600}', ';', '&', '#'];
        for len in 0..=max {
            for fill in ["1", "a"] {
                for i in 0..=len {
                    for j in i..=len {
                        for one in wide {
                            for two in wide {
                                if cx.run.stopped() {
                                    return;
                                }
                                let body: String =
                                    (0..len).map(|k| match k {
                                        k if k == i => one.to_string(),
                                        k if k == j => two.to_string(),
                                        _ => fill.to_owned(),
                                    }).collect();
                                for end in ["", ";"] {
                                    let text = format!("é&{head}{body}{end}");
                                    let docs = [
                                        (format!("<r><v>{text}</v></r>"), 0),
                                        (format!("<A1 v='{text}'/>"), 1),
                                        (format!("<D1>{text}</D1>"), 2),
                                        (format!("<r>{text}</r>"), 3),
                                        (format!("<r a='{text}'/>"), 3),
                                        (format!("<r><v>{text}</v></r>"), 4),
                                    ];
                                    for (doc, k) in &docs {
                                        let case = &kinds[*k];
                                        cx.count(hash(&(case.name, doc)));
                                        let r = cx.guard(case.name, doc, || match (case.de)(doc) {
                                            Ok(_) => true,
                                            Err(e) => e.to_string().is_empty(),
                                        });
                                        match r {
                                            Ok(true) => cx.accepted += 1,
                                            Ok(false) => cx.rejected += 1,
                                            Err(p) => cx.violation("panic", &format!("{}: {doc}", case.name), "Ok or Err", &p),
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    });
}

/// Every value can be written or refused
fn values(run: &Run) {
    let cases = common::cases();
    let rich = run.pick(common::small_rich(), common::quick_rich());
    run.par("writing", &cases, |cx, case| {
        for v in gen::values((case.ty)(), rich) {
            cx.count(hash(&(case.name, &v)));
            let label = format!("{v:?}");
            if let Err(p) = cx.guard(case.name, &label, || (case.to_string)(&v).is_ok()) {
                cx.violation("panic", &format!("{}: {label}", case.name), "Ok or Err", &p);
            }
        }
    });
    let node = ns::case();
    let roots: Vec<usize> = (0..ns::count()).collect();
    run.par("writing container trees", &roots, |cx, &r| {
        ns::small(r, &mut |v| {
            cx.count(hash(&v));
            let label = format!("{v:?}");
            if let Err(p) = cx.guard(node.name, &label, || (node.to_string)(&v).is_ok()) {
                cx.violation("panic", &label, "Ok or Err", &p);
            }
        })
    });
    // Every character there is, and every pair of bytes worth of characters next to each other
    let strs = [case!(misc::E1<String>), case!(misc::A1<String>), case!(misc::E1<char>)];
    let blocks: Vec<u32> = (0..0x1100).collect();
    run.par("writing every character", &blocks, |cx, &b| {
        for n in b << 8..(b + 1) << 8 {
            let Some(c) = char::from_u32(n) else { continue };
            for case in &strs {
                cx.count(hash(&(case.name, c)));
                let v = Val::Rec(vec![Val::S(c.to_string())]);
                let r = cx.guard(case.name, "character", || (case.to_string)(&v).is_ok());
                if let Err(p) = r {
                    cx.violation("panic", &format!("{}: {c:?}", case.name), "Ok or Err", &p);
                }
            }
        }
    });
    let _ = pairs::cases;
}

// Pull scripts on broken documents

const BROKEN: [&str; 30] = [
    "<r/>",
    "<r></r>",
    "<r>t</r>",
    "<r a='1' b='2'>t<v c='3'>u</v><w/>x</r>",
    "<r><v>",
    "<r><v></r>",
    "<r></v>",
    "<r></v></r>",
    "<r>t&bad;<v/></r>",
    "<r a='&bad;'><v/></r>",
    "<r><p:v/>t</r>",
    "<r><p:v a='1'>t</p:v><w/></r>",
    "<r p:a='1'><v/></r>",
    "<r><?pi?><v/></r>",
    "<r><!DOCTYPE x><v/></r>",
    "<r></r></r></r>",
    "<r/></r>",
    "<r/><r/>",
    "<r/>t",
    "<r><v/></v></r>",
    "<r><v></w></r>",
    "<r><v></w></v></r>",
    "<r><v><w></v></w></r>",
    "<r xmlns:p='u'><p:v></v></p:v></r>",
    "<r a='1'",
    "<r a='1'>",
    "<r><![CDATA[",
    "<r><!--",
    "<r><v a=/></r>",
    "<r>\u{1}<v/></r>",
];

#[derive(Clone, Copy)]
struct Script<'s> {
    ops: &'s [u8],
}

/// Any calls in any order, going on after errors
fn scripts(run: &Run) {
    let mut docs: Vec<String> = BROKEN.iter().map(|s| s.to_string()).collect();
    docs.push(format!("<r>{}{}</r>", "<v>".repeat(40), "</v>".repeat(40)));
    docs.push(format!("<r{}/>", (0..70).map(|i| format!(" a{i}=''")).collect::<String>()));
    docs.push(format!("<r><v{}/></r>", (0..40).map(|i| format!(" xmlns:a{i}='u'")).collect::<String>()));
    let depth = run.pick(6, 8);
    // Seven different calls
    let mut work = Vec::new();
    for d in &docs {
        for first in 0..OPS {
            work.push((d.clone(), first));
        }
    }
    run.par("call scripts on broken documents", &work, |cx, (doc, first)| {
        let mut ops = vec![0u8; depth];
        ops[0] = *first;
        loop {
            if cx.run.stopped() {
                return;
            }
            let label = format!("{ops:?} on {doc}");
            cx.count(hash(&(&ops, doc)));
            let r = cx.guard("script", &label, || {
                let Ok(mut d) = Deserializer::new(doc) else { return true };
                let mut s = Script { ops: &ops };
                play(&mut d, &mut s);
                // Whatever happened, the end comes
                let mut left = 4 * doc.len() + 64;
                while left > 0 {
                    match d.next() {
                        None => return true,
                        Some(Err(_)) => left = left.saturating_sub(8),
                        Some(Ok(_)) => left -= 1,
                    }
                }
                // Errors may repeat for ever, but nodes may not
                matches!(d.next(), None | Some(Err(_)))
            });
            match r {
                Ok(true) => {}
                Ok(false) => cx.violation("endless", &label, "an end", "nodes without end"),
                Err(p) => cx.violation("panic", &label, "no panic", &p),
            }
            // Next script
            let mut k = depth;
            loop {
                if k == 1 {
                    return;
                }
                k -= 1;
                ops[k] += 1;
                if ops[k] < OPS {
                    break;
                }
                ops[k] = 0;
            }
        }
    });
}

const OPS: u8 = 8;

fn play<'xml>(d: &mut Deserializer<'_, 'xml>, s: &mut Script<'_>) {
    while let Some((&op, rest)) = s.ops.split_first() {
        s.ops = rest;
        match op {
            // Step, going into elements
            0 => match d.next() {
                Some(Ok(Node::Open(e))) => {
                    let _ = d.element_id(&e);
                    let mut inner = d.nested(e);
                    play(&mut inner, s);
                }
                Some(Ok(Node::Attribute(a))) => {
                    let _ = d.attribute_id(&a);
                }
                _ => {}
            },
            // Step, whatever it is
            1 => drop(d.next()),
            2 => drop(d.ignore()),
            3 => drop(d.take_str()),
            // Leave
            4 => return,
            5 => {
                let _ = d.parent();
                let _ = (d.namespace("p"), d.namespace("xml"), d.namespace(""));
            }
            // Put a node back
            6 => match d.next() {
                Some(Ok(Node::Attribute(a))) => {
                    let _ = d.for_node(Node::AttributeValue(a.value)).take_str();
                }
                Some(Ok(node)) => {
                    let mut again = d.for_node(node);
                    play(&mut again, s);
                }
                _ => {}
            },
            // Read a value here
            _ => {
                let _ = d.deserialize::<R<Option<u8>>>();
            }
        }
    }
}
