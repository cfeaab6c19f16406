//! C06: nothing malformed is accepted.

use mcore::engine::{hash, Cx, Run};
use mcore::gen::{self, Ns, Style};
use mcore::model::Case;
use mcore::{case, de_case, judge, xml};

use super::common;
use crate::zoo::{leaf, misc};

/// A violation only if the reference finds the document malformed and the library takes it
fn refuse(cx: &mut Cx<'_>, case: &Case, doc: &str) {
    cx.count(hash(&(case.name, doc)));
    let why = match xml::parse(doc) {
        Ok(_) => {
            cx.accepted += 1;
            return;
        }
        Err(why) => why,
    };
    cx.rejected += 1;
    let got = cx.guard(case.name, doc, || (case.de)(doc));
    cx.sample(|| format!("{}: {doc} ({why})", case.name));
    if !matches!(got, Ok(Err(_))) {
        cx.violation("malformed", &format!("{}: {doc}", case.name), &format!("an error ({why})"), &judge::show(&got));
    }
}

fn styles(quick: bool) -> Vec<Style> {
    let mut out = vec![
        gen::PLAIN,
        Style { short: true, ns: Ns::Root, ..gen::PLAIN },
    ];
    if !quick {
        out.push(Style { ns: Ns::Local, quote: '\'', pad: " ", ..gen::PLAIN });
        out.push(Style { ns: Ns::Shadow, short: true, ..gen::PLAIN });
    }
    out
}

pub fn c06(run: &Run) {
    let rich = run.pick(common::small_rich(), common::quick_rich());
    let corpus = common::corpus(rich, run.pick(12, 60), true);
    let styles = styles(run.quick());

    run.par("truncations", &corpus, |cx, item| {
        for tree in &item.trees {
            for st in &styles {
                let doc = gen::print(tree, *st);
                for (i, _) in doc.char_indices() {
                    refuse(cx, &item.case, &doc[..i]);
                }
                if cx.run.stopped() {
                    return;
                }
            }
        }
    });

    run.par("edits of tokens", &corpus, |cx, item| {
        for tree in &item.trees {
            for st in &styles {
                edits(cx, &item.case, &gen::print(tree, *st));
                // The same with content the type ignores around it
                let mut stranger = tree.clone();
                let mut odd = gen::leaf("urn:odd", "odd", "t");
                odd.kids.push(mcore::refser::OKid::E(gen::leaf("", "v", "")));
                stranger.kids.insert(0, mcore::refser::OKid::E(odd));
                edits(cx, &item.case, &gen::print(&stranger, *st));
                if cx.run.stopped() {
                    return;
                }
            }
        }
    });

    let chars = [
        "<", ">", "/", "=", "\"", "'", "&", ";", "#", "!", "-", "[", "]", "?", ":", " ", "x", "1", "X", "\0", "é", "\u{ffff}", "/>", "--", "]]>",
    ];
    let corpus = common::corpus(rich, run.pick(3, 20), true);
    run.par("edits of characters", &corpus, |cx, item| {
        for tree in &item.trees {
            for st in &styles {
                let doc = gen::print(tree, *st);
                letters(cx, &item.case, &doc, &chars);
                if cx.run.stopped() {
                    return;
                }
            }
        }
    });

    // All sequences of tokens
    let toks = [
        "<r>", "</r>", "<v>", "</v>", "<v/>", "t", "<r/>", "<!--c-->", "<p:v xmlns:p=\"u\">", "</p:v>", "<p:v/>", " ",
    ];
    let kinds: Vec<Case> = vec![
        case!(R<Option<u8>>),
        case!(R<Vec<String>>),
        case!(R<Option<V>>),
        de_case!(instant_xml::AnyElement<'_>),
        case!(RUnit),
        case!(RDirect),
        case!(RF),
        case!(RTuple),
        de_case!(R<()>),
    ];
    let max = run.pick(6, 7);
    let heads = common::heads(&toks);
    run.par("token sequences", &heads, |cx, head| {
        common::from_head(&toks, head, max, &mut |doc| {
            if cx.run.stopped() {
                return;
            }
            // The reference verdict does not depend on the type
            let bad = xml::parse(doc).err();
            cx.count(hash(doc));
            for (n, de) in [from_str_of::<Stop<0>>, from_str_of::<Stop<1>>, from_str_of::<Stop<2>>].iter().enumerate() {
                let got = cx.guard("Stop", doc, || de(doc));
                if got.as_ref().map_or(true, |g| g.is_ok() != bad.is_none()) {
                    let want = bad.as_ref().map_or("accepted".to_owned(), |why| format!("an error ({why})"));
                    cx.violation("unread", &format!("{n} nodes read of {doc}"), &want, &format!("{got:?}"));
                }
            }
            match bad {
                None => cx.accepted += 1,
                Some(why) => {
                    cx.rejected += 1;
                    for case in &kinds {
                        let got = cx.guard(case.name, doc, || (case.de)(doc));
                        if !matches!(got, Ok(Err(_))) {
                            cx.violation(
                                "malformed",
                                &format!("{}: {doc}", case.name),
                                &format!("an error ({why})"),
                                &judge::show(&got),
                            );
                        }
                    }
                }
            }
        });
    });

    // End tags of every name against start tags of every name
    let names = ["a", "b", "ab", "A", "p:a", "q:a", "p:b", "x", ":a"];
    let ends = ["a", "b", "ab", "A", "p:a", "q:a", "p:b", "x", "a ", "p:a\n", "a/", "", "pa", ":a"];
    let any: Vec<Case> = vec![de_case!(instant_xml::AnyElement<'_>), case!(Ax), case!(R<u8>), case!(misc::Tree)];
    run.par("pairs of tags", &names, |cx, outer| {
        for inner in names {
            for e1 in ends {
                for e2 in ends {
                    for body in ["", "t", "<x/>", "<!---->"] {
                        let doc = format!(
                            "<{outer} xmlns:p=\"u\" xmlns:q=\"u\"><{inner}>{body}</{e1}></{e2}>"
                        );
                        for case in &any {
                            refuse(cx, case, &doc);
                        }
                    }
                }
            }
        }
    });

    // Tags with any attributes, good, repeated or broken, wherever the tag is
    let parts = [
        " a=\"1\"", " a='2'", " b='1'", " p:a='1'", " q:a='1'", " xmlns='u'", " xmlns=''", " xmlns:p='u'", " xmlns:q='u'", " :a='1'",
        " a:='1'", " xmlns:='u'", "a='1'", " a=1", " a", " a=", " a='<'", " a='&'", " a='&x;'", " a='1", " 1='1'", " a=\"'", " p:q:a=''",
        " a\n=\t'1'", "\n",
    ];
    let mut any = any;
    any.push(de_case!(R<()>));
    let max = run.pick(3, 4);
    run.par("attributes of a tag", &common::heads(&parts), |cx, head| {
        common::from_head(&parts, head, max, &mut |attrs| {
            if cx.run.stopped() {
                return;
            }
            for doc in [
                format!("<r{attrs}/>"),
                format!("<a{attrs}></a>"),
                format!("<r><v{attrs}>1</v></r>"),
                format!("<r><p:v xmlns:p='u'{attrs}/><v>1</v></r>"),
                format!("<Tree><u><v{attrs}/></u></Tree>"),
            ] {
                for case in &any {
                    refuse(cx, case, &doc);
                }
            }
        });
    });

    full_tags(run, &any);

    let faults = [
        "</v>", "<v>", "<", "&", "&x;", "&#0;", "<p:v/>", "</x>", "<v a='1' a='2'/>", "</r>", "<v b></v>", "\0", "]]>", "<v></V>", "<v></p:v>", "<!--",
        "<![CDATA[", "<v/", "<v a='<'/>", "<!-- -- -->", "<v xmlns:p='u' xmlns:p='u'/>", "\u{ffff}", "<v a='&'/>", "<p:v xmlns:p='u'></v>",
    ];
    super::scale::faults(run, &refuse, &kinds, &faults);
    super::vocab::broken(run, &refuse, &kinds);
    run.seq("known exceptions", |cx| {
        let doc = "<r xmlns:p=\"&bad\"><v>1</v></r>";
        let got = cx.guard("R", doc, || (kinds[0].de)(doc));
        let ok = matches!(&got, Ok(Err(_)));
        cx.run.probe("bad-reference-in-namespace", doc, "an error", &judge::show(&got), ok);
    });
}

/// Start tags with any number of attributes and declarations, with one of them repeated or broken
/// at any position
fn full_tags(run: &Run, kinds: &[Case]) {
    type Name = fn(usize) -> String;
    let names: Vec<(Name, usize)> = vec![
        (|i| format!("a{i}"), 62),
        (|i| format!("p:a{i}"), 62),
        (|i| format!("{}a{}", if i % 2 == 0 { "p:" } else { "" }, i / 2), 62),
        (|i| "a".repeat(i + 1), 62),
        (|i| format!("q{i}:a"), 30),
        (|i| format!("xmlns:x{i}"), 30),
        (|i| if i == 0 { "xmlns".to_owned() } else { format!("xmlns:x{i}") }, 30),
        (|i| if i % 2 == 0 { format!("xmlns:x{i}") } else { format!("x{i}") }, 60),
    ];
    let bad = [" :x='1'", " x='&'", " x='&#0;'", " x='<'", " x=1", " x", " x='1", " 1='1'", " ='1'", " x:='1'", " xmlns:='u'", " </x", "<x"];
    let work: Vec<(usize, usize)> = (0..names.len()).flat_map(|m| (1..=names[m].1).map(move |n| (m, n))).collect();
    run.par("full start tags", &work, |cx, &(m, n)| {
        let (name, _) = names[m];
        let attrs: Vec<String> = (0..n).map(|i| format!(" {}='u{i}'", name(i))).collect();
        let mut open = "<r xmlns:p='urn:p'".to_owned();
        if m == 4 {
            (0..30).for_each(|i| open.push_str(&format!(" xmlns:q{i}='urn:q{i}'")));
        }
        let test = |cx: &mut Cx<'_>, at: usize, fault: &str| {
            let (before, after) = (attrs[..at].concat(), attrs[at..].concat());
            let docs = [
                format!("{open}><v{before}{fault}{after}/></r>"),
                format!("{open}><v>1</v><o{before}{fault}{after}>t</o></r>"),
                format!("{open}{before}{fault}{after}></r>"),
            ];
            // Declarations stand in the root already
            let some = if m == 4 { 2 } else { 3 };
            for (d, doc) in docs[..some].iter().enumerate() {
                let k = (at + n + d) % kinds.len();
                refuse(cx, &kinds[k], doc);
                refuse(cx, &kinds[(k + 3) % kinds.len()], doc);
            }
        };
        for i in 0..n {
            if cx.run.stopped() {
                return;
            }
            for at in i + 1..=n {
                test(cx, at, &format!(" {}=\"\"", name(i)));
                if cx.run.quick() && n > 24 && at > i + 2 && at + 2 < n {
                    continue;
                }
                test(cx, at, &attrs[i]);
            }
        }
        for at in 0..=n {
            for fault in bad {
                test(cx, at, fault);
            }
        }
    });
}

/// Every character deleted, doubled, swapped with the next, replaced by any other or preceded by it
fn letters(cx: &mut Cx<'_>, case: &Case, doc: &str, chars: &[&str]) {
    let mut text = String::with_capacity(doc.len() + 8);
    for (i, c) in doc.char_indices() {
        let after = i + c.len_utf8();
        let mut with = |cx: &mut Cx<'_>, mid: &str, rest: &str| {
            text.clear();
            text.push_str(&doc[..i]);
            text.push_str(mid);
            text.push_str(rest);
            refuse(cx, case, &text);
        };
        with(cx, "", &doc[after..]);
        with(cx, &doc[i..after], &doc[i..]);
        if let Some(next) = doc[after..].chars().next() {
            with(cx, &format!("{next}{c}"), &doc[after + next.len_utf8()..]);
        }
        for new in chars {
            with(cx, new, &doc[after..]);
            with(cx, new, &doc[i..]);
        }
    }
}

fn edits(cx: &mut Cx<'_>, case: &Case, doc: &str) {
    let toks = common::tokens(doc);
    let mut try_all = |parts: &[&str]| refuse(cx, case, &parts.concat());
    for i in 0..toks.len() {
        // Deleted, doubled, swapped
        let mut t = toks.clone();
        t.remove(i);
        try_all(&t);
        let mut t = toks.clone();
        t.insert(i, toks[i]);
        try_all(&t);
        if i + 1 < toks.len() {
            let mut t = toks.clone();
            t.swap(i, i + 1);
            try_all(&t);
        }
        // Another tag put in or instead
        for new in ["</v>", "<v>", "<un:known/>", "<un:known>t</un:known>", "</E1>", "<", "&", "<a b></a>", "<a b=c/>"] {
            let mut t = toks.clone();
            t[i] = new;
            try_all(&t);
            let mut t = toks.clone();
            t.insert(i, new);
            try_all(&t);
        }
        // An end tag with another name
        if let Some(name) = toks[i].strip_prefix("</") {
            let name = name.trim_end_matches('>');
            let local = name.rsplit(':').next().unwrap();
            for new in [
                format!("</{name}x>"),
                format!("</x{name}>"),
                format!("</{}>", &local[..local.len() - 1]),
                format!("</q:{local}>"),
                format!("</{local}>"),
                format!("</{}>", name.to_uppercase()),
                format!("</{name}/>"),
                format!("</{name} a=\"b\">"),
                format!("<{name}>"),
                format!("<{name}/>"),
            ] {
                let mut t = toks.clone();
                t[i] = &new;
                try_all(&t);
            }
        }
    }
    for tail in ["x", "<x/>", "</x>", "<x>", "&amp;", "<![CDATA[]]>", "<![CDATA[x]]>", "<!--", "<", ">", "<?x?>", "\u{a0}", "\0", "]]>", " x", "<!---->x"] {
        refuse(cx, case, &format!("{doc}{tail}"));
        refuse(cx, case, &format!("{tail}{doc}"));
    }
    refuse(cx, case, &format!("{doc}{doc}"));
}

use instant_xml::{Deserializer, Error, FromXml, Id, Kind, ToXml};
use model_derive::Model;

/// Takes any element, reads so many of its nodes and leaves the rest
struct Stop<const N: usize>;

impl<'xml, const N: usize> FromXml<'xml> for Stop<N> {
    fn matches(_: Id<'_>, _: Option<Id<'_>>) -> bool {
        true
    }

    fn deserialize<'cx>(into: &mut Self::Accumulator, _: &'static str, deserializer: &mut Deserializer<'cx, 'xml>) -> Result<(), Error> {
        for _ in 0..N {
            match deserializer.next().transpose()? {
                Some(instant_xml::de::Node::Open(el)) => deserializer.nested(el).ignore()?,
                Some(_) => {}
                None => break,
            }
        }
        *into = Some(Stop);
        Ok(())
    }

    type Accumulator = Option<Self>;
    const KIND: Kind = Kind::Element;
}

fn from_str_of<'a, T: FromXml<'a>>(doc: &'a str) -> Result<(), Error> {
    instant_xml::from_str::<T>(doc).map(|_| ())
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(rename = "r")]
pub struct R<T> {
    pub v: T,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(rename = "v")]
pub struct V {
    pub v: Option<Box<V>>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(rename = "r")]
pub struct RUnit;

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(rename = "r")]
pub struct RDirect {
    #[xml(direct)]
    t: Option<String>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(forward)]
pub enum RF {
    R(R<Vec<V>>),
    V(V),
    S(leaf::SL),
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(rename = "r")]
pub struct RTuple(V);

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(rename = "a")]
pub struct Ax {
    a: Option<String>,
    b: Option<String>,
}
