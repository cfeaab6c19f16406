//! C15: what is borrowed from the input, and what is not.

use std::borrow::Cow;
use std::fmt::Write;

use instant_xml::{from_str, Accumulate, AnyElement, Deserializer, Error, FromXml, ToXml};
use mcore::engine::{Cx, Run};
use mcore::model::Case;
use mcore::xml::{self, El, Kid};
use mcore::{case, de_case, judge, refde};
use model_derive::Model;

use super::common;

const C: &str = "urn:c";

/// A string of a value, with where it comes from in the document
type Got<'v> = Vec<(&'static str, &'v Cow<'v, str>)>;

/// All strings of a value that are declared to borrow, in document order of each name
trait Strings {
    fn strings(&self) -> Got<'_>;
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
pub struct BEl<'a> {
    #[xml(borrow)]
    v: Cow<'a, str>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
#[xml(ns("urn:b", b = "urn:b", c = "urn:c"), rename = "b-ns")]
pub struct BNs<'x> {
    #[xml(borrow, attribute, ns(C), rename = "at")]
    a: Cow<'x, str>,
    #[xml(rename = "elem", borrow, ns("urn:c"))]
    v: Cow<'x, str>,
    w: Option<String>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
pub struct BAt<'a> {
    #[xml(attribute, borrow)]
    x: std::borrow::Cow<'a, str>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
pub struct BMany<'a, 'b> {
    #[xml(attribute, borrow)]
    x: Cow<'a, str>,
    #[xml(attribute, borrow)]
    y: Cow<'b, str>,
    #[xml(borrow)]
    v: Cow<'a, str>,
    n: u8,
    #[xml(borrow)]
    w: Cow<'b, str>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]
pub struct BList<'a> {
    #[xml(borrow)]
    all: Vec<BEl<'a>>,
    #[xml(borrow)]
    at: Option<Box<BAt<'a>>>,
}

impl Strings for BEl<'_> {
    fn strings(&self) -> Got<'_> {
        vec![("v", &self.v)]
    }
}

impl Strings for BNs<'_> {
    fn strings(&self) -> Got<'_> {
        vec![("@at", &self.a), ("elem", &self.v)]
    }
}

impl Strings for BAt<'_> {
    fn strings(&self) -> Got<'_> {
        vec![("@x", &self.x)]
    }
}

impl Strings for BMany<'_, '_> {
    fn strings(&self) -> Got<'_> {
        vec![("@x", &self.x), ("@y", &self.y), ("v", &self.v), ("w", &self.w)]
    }
}

impl Strings for BList<'_> {
    fn strings(&self) -> Got<'_> {
        let mut out: Got<'_> = self.all.iter().map(|e| ("v", &e.v)).collect();
        if let Some(at) = &self.at {
            out.push(("@x", &at.x));
        }
        out
    }
}

/// What the document has under a name: content, and whether it is a slice of the input
type Src<'d> = Vec<(String, &'d str, bool)>;

fn sources<'d>(el: &'d El<'_>, out: &mut Src<'d>) {
    for a in &el.attrs {
        out.push((format!("@{}", a.local), &a.value, matches!(a.value, Cow::Borrowed(_))));
    }
    let mut kids = false;
    let mut texts = 0;
    for k in &el.kids {
        match k {
            Kid::E(_) => kids = true,
            Kid::T(..) => texts += 1,
        }
    }
    match (kids, texts) {
        (false, 0) => out.push((el.local.to_owned(), "", false)),
        (false, 1) => {
            if let Kid::T(t, plain) = &el.kids[0] {
                out.push((el.local.to_owned(), t, *plain && !t.is_empty()));
            }
        }
        _ => {}
    }
    for k in &el.kids {
        if let Kid::E(e) = k {
            sources(e, out);
        }
    }
}

fn inside(doc: &str, s: &str) -> bool {
    let d = doc.as_bytes().as_ptr_range();
    let s = s.as_bytes().as_ptr_range();
    d.start <= s.start && s.end <= d.end
}

fn wrong(doc: &str, want: &(String, &str, bool), got: &Cow<'_, str>) -> Option<String> {
    if got.as_ref() != want.1 {
        return Some(format!("{want:?}, but {got:?}"));
    }
    match got {
        Cow::Borrowed(s) if !s.is_empty() && !inside(doc, s) => Some(format!("{want:?} borrowed from elsewhere")),
        Cow::Owned(_) if want.2 && !want.1.is_empty() => Some(format!("{want:?} is owned")),
        _ => None,
    }
}

struct Kind {
    case: Case,
    check: fn(&mut Cx<'_>, &str),
    /// Documents with a place for an attribute and one for a text
    docs: &'static [&'static str],
}

fn check<'d, T: FromXml<'d> + Strings>(cx: &mut Cx<'_>, doc: &'d str) {
    let Ok(parsed) = xml::parse(doc) else { return };
    let mut src = Vec::new();
    sources(&parsed.root, &mut src);
    let got = cx.guard("borrow", doc, || match from_str::<T>(doc) {
        Ok(v) => {
            let mut used = vec![false; src.len()];
            for (name, s) in v.strings() {
                let at = (0..src.len()).find(|&i| !used[i] && src[i].0 == name);
                // Text beside elements is judged by its content only
                let Some(i) = at else { continue };
                used[i] = true;
                if let Some(w) = wrong(doc, &src[i], s) {
                    return Some(w);
                }
            }
            None
        }
        // Whether that is right is not decided here
        Err(_) => None,
    });
    cx.transitions += 1;
    match got {
        Ok(None) => {}
        other => cx.violation("borrow", doc, "slices of the input where possible", &format!("{other:?}")),
    }
}

fn check_any(cx: &mut Cx<'_>, doc: &str) {
    fn go(doc: &str, el: &El<'_>, any: &AnyElement<'_>) -> Option<String> {
        let name = |n: &str, got: &Cow<'_, str>| wrong(doc, &("name".into(), n, true), got);
        // Names that the document spells out, and namespaces from its declarations
        if let Some(w) = name(el.local, &any.name) {
            return Some(w);
        }
        if !el.ns.is_empty() && el.ns != xml::XML_NS {
            if let Some(w) = wrong(doc, &("namespace".into(), el.ns, true), &any.ns) {
                return Some(w);
            }
        }
        if el.attrs.len() != any.attributes.len() {
            return Some("other attributes".into());
        }
        for (a, b) in el.attrs.iter().zip(&any.attributes) {
            let w = name(a.local, &b.name)
                .or_else(|| wrong(doc, &("value".into(), &a.value, matches!(a.value, Cow::Borrowed(_))), &b.value));
            if w.is_some() {
                return w;
            }
        }
        let texts: Vec<_> = el.kids.iter().filter_map(|k| if let Kid::T(t, p) = k { Some((t, *p)) } else { None }).collect();
        if let ([(t, plain)], Some(got)) = (&texts[..], &any.text) {
            let w = wrong(doc, &("text".into(), t, *plain), got);
            if w.is_some() {
                return w;
            }
        }
        let kids = el.kids.iter().filter_map(|k| if let Kid::E(e) = k { Some(e) } else { None });
        for (k, a) in kids.zip(&any.children) {
            let w = go(doc, k, a);
            if w.is_some() {
                return w;
            }
        }
        None
    }
    let Ok(parsed) = xml::parse(doc) else { return };
    let got = cx.guard("borrow", doc, || match from_str::<AnyElement<'_>>(doc) {
        Ok(any) => go(doc, &parsed.root, &any),
        Err(_) => None,
    });
    cx.transitions += 1;
    match got {
        Ok(None) => {}
        other => cx.violation("borrow", doc, "slices of the input where possible", &format!("{other:?}")),
    }
}

fn kinds() -> Vec<Kind> {
    vec![
        Kind { case: case!(BEl<'_>), check: |cx, d| check::<BEl<'_>>(cx, d), docs: &[
            "<BEl u=\"A\"><v>T</v></BEl>",
            "<BEl><v a='A'>T</v></BEl>",
            "<BEl> <o/><v x=\"A\">T</v> </BEl>",
        ] },
        Kind { case: case!(BNs<'_>), check: |cx, d| check::<BNs<'_>>(cx, d), docs: &[
            "<b-ns xmlns='urn:b' xmlns:c='urn:c' c:at=\"A\"><c:elem>T</c:elem></b-ns>",
            "<b-ns xmlns='urn:b' xmlns:c='urn:c' c:at='A'><elem xmlns=\"urn:c\">T</elem><w>T</w></b-ns>",
            "<z:b-ns z:w='A' xmlns:z='urn:b' xmlns:c='urn:c' c:at='A'><w xmlns='urn:b'>T</w><c:elem >T</c:elem ></z:b-ns>",
        ] },
        Kind { case: case!(BAt<'_>), check: |cx, d| check::<BAt<'_>>(cx, d), docs: &[
            "<BAt x=\"A\"/>",
            "<BAt x='A'>T</BAt>",
            "<BAt y='A' x = 'A' z='A'><v>T</v></BAt>",
        ] },
        Kind { case: case!(BMany<'_, '_>), check: |cx, d| check::<BMany<'_, '_>>(cx, d), docs: &[
            "<BMany x='A' y=\"\"><v>T</v><n>1</n><w/></BMany>",
            "<BMany x='A' y=\"A\"><w>T</w><v/><n>1</n></BMany>",
            "<BMany x='z' y=\"A\"><w>T</w><v>q</v><n>1</n></BMany>",
        ] },
        Kind { case: case!(BList<'_>), check: |cx, d| check::<BList<'_>>(cx, d), docs: &[
            "<BList><BEl><v>T</v></BEl><BEl><v>T</v></BEl></BList>",
            "<BList><BEl><v>q</v></BEl><BAt x='A'/><BEl><v>T</v></BEl></BList>",
        ] },
        Kind { case: de_case!(AnyElement<'_>), check: check_any, docs: &[
            "<a x=\"A\">T</a>",
            "<p:a xmlns:p='urn:p' p:x='A'><b xmlns='urn:d' y='A'>T</b>T<p:c/></p:a>",
        ] },
    ]
}

const PIECES: [&str; 14] = [
    "a", "&amp;", "é", "<!--c-->", "<![CDATA[b]]>", "&#65;", " ", "😀", "\n", "]", "<![CDATA[&]]>", "&bad;", "<!---->", "&#x42;",
];

pub fn c15(run: &Run) {
    let kinds = kinds();
    let max = run.pick(4, 5);
    run.par("texts in pieces", &common::heads(&PIECES), |cx, head| {
        common::from_head(&PIECES, head, max, &mut |text| {
            if cx.run.stopped() {
                return;
            }
            for k in &kinds {
                for form in k.docs {
                    // In attributes, a fixed text with every text and the other way around
                    for at in ["q", "&lt;", "", text] {
                        if at.contains('<') {
                            continue;
                        }
                        let doc = fill(form, at, text);
                        one(cx, k, &doc);
                    }
                }
            }
        });
    });
    // The public helpers, called by hand
    run.par("helpers", &common::heads(&PIECES), |cx, head| {
        common::from_head(&PIECES, head, run.pick(3, 5), &mut |text| {
            if cx.run.stopped() {
                return;
            }
            for form in ["<r>@</r>", "<r a='1'>@</r >", "<p:r xmlns:p='urn:p' p:a=''>@</p:r>", "<r xmlns='urn:r'>@<!--c--></r>"] {
                helpers(cx, &form.replace('@', text));
            }
        });
    });
    run.seq("helpers, by hand", |cx| {
        for doc in ["<r/>", "<r a='x'/>", "<r></r>", "<r><!--c--></r>", "<r>a<b/></r>", "<r>a<b>c</b></r>", "<r>&amp;<b/></r>"] {
            helpers(cx, doc);
        }
        for n in 0..600 {
            helpers(cx, &format!("<r>{}</r>", "a".repeat(n)));
            helpers(cx, &format!("<r>{}&amp;</r>", "é".repeat(n)));
        }
    });
    // Absent, empty and doubled strings
    run.seq("absent, empty and doubled", |cx| {
        let docs = [
            "<BEl/>", "<BEl></BEl>", "<BEl><v/></BEl>", "<BEl><v></v></BEl>", "<BEl><v></v><v></v></BEl>", "<BEl><v>a</v><v/></BEl>",
            "<BEl><v/><v>a</v></BEl>", "<BEl><v>a</v><v>b</v></BEl>", "<BEl><v>a<b/></v></BEl>", "<BEl><v><b/>a</v></BEl>",
            "<BEl><v><b/></v></BEl>", "<BEl><V>a</V></BEl>", "<BEl><v xmlns='urn:x'>a</v></BEl>", "<BEl v='a'/>",
            "<BAt/>", "<BAt x=''/>", "<BAt x=\"\"/>", "<BAt X=''/>", "<BAt><x>a</x></BAt>", "<BAt xmlns:p='' p:x='a'/>",
            "<BAt xmlns:p='urn:p' p:x='a'/>", "<BDirect/>", "<BDirect></BDirect>", "<BDirect><b/></BDirect>", "<BDirect>a<!--c--></BDirect>",
            "<BMany x='' y=''><v/><w/></BMany>", "<BMany x='' y=''><v/><n>1</n></BMany>", "<BMany x='' y=''><n>1</n><w/></BMany>",
            "<BMany y=''><v/><n>1</n><w/></BMany>", "<BMany x=''><v/><n>1</n><w/></BMany>", "<BMany x='' y=''><v/><n>1</n><w/></BMany>",
            "<BList/>", "<BList><BAt/></BList>", "<BList><BEl/></BList>", "<BList><BAt x=''/><BAt x=''/></BList>",
        ];
        for k in &kinds {
            for doc in docs {
                one(cx, k, doc);
            }
        }
    });
    // Lengths and positions
    let lens: Vec<usize> = (0..run.pick(80, 300)).collect();
    run.par("lengths", &lens, |cx, &n| {
        for k in &kinds {
            for form in k.docs {
                for unit in ["a", "é", "😀"] {
                    let s = unit.repeat(n);
                    one(cx, k, &fill(form, &s, &s));
                    one(cx, k, &fill(form, &format!("{s}&lt;"), &format!("&gt;{s}")));
                }
            }
        }
    });
    let fill_in = |cx: &mut Cx<'_>, at: &str, text: &str| {
        for k in &kinds {
            for form in k.docs {
                one(cx, k, &fill(form, at, text));
            }
        }
    };
    super::scale::borrowed(run, &fill_in);
    super::vocab::documents(run, &|cx, doc| {
        if super::vocab::parsed(doc) {
            one(cx, &kinds[kinds.len() - 1], doc);
        }
    });
    // Together with every other position of a long document
    run.seq("known types", |cx| {
        for k in &kinds {
            assert!(!matches!(refde::expect((k.case.ty)(), &fill(k.docs[0], "q", "q")), Err(refde::No::Open(_))));
            one(cx, k, &fill(k.docs[0], "q", "q"));
        }
    });
}

/// What the helpers put in, for the text of the root; nothing for an empty one (bytes) or an
/// empty string
fn helpers(cx: &mut Cx<'_>, doc: &str) {
    use instant_xml::de::{borrow_cow_slice_u8, borrow_cow_str};
    type Acc<'x> = <Cow<'x, str> as FromXml<'x>>::Accumulator;
    let Ok(parsed) = xml::parse(doc) else { return };
    if parsed.open.is_some() {
        return;
    }
    let mut src = Vec::new();
    let root = &parsed.root;
    // Elements after the text are passed over
    match &root.kids[..] {
        [] => src.push(("text".to_owned(), "", false)),
        [Kid::T(t, plain), rest @ ..] if rest.iter().all(|k| matches!(k, Kid::E(_))) => {
            src.push(("text".to_owned(), &**t, *plain && rest.is_empty()))
        }
        _ => return,
    }
    let want = &src[0];
    cx.transitions += 1;
    let got = cx.guard("helpers", doc, || -> Result<Option<String>, Error> {
        let mut bytes: Option<Cow<'_, [u8]>> = None;
        borrow_cow_slice_u8(&mut bytes, "f", &mut Deserializer::new(doc)?)?;
        let as_str = match &bytes {
            None => None,
            Some(Cow::Borrowed(b)) => Some(Cow::Borrowed(std::str::from_utf8(b).unwrap_or("not UTF-8"))),
            Some(Cow::Owned(b)) => Some(Cow::Owned(String::from_utf8_lossy(b).into_owned())),
        };
        match &as_str {
            None if want.1.is_empty() => {}
            None => return Ok(Some("no bytes".into())),
            Some(s) => {
                if let Some(w) = wrong(doc, want, s) {
                    return Ok(Some(w));
                }
            }
        }
        if bytes.is_some() {
            let before = bytes.clone();
            match borrow_cow_slice_u8(&mut bytes, "f", &mut Deserializer::new(doc)?) {
                Err(Error::DuplicateValue("f")) if bytes == before => {}
                other => return Ok(Some(format!("bytes twice: {other:?}"))),
            }
        }
        let mut text = Acc::default();
        borrow_cow_str(&mut text, "f", &mut Deserializer::new(doc)?)?;
        if !matches!(borrow_cow_str(&mut text, "f", &mut Deserializer::new(doc)?), Err(Error::DuplicateValue("f"))) {
            return Ok(Some("a string twice".into()));
        }
        Ok(wrong(doc, want, &text.try_done("f")?))
    });
    match got {
        Ok(Ok(None)) => {}
        other => cx.violation("helpers", doc, &format!("{want:?}"), &format!("{other:?}")),
    }
}

/// `form` with its places filled; names with these letters are kept
fn fill(form: &str, at: &str, text: &str) -> String {
    let mut out = String::new();
    let mut rest = form;
    while let Some(c) = rest.chars().next() {
        if rest.starts_with("BAt") {
            out.push_str("BAt");
            rest = &rest[3..];
            continue;
        }
        let _ = match c {
            'A' => write!(out, "{at}"),
            'T' => write!(out, "{text}"),
            c => write!(out, "{c}"),
        };
        rest = &rest[c.len_utf8()..];
    }
    out
}

fn one(cx: &mut Cx<'_>, k: &Kind, doc: &str) {
    judge::de(cx, &k.case, doc);
    (k.check)(cx, doc);
}
