//! The same laws for words of every kind, wherever a document may have one.

use mcore::engine::{Cx, Run};
use mcore::model::{Case, Val};
use mcore::{case, de_case, judge, refde, vocab, xml};

use super::inert;
use crate::zoo::{misc, scope};

/// C06, C07, C12, C14, C15: small documents with the word in all places
pub fn documents(run: &Run, check: &(dyn Fn(&mut Cx<'_>, &str) + Sync)) {
    let words = vocab::words(run.quick());
    run.par("words of every kind", &words, |cx, w| {
        for doc in vocab::documents(w) {
            check(cx, &doc);
        }
    });
}

/// C03: prefixes of every kind, and names that are nearly right
pub fn prefixes(run: &Run) {
    let words = vocab::words(run.quick());
    let trees = [case!(scope::Any3), de_case!(instant_xml::AnyElement<'_>)];
    let fields = [case!(scope::FieldsNone), case!(scope::FieldsA), case!(scope::FieldsB)];
    run.par("prefixes of every kind", &words, |cx, w| {
        let docs = [
            format!("<{w}:e xmlns:{w}='urn:a' x='1' {w}:x='2'><{w}:e/><e xmlns='urn:b' {w}:x='3'/><e/></{w}:e>"),
            format!("<e xmlns:{w}='urn:b' {w}:x='2' x='1'><{w}:e xmlns:{w}='urn:a' {w}:x='4'/><{w}:e/></e>"),
            format!("<e xmlns='urn:a' xmlns:{w}='urn:b'><{w}:e><e xmlns=''/><e/></{w}:e></e>"),
            format!("<e xmlns:{w}='urn:a' xmlns:{w}x='urn:b'><{w}:e/><{w}x:e {w}:x='1'/><{w}:e {w}x:x='2'/></e>"),
            format!("<e xmlns:x{w}='urn:a' xmlns:{w}='urn:b'><{w}:e/><x{w}:e {w}:x='1'/><{w}:e x{w}:x='2'/></e>"),
            format!("<e xmlns:{w}='urn:a' xmlns:p='{w}'><p:e/><{w}:e/></e>"),
            format!("<e xmlns:p='urn:a' xmlns:{w}='urn:b' xmlns:q='urn:a'><p:e/><{w}:e q:x='1'/></e>"),
            // Out of scope
            format!("<{w}:e/>"),
            format!("<{w}:e xmlns='urn:a'/>"),
            format!("<e {w}:x='1'/>"),
            format!("<e xmlns='urn:a' {w}:x='1'/>"),
            format!("<e><e xmlns:{w}='urn:a'/><{w}:e/></e>"),
            format!("<e><e xmlns:{w}='urn:a'/><e {w}:x='1'/></e>"),
            format!("<e xmlns:{w}x='urn:a'><{w}:e/></e>"),
            format!("<e xmlns:{w}='urn:a'><e {w}x:x='1'/></e>"),
            // Redeclared
            format!("<e xmlns:{w}='urn:a'><e xmlns:{w}='urn:a'><{w}:e/></e><{w}:e/></e>"),
            format!("<e xmlns:{w}='urn:b'><e xmlns:{w}='urn:a' xmlns:p='urn:b'><{w}:e p:x='1'/><p:e {w}:x='2'/></e><{w}:e/></e>"),
        ];
        for doc in &docs {
            for case in &trees {
                judge::de(cx, case, doc);
            }
        }
        for root in ["<r", "<r xmlns='urn:a'", "<r xmlns='urn:b'", "<p:r xmlns:p='urn:a'"] {
            let end = if root.starts_with("<p") { "</p:r>" } else { "</r>" };
            for kids in [
                format!(" xmlns:{w}='urn:a'><{w}:e>1</{w}:e><{w}:f>2</{w}:f>"),
                format!(" xmlns:{w}='urn:b'><{w}:e>1</{w}:e><{w}:f>2</{w}:f><{w}:g>Y</{w}:g><f xmlns='urn:a'>3</f>"),
                format!(" xmlns:{w}='urn:f'><{w}:e>1</{w}:e><e>2</e>"),
                format!("><{w}:e>1</{w}:e>"),
                format!("><e xmlns:{w}='urn:f'>1</e><{w}:e>2</{w}:e>"),
                // A namespace or name that is none of them
                format!("><e xmlns='{w}'>1</e><f xmlns='urn:{w}'>2</f><g xmlns='urn:b{w}'>Y</g>"),
                format!("><{w}>1</{w}><e>2</e>"),
                format!("><{w} xmlns='urn:f'>1</{w}><e{w}>2</e{w}><f xmlns='urn:a'><{w}/></f>"),
            ] {
                let doc = format!("{root}{kids}{end}");
                for case in &fields {
                    judge::de(cx, case, &doc);
                }
            }
        }
    });
}

/// C09: strangers with names of every kind
pub fn strangers(run: &Run) {
    let words = vocab::words(run.quick());
    let kinds: Vec<(Case, &str)> = vec![
        (case!(misc::Tree), "<Tree@ id='1'^>~<name>n</name>~<Tree@ id='2'^>~</Tree>~</Tree>"),
        (case!(misc::Chain), "<Chain@^>~<before>1</before>~<Chain@>~</Chain>~</Chain>"),
        (case!(misc::E1<Vec<u32>>), "<E1@^>~<v@>1</v>~<v^>2</v>~</E1>"),
        (case!(misc::A1<u8>), "<A1 v='3'@^>~t~</A1>"),
        (case!(scope::FieldsA), "<r@ xmlns='urn:a'^>~<e>1</e>~<f>2</f>~</r>"),
        (case!(scope::InA), "<e@ xmlns='urn:a' xmlns:p='urn:a' p:x='1'^>~<e@/>~<e xmlns=''/>~</e>"),
    ];
    run.par("strangers of every kind", &words, |cx, w| {
        let els = [
            String::new(),
            format!("<{w}/>"),
            format!("<{w} {w}='1'>{w}<{w}/></{w}>"),
            format!("<z:{w} xmlns:z='urn:zz'>1</z:{w}>"),
            format!("<{w}:z xmlns:{w}='urn:zz'><{w}:v>1</{w}:v></{w}:z>"),
            format!("<v xmlns='{w}'>1</v>"),
        ];
        let attrs = [String::new(), format!(" {w}='1'"), format!(" z:{w}='1' xmlns:z='urn:zz'"), format!(" xmlns:{w}='urn:zz' {w}:z='1'")];
        for (case, form) in &kinds {
            let plain = form.replace(['@', '^', '~'], "");
            let Ok(orig) = refde::expect((case.ty)(), &plain) else { panic!("{plain}") };
            for (k, e) in els.iter().enumerate() {
                for (j, a) in attrs.iter().enumerate() {
                    // One, or both in the same place
                    if k > 0 && j > 0 && k != j {
                        continue;
                    }
                    for at in ['@', '^'] {
                        let doc = form.replace(at, a).replace('~', e).replace(['@', '^'], "");
                        inert::same(cx, case, &orig, &doc);
                    }
                }
            }
        }
    });
}

/// C01 and others: the words as contents
pub fn contents(run: &Run, check: &(dyn Fn(&mut Cx<'_>, &Case, &Val) + Sync)) {
    let words = vocab::words(run.quick());
    run.par("words as contents", &words, |cx, w| {
        let s = || Val::S(w.clone());
        for case in [case!(misc::E1<String>), case!(misc::A1<String>), case!(misc::D1<String>)] {
            check(cx, &case, &Val::Rec(vec![s()]));
        }
        check(cx, &case!(misc::E1<Vec<String>>), &Val::Rec(vec![Val::List(vec![s(), s()])]));
        check(cx, &case!(misc::E1<Option<String>>), &Val::Rec(vec![Val::Some(Box::new(s()))]));
    });
}

/// C06: broken documents with the word
pub fn broken(run: &Run, refuse: &(dyn Fn(&mut Cx<'_>, &Case, &str) + Sync), kinds: &[Case]) {
    let words = vocab::words(run.quick());
    run.par("broken documents with words of every kind", &words, |cx, w| {
        let cut = &w[..w.char_indices().last().map_or(0, |(i, _)| i)];
        let mut docs = vocab::documents(w);
        for end in [format!("{w}x"), format!("x{w}"), cut.to_owned(), w.to_uppercase(), format!("p:{w}"), format!("{w}:{w}"), "v".into()] {
            docs.push(format!("<{w}>1</{end}>"));
            docs.push(format!("<r><{w}>1</{end}></r>"));
            docs.push(format!("<r xmlns:p='u'><p:{w}>1</{end}></r>"));
            docs.push(format!("<r><{w}><{w}/></{end}></{w}></r>"));
            docs.push(format!("<r><{end}></{w}></r>"));
        }
        docs.push(format!("<r {w}='1' {w}='2'/>"));
        docs.push(format!("<r {w}='1' a='3' {w}='2'/>"));
        docs.push(format!("<r><v {w}='1' {w}='1'>1</v></r>"));
        docs.push(format!("<r xmlns:p='u' xmlns:q='u' p:{w}='1' q:{w}='2'/>"));
        docs.push(format!("<r xmlns:{w}='u' xmlns:{w}='u'/>"));
        docs.push(format!("<r xmlns:{w}='u' xmlns:p='u' {w}:a='1' p:a='2'/>"));
        docs.push(format!("<r><v>&{w};</v></r>"));
        docs.push(format!("<r v='&{w};'/>"));
        docs.push(format!("<r><v>1</v>&{w};</r>"));
        docs.push(format!("<r {w}/>"));
        docs.push(format!("<r {w}=1/>"));
        docs.push(format!("<r><{w}</r>"));
        docs.push(format!("<r/>{w}"));
        docs.push(format!("{w}<r/>"));
        docs.push(format!("<r xmlns:{w}=''/>"));
        docs.push(format!("<r><v xmlns:{w}='u'>1</v><{w}:v/></r>"));
        for doc in &docs {
            for case in kinds {
                refuse(cx, case, doc);
            }
        }
    });
}

/// Nothing that is left open
pub fn parsed(doc: &str) -> bool {
    xml::parse(doc).is_ok_and(|d| d.open.is_none())
}
