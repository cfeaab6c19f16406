//! C12: all call sequences of the pull deserializer over all small documents, against a cursor in
//! the reference tree.

use std::fmt::Write;

use instant_xml::de::{Deserializer, Node};
use instant_xml::AnyElement;

use crate::choice::Chooser;
use crate::engine::{hash, Cx, Run};
use crate::model::{Model, Val};
use crate::refde;
use crate::vocab;
use crate::xml::{self, El, Kid, XML_NS};

type Bad = (String, String);

struct Sim<'c, 'e> {
    ch: &'c mut Chooser,
    /// How many more times something other than the plain walk may be chosen
    left: usize,
    /// Whether a node of ours was put in already
    put: bool,
    scopes: Vec<&'e El<'e>>,
    place: Vec<usize>,
    trace: Vec<u8>,
    steps: u64,
    keys: Vec<u64>,
    doc: u64,
    /// Prefixes declared anywhere
    names: Vec<&'e str>,
}

fn bad<T>(want: impl Into<String>, got: impl Into<String>) -> Result<T, Bad> {
    Err((want.into(), got.into()))
}

enum Stop {
    /// The script ends inside of an element that was not entered
    Here,
    Bad(Bad),
}

impl From<Bad> for Stop {
    fn from(b: Bad) -> Self {
        Stop::Bad(b)
    }
}

impl<'e> Sim<'_, 'e> {
    fn pick(&mut self, n: usize) -> usize {
        let i = match self.left {
            0 => 0,
            _ => self.ch.choose(n),
        };
        if i > 0 {
            self.left -= 1;
        }
        self.trace.push(i as u8);
        i
    }

    fn key(&mut self, done: bool) {
        self.keys.push(hash(&(self.doc, &self.place, done)));
    }

    fn lookup(&self, prefix: &str) -> Option<&'e str> {
        if prefix.is_empty() {
            return None;
        }
        if prefix == "xml" {
            return Some(XML_NS);
        }
        self.scopes
            .iter()
            .rev()
            .find_map(|e| e.decls.iter().find(|(p, _)| *p == prefix).map(|(_, ns)| *ns))
    }

    /// What can be asked at any time
    fn ask(&mut self, d: &Deserializer<'_, '_>, el: &El<'_>, done: bool) -> Result<(), Bad> {
        self.steps += 5;
        let id = d.parent();
        if id.ns != el.ns || id.name != el.local {
            return bad(format!("parent {:?} {:?}", el.ns, el.local), format!("{id:?}"));
        }
        if done {
            return Ok(());
        }
        let declared = self.names.clone();
        for p in ["p", "q", "xml", "none", "", "pp", "P", "urn:1"].into_iter().chain(declared) {
            if d.namespace(p) != self.lookup(p) {
                return bad(
                    format!("{p} is bound to {:?}", self.lookup(p)),
                    format!("{:?} at {:?}", d.namespace(p), self.place),
                );
            }
        }
        Ok(())
    }

    /// The element is over, and stays so
    fn over(&mut self, d: &mut Deserializer<'_, '_>, el: &El<'_>) -> Result<(), Bad> {
        self.key(true);
        for _ in 0..2 {
            self.steps += 3;
            self.ask(d, el, true)?;
            if let Some(n) = d.next() {
                return bad("no node after the end", format!("{n:?}"));
            }
            if let Err(e) = d.ignore() {
                return bad("nothing to ignore after the end", format!("{e:?}"));
            }
            match d.take_str() {
                Ok(None) => {}
                other => return bad("no string after the end", format!("{other:?}")),
            }
        }
        Ok(())
    }

    /// All of `el`, from its first attribute
    fn walk<'xml>(&mut self, d: &mut Deserializer<'_, 'xml>, el: &'e El<'e>) -> Result<(), Stop> {
        self.scopes.push(el);
        self.place.push(0);
        let end = el.attrs.len() + el.kids.len();
        let mut pos = 0;
        loop {
            *self.place.last_mut().unwrap() = pos;
            self.key(false);
            self.ask(d, el, false)?;
            self.steps += 1;
            let ops = if self.put { 3 } else { 5 };
            match self.pick(ops) {
                // Next
                0 => {
                    let got = d.next();
                    if pos == end {
                        if got.is_some() {
                            return Err(Stop::Bad((format!("the end of {}", el.local), format!("{got:?}"))));
                        }
                        break;
                    }
                    match (pos.checked_sub(el.attrs.len()).map(|k| &el.kids[k]), got) {
                        (None, Some(Ok(Node::Attribute(a)))) => {
                            let want = &el.attrs[pos];
                            match d.attribute_id(&a) {
                                Ok(id) if id.ns == want.ns && id.name == want.local => {}
                                other => return Err(Stop::Bad((format!("{want:?}"), format!("{other:?}")))),
                            }
                            if a.value != want.value {
                                return Err(Stop::Bad((format!("{want:?}"), format!("{a:?}"))));
                            }
                            match self.pick(3) {
                                0 => {}
                                1 => match d.for_node(Node::AttributeValue(a.value)).take_str() {
                                    Ok(Some(s)) if s == want.value => {}
                                    other => return Err(Stop::Bad((format!("{want:?}"), format!("{other:?}")))),
                                },
                                _ => match d.for_node(Node::Attribute(a)).next() {
                                    Some(Ok(Node::Attribute(a))) if a.local == want.local && a.value == want.value => {}
                                    other => return Err(Stop::Bad((format!("{want:?}"), format!("{other:?}")))),
                                },
                            }
                        }
                        (Some(Kid::T(want, _)), Some(Ok(Node::Text(t)))) => {
                            if t != *want {
                                return Err(Stop::Bad((format!("text {want:?}"), format!("{t:?}"))));
                            }
                            match self.pick(3) {
                                0 => {}
                                1 => match d.for_node(Node::Text(t)).take_str() {
                                    Ok(Some(s)) if s == *want => {}
                                    other => return Err(Stop::Bad((format!("{want:?}"), format!("{other:?}")))),
                                },
                                _ => match d.for_node(Node::Text(t)).next() {
                                    Some(Ok(Node::Text(t))) if t == *want => {}
                                    other => return Err(Stop::Bad((format!("{want:?}"), format!("{other:?}")))),
                                },
                            }
                        }
                        (Some(Kid::E(kid)), Some(Ok(Node::Open(e)))) => {
                            match d.element_id(&e) {
                                Ok(id) if id.ns == kid.ns && id.name == kid.local => {}
                                other => {
                                    return Err(Stop::Bad((format!("{:?} {:?}", kid.ns, kid.local), format!("{other:?}"))))
                                }
                            }
                            *self.place.last_mut().unwrap() = pos;
                            let left = e;
                            match self.pick(4) {
                                0 => {
                                    let mut inner = d.nested(e);
                                    self.walk(&mut inner, kid)?;
                                }
                                1 => {
                                    let mut inner = d.nested(e);
                                    self.ask_new(&inner, kid)?;
                                    if let Err(e) = inner.ignore() {
                                        return Err(Stop::Bad(("ignored".into(), format!("{e:?}"))));
                                    }
                                    self.over(&mut inner, kid)?;
                                }
                                2 => {
                                    let mut inner = d.nested(e);
                                    self.ask_new(&inner, kid)?;
                                    let want = Val::Any(Box::new(refde::any(kid)));
                                    match inner.deserialize::<AnyElement<'_>>() {
                                        Ok(v) if v.to_val() == want => {}
                                        other => return Err(Stop::Bad((format!("{want:?}"), format!("{other:?}")))),
                                    }
                                    self.over(&mut inner, kid)?;
                                }
                                _ => {
                                    let mut again = d.for_node(Node::Open(e));
                                    self.ask_again(&again, el)?;
                                    let Some(Ok(Node::Open(e))) = again.next() else {
                                        return Err(Stop::Bad(("the element again".into(), "something else".into())));
                                    };
                                    let mut inner = again.nested(e);
                                    self.walk(&mut inner, kid)?;
                                }
                            }
                            // It keeps its name, unless it declared its own prefix
                            if kid.prefix.is_empty() || kid.decls.iter().all(|(p, _)| *p != kid.prefix) {
                                match d.element_id(&left) {
                                    Ok(id) if id.ns == kid.ns && id.name == kid.local => {}
                                    other => {
                                        return Err(Stop::Bad((
                                            format!("still {:?} {:?}", kid.ns, kid.local),
                                            format!("{other:?}"),
                                        )))
                                    }
                                }
                            }
                        }
                        (want, got) => {
                            return Err(Stop::Bad((format!("{want:?}"), format!("{got:?}"))));
                        }
                    }
                    pos += 1;
                }
                // Skip the rest
                1 => match d.ignore() {
                    Ok(()) => break,
                    Err(e) => return Err(Stop::Bad(("ignored".into(), format!("{e:?}")))),
                },
                // Another node put in, which changes nothing else
                3 => {
                    self.put = true;
                    match d.for_node(Node::Text("new".into())).next() {
                        Some(Ok(Node::Text(t))) if t == "new" => {}
                        other => return Err(Stop::Bad(("the text put in".into(), format!("{other:?}")))),
                    }
                }
                4 => {
                    self.put = true;
                    let mut value = d.for_node(Node::AttributeValue("<new".into()));
                    match (value.take_str(), value.next()) {
                        (Ok(Some(s)), None) if s == "<new" => {}
                        other => return Err(Stop::Bad(("the value put in, and only that".into(), format!("{other:?}")))),
                    }
                }
                // Take a string
                _ => {
                    let got = d.take_str();
                    pos = pos.max(el.attrs.len());
                    match (el.kids.get(pos - el.attrs.len()), got) {
                        (None, Ok(None)) => break,
                        (Some(Kid::T(t, _)), Ok(Some(s))) if *t == s => pos += 1,
                        (Some(Kid::E(_)), Err(_)) => {
                            *self.place.last_mut().unwrap() = pos;
                            return Err(Stop::Here);
                        }
                        (want, got) => return Err(Stop::Bad((format!("string of {want:?}"), format!("{got:?}")))),
                    }
                }
            }
        }
        *self.place.last_mut().unwrap() = end;
        self.scopes.pop();
        self.over(d, el)?;
        self.place.pop();
        Ok(())
    }

    fn ask_new(&mut self, d: &Deserializer<'_, '_>, kid: &'e El<'e>) -> Result<(), Bad> {
        self.scopes.push(kid);
        let r = self.ask(d, kid, false);
        self.scopes.pop();
        r
    }

    /// The declarations of the element put back are already in scope, but its parent is the same
    fn ask_again(&mut self, d: &Deserializer<'_, '_>, el: &El<'_>) -> Result<(), Bad> {
        self.ask(d, el, true)
    }
}

fn size(el: &El<'_>) -> usize {
    el.kids.iter().fold(1, |n, k| match k {
        Kid::E(e) => n + size(e),
        Kid::T(..) => n,
    })
}

fn names<'e>(el: &'e El<'e>) -> Vec<&'e str> {
    let mut out: Vec<&'e str> = el.decls.iter().map(|d| d.0).collect();
    for k in &el.kids {
        if let Kid::E(e) = k {
            out.extend(names(e));
        }
    }
    out.sort();
    out.dedup();
    out.retain(|p| !["p", "q", ""].contains(p));
    out
}

fn one(cx: &mut Cx<'_>, ch: &mut Chooser, doc: &str, parsed: &xml::Doc<'_>, deviations: usize) {
    let mut sim = Sim {
        ch,
        left: deviations,
        put: cx.run.quick() && size(&parsed.root) > 3,
        scopes: Vec::new(),
        place: Vec::new(),
        trace: Vec::new(),
        steps: 0,
        keys: Vec::new(),
        doc: hash(doc),
        names: names(&parsed.root),
    };
    let got = cx.guard("pull", doc, || {
        let mut d = match Deserializer::new(doc) {
            Ok(d) => d,
            Err(e) => return Err(Stop::Bad(("a deserializer".into(), format!("{e:?}")))),
        };
        sim.walk(&mut d, &parsed.root)
    });
    let Sim { trace, steps, keys, doc: key, .. } = sim;
    cx.count(hash(&(key, &trace)));
    cx.validated += 1;
    cx.transitions += steps;
    for k in keys {
        cx.state(k);
    }
    cx.sample(|| format!("{doc} {trace:?}"));
    let label = || format!("choices {trace:?} on {doc}");
    match got {
        Ok(Ok(()) | Err(Stop::Here)) => cx.accepted += 1,
        Ok(Err(Stop::Bad((want, got)))) => cx.violation("pull", &label(), &want, &got),
        Err(p) => cx.violation("pull", &label(), "no panic", &p),
    }
}

/// All scripts with up to that many choices other than the plain walk
pub fn scripts(cx: &mut Cx<'_>, doc: &str, deviations: usize) {
    let parsed = xml::parse(doc).unwrap_or_else(|e| panic!("{e}: {doc}"));
    assert!(parsed.open.is_none(), "{doc}");
    let mut ch = Chooser::new(&[]);
    loop {
        one(cx, &mut ch, doc, &parsed, deviations);
        if !ch.next() || cx.run.stopped() {
            return;
        }
    }
}

/// Start tags (name, the rest)
pub const KINDS: [(&str, &str); 9] = [
    ("a", ""),
    ("b", " x=\"1\""),
    ("p:a", ""),
    ("a", " xmlns=\"urn:1\""),
    ("a", " xmlns:p=\"urn:2\" p:x=\"&lt;\""),
    ("p:b", " x='' xmlns:p=\"urn:1\" y=\"2\""),
    ("q:a", " xmlns:q=\"urn:1\" xmlns=\"\""),
    ("q:a", " q:x=\"1\" x=\"2\" xmlns:q=\"urn:2\" xml:lang=\"de\""),
    ("a", " xmlns=\"\" x=\"1\" xmlns:q=\"urn:p\""),
];

pub const ROOTS: [(&str, &str); 3] = [
    ("a", " xmlns:p=\"urn:p\""),
    ("p:a", " xmlns=\"urn:1\" x=\"r\" xmlns:p=\"urn:p\""),
    ("b", " xmlns:p=\"urn:1\" p:y=\"&#65;\" xmlns:q=\"urn:q\" y=\"\""),
];

/// Texts before, between and after the children, cyclically
pub const TEXTS: [&[&str]; 5] = [
    &[""],
    &["t", "", "u"],
    &["", "v&amp;w"],
    &["<!--c-->", "t<!--c--><![CDATA[<]]>u", " "],
    &["\n ", "x", ""],
];

/// `parents[k]` is the parent of node `k + 1`
pub fn doc(parents: &[usize], kinds: &[(&str, &str)], texts: &[&str], short: bool) -> String {
    fn go(i: usize, parents: &[usize], kinds: &[(&str, &str)], texts: &[&str], at: &mut usize, short: bool, out: &mut String) {
        let (name, rest) = kinds[i];
        let mut text = |out: &mut String| {
            out.push_str(texts[*at % texts.len()]);
            *at += 1;
        };
        write!(out, "<{name}{rest}").unwrap();
        let mut body = String::new();
        text(&mut body);
        let mut any = false;
        let mut k = 0;
        while k < parents.len() {
            if parents[k] == i {
                any = true;
                go(k + 1, parents, kinds, texts, at, short, &mut body);
                body.push_str(texts[*at % texts.len()]);
                *at += 1;
            }
            k += 1;
        }
        match !any && body.is_empty() && short {
            true => out.push_str("/>"),
            false => write!(out, ">{body}</{name}>").unwrap(),
        }
    }
    let mut out = String::new();
    go(0, parents, kinds, texts, &mut 0, short, &mut out);
    out
}

/// Ordered trees with exactly `n` nodes, as parents
pub fn shapes(n: usize) -> Vec<Vec<usize>> {
    fn go(n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() + 1 == n {
            out.push(cur.clone());
            return;
        }
        let mut at = Some(cur.len());
        while let Some(p) = at {
            cur.push(p);
            go(n, cur, out);
            cur.pop();
            at = (p > 0).then(|| cur[p - 1]);
        }
    }
    let mut out = Vec::new();
    go(n, &mut Vec::new(), &mut out);
    out
}

pub fn c12(run: &Run) {
    let words = vocab::words(run.quick());
    run.par("words of every kind", &words, |cx, w| {
        for doc in vocab::documents(w) {
            // The pull interface is asked about documents that can be read as a whole
            match refde::expect(AnyElement::ty(), &doc) {
                Ok(_) => scripts(cx, &doc, cx.run.pick(1, 2)),
                Err(_) => cx.open += 1,
            }
        }
    });

    // (nodes, kinds of tags, deviations)
    let plan: &[(usize, usize, usize)] = run.pick(
        &[(1, 9, 9), (2, 9, 4), (3, 9, 2), (3, 5, 3), (4, 4, 2), (5, 2, 2)],
        &[(1, 9, 20), (2, 9, 6), (3, 9, 3), (4, 9, 2), (5, 4, 2), (6, 2, 2)],
    );
    for &(nodes, kinds, deviations) in plan {
        let mut work: Vec<(Vec<usize>, usize, usize)> = Vec::new();
        for s in shapes(nodes) {
            for r in 0..ROOTS.len() {
                for t in 0..TEXTS.len() {
                    work.push((s.clone(), r, t));
                }
            }
        }
        // Enough pieces for all cores
        let work: Vec<_> = work
            .into_iter()
            .flat_map(|(s, r, t)| (0..if nodes > 1 { kinds } else { 1 }).map(move |k| (s.clone(), r, t, k)))
            .collect();
        let part = format!("documents of {nodes} elements, {deviations} deviations");
        run.par(&part, &work, |cx, (s, r, t, k)| {
            let mut tags = vec![ROOTS[*r]; nodes];
            let mut pick = vec![0; nodes];
            if nodes > 1 {
                pick[1] = *k;
            }
            loop {
                for i in 1..nodes {
                    tags[i] = KINDS[pick[i]];
                }
                for short in [false, true] {
                    if short && *t == 3 {
                        continue;
                    }
                    scripts(cx, &doc(s, &tags, TEXTS[*t], short), deviations);
                }
                if cx.run.stopped() {
                    return;
                }
                let mut i = nodes;
                loop {
                    if i <= 2 {
                        return;
                    }
                    i -= 1;
                    pick[i] += 1;
                    if pick[i] < kinds {
                        break;
                    }
                    pick[i] = 0;
                }
            }
        });
    }
}
