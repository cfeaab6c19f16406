//! C11: all call sequences of the serializer.

use std::fmt;

use instant_xml::ser::{Context, Element, Prefix, Serializer};
use instant_xml::{Error, Id, ToXml};
use crate::choice::Chooser;
use crate::engine::{hash, Cx, Run};
use crate::model::Tag;
use crate::refser::{self, OEl, OKid, Scope};
use crate::xml;

const SPACES: [&str; 3] = ["", "urn:a", "urn:b"];

const DECLS: [&[(&str, &str)]; 7] = [
    &[],
    &[("p", "urn:a")],
    &[("p", "urn:b")],
    &[("p", "urn:a"), ("q", "urn:b")],
    &[("q", "urn:b"), ("p", "urn:a")],
    &[("p", "urn:b"), ("q", "urn:a")],
    &[("q", "urn:c")],
];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    /// Namespace, and (declarations, force) if there is a context
    Start(usize, Option<(usize, bool)>),
    /// Namespace, kind of value
    Attr(usize, usize),
    Str(usize),
    EndStart,
    EndEmpty,
    Close,
}

/// An attribute value that tries everything else first and afterwards
struct Meddler<'a>(&'a std::cell::RefCell<Vec<String>>);

impl ToXml for Meddler<'_> {
    fn serialize<W: fmt::Write + ?Sized>(&self, _: Option<Id<'_>>, s: &mut Serializer<'_, W>) -> Result<(), Error> {
        let tries = |s: &mut Serializer<'_, W>, at: &str| {
            let mut bad = Vec::new();
            if s.write_start("n", "", None::<Context<0>>).is_ok() {
                bad.push("start");
            }
            if s.write_start("n", "urn:a", Some(context(1, 3, true))).is_ok() {
                bad.push("start with context");
            }
            if s.write_attr("y", "", "v").is_ok() {
                bad.push("attribute");
            }
            if s.end_start().is_ok() {
                bad.push("end of start");
            }
            if s.end_empty().is_ok() {
                bad.push("empty end");
            }
            if s.write_close(token("n")).is_ok() {
                bad.push("close");
            }
            for b in bad {
                self.0.borrow_mut().push(format!("{b} {at} in an attribute value"));
            }
        };
        tries(s, "first");
        s.write_str("m1")?;
        tries(s, "after a string");
        s.write_str(&2)?;
        tries(s, "last");
        Ok(())
    }
}

fn context(ns: usize, decls: usize, force: bool) -> Context<2> {
    let mut cx = Context::default();
    cx.default_ns = SPACES[ns];
    for (to, (prefix, ns)) in cx.prefixes.iter_mut().zip(DECLS[decls]) {
        *to = Prefix { prefix, ns };
    }
    cx.force_prefix = force;
    cx
}

/// An element to close where none must be closed
fn token(name: &str) -> Element<'_, 2> {
    let mut out = String::new();
    let mut s = Serializer::new(&mut out);
    s.write_start(name, "urn:tok", Some(context(1, 3, false))).unwrap()
}

struct Level {
    el: OEl,
    name: &'static str,
    /// Before this element
    outer: Scope,
    /// In this element
    scope: Scope,
    /// No elements in here: without a context the namespace is not in force for children
    leaf: bool,
    attrs: usize,
}

struct Alphabet {
    starts: Vec<Op>,
    attrs: Vec<Op>,
}

impl Alphabet {
    fn new(decls: usize) -> Self {
        let mut starts = Vec::new();
        for ns in 0..SPACES.len() {
            starts.push(Op::Start(ns, None));
            for d in 0..decls {
                for force in [false, true] {
                    starts.push(Op::Start(ns, Some((d, force))));
                }
            }
        }
        let mut attrs = Vec::new();
        for kind in 0..4 {
            attrs.push(Op::Attr(0, kind));
        }
        attrs.push(Op::Attr(1, 0));
        attrs.push(Op::Attr(2, 0));
        Self { starts, attrs }
    }
}

const ATTRS: [&str; 8] = ["x0", "x1", "x2", "x3", "x4", "x5", "x6", "x7"];
const NAMES: [&str; 3] = ["e", "f", "e"];

struct Sim<'o, W: fmt::Write + ?Sized> {
    s: Serializer<'o, W>,
    tokens: Vec<Element<'static, 2>>,
    stack: Vec<Level>,
    top: Vec<OKid>,
    in_tag: bool,
    scope: Scope,
    trace: Vec<Op>,
    steps: u64,
    bad: Option<(String, String)>,
}

impl<W: fmt::Write + ?Sized> Sim<'_, W> {
    fn fail(&mut self, want: impl Into<String>, got: impl Into<String>) {
        if self.bad.is_none() {
            self.bad = Some((want.into(), got.into()));
        }
    }

    /// The legal calls
    fn legal(&self, al: &Alphabet, out: &mut Vec<Op>) {
        out.clear();
        if self.in_tag {
            for a in &al.attrs {
                let Op::Attr(ns, _) = *a else { continue };
                if ns == 0 || self.scope_of_tag().prefixes.contains_key(SPACES[ns]) {
                    out.push(*a);
                }
            }
            if self.stack.last().unwrap().attrs >= ATTRS.len() {
                out.clear();
            }
            out.extend([Op::EndStart, Op::EndEmpty]);
            return;
        }
        out.extend([Op::Str(0), Op::Str(1)]);
        if !self.stack.is_empty() {
            out.push(Op::Close);
        }
        if !self.stack.last().is_some_and(|l| l.leaf) {
            out.extend(&al.starts);
        }
    }

    fn scope_of_tag(&self) -> &Scope {
        self.stack.last().map_or(&self.scope, |l| &l.scope)
    }

    /// Calls that are not legal here: an error, and nothing else
    fn illegal(&mut self, read: &dyn Fn() -> usize) {
        let before = read();
        let mut wrong = Vec::new();
        match self.in_tag {
            true => {
                for (name, r) in [
                    ("start", self.s.write_start("n", "", None::<Context<0>>).map(drop)),
                    ("start with context", self.s.write_start("n", "urn:b", Some(context(2, 5, true))).map(drop)),
                    ("string", self.s.write_str("n")),
                    ("close", self.s.write_close(token("n"))),
                    ("attribute without prefix", self.s.write_attr("n", "urn:nowhere", "n")),
                ] {
                    if r.is_ok() {
                        wrong.push(name);
                    }
                }
            }
            false => {
                for (name, r) in [
                    ("attribute", self.s.write_attr("n", "", "n")),
                    ("end of start", self.s.end_start()),
                    ("empty end", self.s.end_empty()),
                    ("attribute in a namespace", self.s.write_attr("n", "urn:a", "n")),
                ] {
                    if r.is_ok() {
                        wrong.push(name);
                    }
                }
            }
        }
        self.steps += 5;
        for w in wrong {
            self.fail("an error", format!("{w} is taken in the wrong state"));
        }
        if read() != before {
            self.fail("nothing written", "a call in the wrong state writes");
        }
        self.lookups();
    }

    /// The lookups agree with the declarations in scope
    fn lookups(&mut self) {
        let scope = self.scope_of_tag().clone();
        if self.s.default_ns() != scope.default {
            let got = self.s.default_ns();
            self.fail(format!("default namespace {:?}", scope.default), format!("{got:?}"));
        }
        for ns in ["", "urn:a", "urn:b", "urn:c", "urn:tok"] {
            let want = scope.prefixes.get(ns).map(String::as_str);
            let got = self.s.prefix(ns);
            if got != want {
                self.fail(format!("prefix {want:?} for {ns:?}"), format!("{got:?}"));
            }
        }
    }

    fn step(&mut self, op: Op) {
        self.trace.push(op);
        self.steps += 1;
        let r = match op {
            Op::Start(ns, cx) => {
                let name = NAMES[self.trace.len() % NAMES.len()];
                let outer = self.scope_of_tag().clone();
                let uri = SPACES[ns];
                let (scope, r) = match cx {
                    None => (outer.clone(), self.s.write_start(name, uri, None)),
                    Some((d, force)) => {
                        let tag = Tag {
                            rust: "",
                            ns: uri,
                            name,
                            prefixes: DECLS[d].to_vec(),
                            force_prefix: force,
                        };
                        let (_, inner) = refser::container(&tag, &outer);
                        (inner, self.s.write_start(name, uri, Some(context(ns, d, force))))
                    }
                };
                match r {
                    Ok(token) => {
                        self.tokens.push(token);
                        self.stack.push(Level {
                            el: OEl::new(uri, name),
                            name,
                            outer,
                            scope,
                            leaf: cx.is_none(),
                            attrs: 0,
                        });
                        self.in_tag = true;
                        Ok(())
                    }
                    Err(e) => Err(e),
                }
            }
            Op::Attr(ns, kind) => {
                let level = self.stack.last_mut().unwrap();
                let name = ATTRS[level.attrs];
                level.attrs += 1;
                let notes = std::cell::RefCell::new(Vec::new());
                let (r, value) = match kind {
                    0 => (self.s.write_attr(name, SPACES[ns], "v<\"&'"), "v<\"&'"),
                    1 => (self.s.write_attr(name, SPACES[ns], &None::<u8>), ""),
                    2 => (self.s.write_attr(name, SPACES[ns], &vec![1u8, 20]), "120"),
                    _ => (self.s.write_attr(name, SPACES[ns], &Meddler(&notes)), "m12"),
                };
                level.el.attrs.push((SPACES[ns].into(), name.into(), value.into()));
                if let Some(n) = notes.into_inner().pop() {
                    self.fail("an error", n);
                }
                r
            }
            Op::Str(kind) => {
                let (r, t) = match kind {
                    0 => (self.s.write_str("t"), "t"),
                    _ => (self.s.write_str(&-5i32), "-5"),
                };
                match self.stack.last_mut() {
                    Some(l) => l.el.text(t),
                    None => match self.top.last_mut() {
                        Some(OKid::T(prev)) => prev.push_str(t),
                        _ => self.top.push(OKid::T(t.into())),
                    },
                }
                r
            }
            Op::EndStart => {
                self.in_tag = false;
                self.s.end_start()
            }
            Op::EndEmpty => {
                self.in_tag = false;
                self.tokens.pop();
                self.leave();
                self.s.end_empty()
            }
            Op::Close => {
                let token = self.tokens.pop().unwrap();
                self.leave();
                self.s.write_close(token)
            }
        };
        if let Err(e) = r {
            self.fail("Ok", format!("{op:?} gives {e:?}"));
        }
    }

    fn leave(&mut self) {
        let l = self.stack.pop().unwrap();
        debug_assert_eq!(l.name, l.el.name);
        debug_assert_eq!(&l.outer, self.scope_of_tag());
        match self.stack.last_mut() {
            Some(p) => p.el.kids.push(OKid::E(l.el)),
            None => self.top.push(OKid::E(l.el)),
        }
    }

    fn key(&self) -> u64 {
        let scopes: Vec<_> = self.stack.iter().map(|l| (&l.scope, &l.el.ns, l.leaf, l.attrs)).collect();
        hash(&(self.in_tag, scopes))
    }
}

/// Writes into a shared buffer, so that its length can be seen while the serializer lives
struct Shared<'b>(&'b std::cell::RefCell<String>);

impl fmt::Write for Shared<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.borrow_mut().push_str(s);
        Ok(())
    }
}

/// One sequence: `depth` chosen calls, then whatever closes everything
fn one(cx: &mut Cx<'_>, ch: &mut Chooser, al: &Alphabet, depth: usize) {
    let buf = std::cell::RefCell::new(String::new());
    let mut out = Shared(&buf);
    let mut states = Vec::new();
    let mut trace = Vec::new();
    let got = cx.guard("serializer calls", "", || {
        let mut sim = Sim {
            s: Serializer::new(&mut out),
            tokens: Vec::new(),
            stack: Vec::new(),
            top: Vec::new(),
            in_tag: false,
            scope: Scope::default(),
            trace: Vec::new(),
            steps: 0,
            bad: None,
        };
        let len = || buf.borrow().len();
        let mut legal = Vec::new();
        for _ in 0..depth {
            sim.illegal(&len);
            sim.legal(al, &mut legal);
            let op = legal[ch.choose(legal.len())];
            if ch.void || sim.bad.is_some() {
                break;
            }
            sim.step(op);
            sim.lookups();
            states.push(sim.key());
        }
        while !ch.void && sim.bad.is_none() && (sim.in_tag || !sim.stack.is_empty()) {
            sim.illegal(&len);
            // Both ways to end a tag
            let op = match (sim.in_tag, sim.trace.len() % 2) {
                (true, 0) => Op::EndStart,
                (true, _) => Op::EndEmpty,
                (false, _) => Op::Close,
            };
            sim.step(op);
            sim.lookups();
            states.push(sim.key());
        }
        trace = std::mem::take(&mut sim.trace);
        (sim.top, sim.steps, sim.bad)
    });
    if ch.void {
        return;
    }
    let label = format!("{trace:?}");
    let written = buf.borrow().clone();
    cx.count(hash(&trace));
    cx.validated += 1;
    for s in states {
        cx.state(s);
    }
    match got {
        Err(p) => cx.violation("serializer calls", &label, "no panic", &p),
        Ok((_, _, Some((want, got)))) => {
            cx.violation("serializer calls", &format!("{label} wrote {written}"), &want, &got)
        }
        Ok((top, steps, None)) => {
            cx.transitions += steps;
            let doc = format!("<w>{written}</w>");
            let mut want = OEl::new("", "w");
            want.kids = top;
            let same = match xml::parse(&doc) {
                Ok(d) => d.open.is_none() && d.comments == 0 && want.same(&d.root),
                Err(_) => false,
            };
            cx.accepted += 1;
            cx.sample(|| format!("{label} wrote {written}"));
            if !same {
                cx.violation("serializer calls", &label, &format!("{want:?}"), &doc);
            }
        }
    }
}

fn explore(run: &Run, part: &str, decls: usize, depth: usize) {
    let al = Alphabet::new(decls);
    // The first call is a start or a string; the second anything
    let first = 2 + al.starts.len();
    let mut work = Vec::new();
    for a in 0..first {
        for b in 0..first + 1 {
            work.push([a, b]);
        }
    }
    run.par(part, &work, |cx, forced| {
        let mut ch = Chooser::new(forced);
        loop {
            one(cx, &mut ch, &al, depth);
            if !ch.next() || cx.run.stopped() {
                return;
            }
        }
    });
}

pub fn c11(run: &Run) {
    explore(run, "call sequences, all contexts", 7, run.pick(5, 6));
    explore(run, "call sequences, few contexts", 2, run.pick(6, 8));
    nests(run);
    crate::nodes::explore(run, crate::nodes::Look::Calls);
}

/// Elements in elements, with every context at every level, and after each of them a sibling
fn nests(run: &Run) {
    let mut kinds = Vec::new();
    for ns in 0..SPACES.len() {
        for d in 0..DECLS.len() {
            for force in [false, true] {
                kinds.push(Op::Start(ns, Some((d, force))));
            }
        }
    }
    let quick = run.quick();
    let work: Vec<(Op, Op)> = kinds.iter().flat_map(|a| kinds.iter().map(move |b| (*a, *b))).collect();
    run.par("nested contexts", &work, |cx, &(a, b)| {
        for c in &kinds {
            for (i, d) in kinds.iter().enumerate() {
                if quick && (i + kinds.iter().position(|k| k == c).unwrap()) % 6 != 0 {
                    continue;
                }
                for empty in [false, true] {
                    let end = if empty { &[Op::EndEmpty][..] } else { &[Op::EndStart, Op::Close][..] };
                    let mut ops = vec![a, Op::EndStart, b, Op::EndStart, *c];
                    ops.extend(end);
                    ops.push(*d);
                    ops.extend(end);
                    ops.push(Op::Close);
                    ops.push(*d);
                    ops.extend(end);
                    ops.push(Op::Close);
                    ops.push(*d);
                    ops.extend(end);
                    script(cx, &ops);
                }
                if cx.run.stopped() {
                    return;
                }
            }
        }
    });
}

/// One given sequence, with attributes in all possible namespaces on every element
fn script(cx: &mut Cx<'_>, ops: &[Op]) {
    let buf = std::cell::RefCell::new(String::new());
    let mut out = Shared(&buf);
    let mut states = Vec::new();
    let got = cx.guard("serializer calls", "", || {
        let mut sim = Sim {
            s: Serializer::new(&mut out),
            tokens: Vec::new(),
            stack: Vec::new(),
            top: Vec::new(),
            in_tag: false,
            scope: Scope::default(),
            trace: Vec::new(),
            steps: 0,
            bad: None,
        };
        for op in ops {
            if sim.bad.is_some() {
                break;
            }
            sim.step(*op);
            if sim.in_tag {
                for ns in 1..SPACES.len() {
                    if sim.scope_of_tag().prefixes.contains_key(SPACES[ns]) {
                        sim.step(Op::Attr(ns, 0));
                    }
                }
                sim.step(Op::Attr(0, 0));
            }
            sim.lookups();
            states.push(sim.key());
        }
        (sim.top, sim.steps, sim.bad)
    });
    let label = format!("{ops:?}");
    let written = buf.borrow().clone();
    cx.count(hash(&(1, ops)));
    cx.validated += 1;
    for s in states {
        cx.state(s);
    }
    match got {
        Err(p) => cx.violation("serializer calls", &label, "no panic", &p),
        Ok((_, _, Some((want, got)))) => {
            cx.violation("serializer calls", &format!("{label} wrote {written}"), &want, &got)
        }
        Ok((top, steps, None)) => {
            cx.transitions += steps;
            cx.accepted += 1;
            let doc = format!("<w>{written}</w>");
            let mut want = OEl::new("", "w");
            want.kids = top;
            let same = match xml::parse(&doc) {
                Ok(d) => d.open.is_none() && d.comments == 0 && want.same(&d.root),
                Err(_) => false,
            };
            if !same {
                cx.violation("serializer calls", &label, &format!("{want:?}"), &doc);
            }
        }
    }
}
