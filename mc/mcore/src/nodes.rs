//! Containers made at run time: what derived code does, for any names, namespaces and prefixes.

use std::fmt;

use instant_xml::ser::{Context, Prefix, Serializer};
use instant_xml::{Error, Id, ToXml};

use crate::engine::{hash, Cx, Run};
use crate::judge;
use crate::model::Tag;
use crate::refser::{self, OEl, OKid, Scope, Start};
use crate::vocab;
use crate::xml;

pub struct Node<'t> {
    pub tag: &'t Tag,
    /// Namespace and name; only those with a prefix in scope are written
    pub attrs: Vec<(&'static str, &'static str)>,
    pub kids: Vec<Kid<'t>>,
}

pub enum Kid<'t> {
    Node(Node<'t>),
    /// A scalar field
    Leaf(&'static str, &'static str),
}

impl Node<'_> {
    fn with<const N: usize, W: fmt::Write + ?Sized>(&self, s: &mut Serializer<'_, W>) -> Result<(), Error> {
        let mut cx = Context::<N>::default();
        cx.default_ns = self.tag.ns;
        cx.force_prefix = self.tag.force_prefix;
        for (to, &(prefix, ns)) in cx.prefixes.iter_mut().zip(&self.tag.prefixes) {
            *to = Prefix { prefix, ns };
        }
        let el = s.write_start(self.tag.name, self.tag.ns, Some(cx))?;
        for (ns, name) in &self.attrs {
            if ns.is_empty() || s.prefix(ns).is_some() {
                s.write_attr(name, ns, "v")?;
            }
        }
        if self.kids.is_empty() {
            return s.end_empty();
        }
        s.end_start()?;
        for k in &self.kids {
            match k {
                Kid::Node(n) => n.serialize(None, s)?,
                Kid::Leaf(ns, name) => 1u8.serialize(Some(Id { ns, name }), s)?,
            }
        }
        s.write_close(el)
    }
}

impl ToXml for Node<'_> {
    fn serialize<W: fmt::Write + ?Sized>(&self, _: Option<Id<'_>>, s: &mut Serializer<'_, W>) -> Result<(), Error> {
        match self.tag.prefixes.len() {
            0 => self.with::<0, W>(s),
            1 => self.with::<1, W>(s),
            2 => self.with::<2, W>(s),
            3 => self.with::<3, W>(s),
            4 => self.with::<4, W>(s),
            n if n <= 8 => self.with::<8, W>(s),
            n if n <= 32 => self.with::<32, W>(s),
            n => {
                assert!(n <= 300);
                self.with::<300, W>(s)
            }
        }
    }
}

fn expected(node: &Node<'_>, outer: &Scope, starts: &mut Vec<Start>) -> OEl {
    let (mut start, inner) = refser::container(node.tag, outer);
    let mut el = OEl::new(node.tag.ns, node.tag.name);
    for (ns, name) in &node.attrs {
        let prefix = match ns.is_empty() {
            true => Some(""),
            false => inner.prefixes.get(*ns).map(String::as_str),
        };
        if let Some(p) = prefix {
            start.attrs.push((p.to_owned(), name.to_string()));
            el.attrs.push((ns.to_string(), name.to_string(), "v".into()));
        }
    }
    start.attrs.sort();
    starts.push(start);
    for k in &node.kids {
        match k {
            Kid::Node(n) => {
                let kid = expected(n, &inner, starts);
                el.kids.push(OKid::E(kid));
            }
            Kid::Leaf(ns, name) => {
                starts.push(refser::plain(ns, name, &inner));
                let mut kid = OEl::new(ns, name);
                kid.text("1");
                el.kids.push(OKid::E(kid));
            }
        }
    }
    el
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Look {
    /// C02: the tree
    Tree,
    /// C20: declarations and prefixes
    Policy,
    /// C11: everything, and the lookups afterwards
    Calls,
}

pub fn check(cx: &mut Cx<'_>, node: &Node<'_>, look: Look, spaces: &[&'static str]) {
    let mut out = String::new();
    let mut starts = Vec::new();
    let scope = Scope::default();
    let tree = expected(node, &scope, &mut starts);
    let got = cx.guard("containers", "", || {
        let mut s = Serializer::new(&mut out);
        // Twice on the same serializer: nothing may be left over
        node.serialize(None, &mut s)?;
        let first = (s.default_ns(), spaces.iter().filter_map(|ns| s.prefix(ns)).count());
        node.serialize(None, &mut s)?;
        Ok::<_, Error>(first)
    });
    cx.count(hash(&out));
    cx.validated += 1;
    cx.transitions += 2 * starts.len() as u64;
    let label = || format!("{:?}", starts);
    match &got {
        Ok(Ok((default, left))) => {
            if look == Look::Calls && (!default.is_empty() || *left > 0) {
                return cx.violation("containers", &out, "lookups as before", &format!("default {default:?}, {left} prefixes"));
            }
        }
        other => return cx.violation("containers", &label(), "Ok", &format!("{other:?}")),
    }
    cx.accepted += 1;
    cx.sample(|| out.clone());
    let doc = format!("<w>{out}</w>");
    let parsed = match xml::parse(&doc) {
        Ok(d) if d.open.is_none() && d.root.kids.len() == 2 => d,
        Ok(d) => return cx.violation("containers", &label(), "two elements", &format!("{:?}: {out}", d.open)),
        Err(why) => return cx.violation("containers", &label(), "well-formed output", &format!("{why}: {out}")),
    };
    for k in &parsed.root.kids {
        let xml::Kid::E(e) = k else { unreachable!() };
        if look != Look::Policy && !tree.same(e) {
            return cx.violation("containers", &out, &format!("{tree:?}"), &out);
        }
        if look != Look::Tree {
            let mut seen = Vec::new();
            judge::starts(e, "", &mut seen);
            if seen != starts {
                return cx.violation("containers", &out, &format!("{starts:?}"), &out);
            }
        }
    }
}

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

struct Universe {
    what: &'static str,
    spaces: Vec<&'static str>,
    prefixes: Vec<&'static str>,
}

fn universes() -> Vec<Universe> {
    let of = |what, spaces: &[&str], prefixes: &[&str]| Universe {
        what,
        spaces: spaces.iter().map(|s| leak(s.to_string())).collect(),
        prefixes: prefixes.iter().map(|s| leak(s.to_string())).collect(),
    };
    let long = |n: usize, tail: &str| format!("http://www.example.com/{}/{tail}", "x".repeat(n));
    vec![
        of("plain", &["urn:a", "urn:b"], &["p", "q"]),
        of("similar URIs", &["urn:a", "urn:A"], &["p", "q"]),
        of("one URI the beginning of the other", &["urn:a", "urn:a/"], &["p", "q"]),
        of("one URI the end of the other", &["rn:a", "urn:a"], &["q", "p"]),
        of("similar prefixes", &["urn:a", "urn:b"], &["p", "pp"]),
        of("prefixes in other cases", &["urn:a", "urn:b"], &["p", "P"]),
        of("long URIs", &[&long(0, "a"), &long(0, "b")], &["p", "q"]),
        of("longer URIs", &[&long(300, "a"), &long(300, "b")], &["p", "q"]),
        of("URIs that differ in the middle", &[&long(40, "a/tail"), &long(41, "a/tail")], &["p", "q"]),
        of("long prefixes", &["urn:a", "urn:b"], &["prefix-that-is-rather-long.1", "prefix-that-is-rather-long.2"]),
        of("odd names", &["u", "é:\u{1F600}"], &["_", "é-.1"]),
        of("prefixes that are namespaces", &["p", "q"], &["q", "p"]),
        of("prefixes that start like xml", &["urn:a", "xml"], &["xm", "xmln"]),
        of("URIs with spaces and quotes", &["a b", "a'b>"], &["p", "q"]),
    ]
}

fn tags(u: &Universe, quick: bool) -> Vec<Tag> {
    let (a, b) = (u.spaces[0], u.spaces[1]);
    let (p, q) = (u.prefixes[0], u.prefixes[1]);
    let mut decls: Vec<Vec<(&str, &str)>> =
        vec![vec![], vec![(p, a)], vec![(p, b)], vec![(p, a), (q, b)], vec![(q, a), (p, b)], vec![(q, b)]];
    if !quick {
        decls.push(vec![(p, a), (q, a)]);
        decls.push(vec![(q, b), (p, a)]);
        decls.push(vec![(q, a)]);
    }
    let mut out = Vec::new();
    for ns in ["", a, b] {
        for d in &decls {
            for force in [false, true] {
                out.push(Tag { rust: "", ns, name: "e", prefixes: d.clone(), force_prefix: force });
            }
        }
    }
    out
}

/// Up to three containers in each other and next to each other, over names of every kind
pub fn explore(run: &Run, look: Look) {
    let us = universes();
    let quick = run.quick();
    let sets: Vec<Vec<Tag>> = us.iter().map(|u| tags(u, quick)).collect();
    let mut work = Vec::new();
    for (i, s) in sets.iter().enumerate() {
        for t in 0..s.len() {
            work.push((i, t));
        }
    }
    run.par("containers with names of every kind", &work, |cx, &(i, t)| {
        let (u, tags) = (&us[i], &sets[i]);
        let (a, b) = (u.spaces[0], u.spaces[1]);
        debug_assert!(!u.what.is_empty());
        let attrs = vec![("", "x"), (a, "y"), (b, "z")];
        let leaves = || vec![Kid::Leaf("", "f"), Kid::Leaf(a, "g"), Kid::Leaf(b, "h")];
        for (m, mid) in tags.iter().enumerate() {
            for (l, last) in tags.iter().enumerate() {
                if cx.run.stopped() {
                    return;
                }
                let leaf = |full: bool| Node {
                    tag: last,
                    attrs: attrs.clone(),
                    kids: if full { leaves() } else { vec![] },
                };
                // One in the other, next to each other; with and without fields
                let full = (m + l) % 2 == 0;
                for shape in 0..2 {
                    if quick && shape == 1 && (t + m + l) % 3 != 0 {
                        continue;
                    }
                    let mut root = Node { tag: &tags[t], attrs: attrs.clone(), kids: vec![] };
                    let mut second = Node { tag: mid, attrs: attrs.clone(), kids: vec![] };
                    match shape {
                        0 => {
                            second.kids.push(Kid::Node(leaf(full)));
                            second.kids.extend(leaves());
                            root.kids.push(Kid::Node(second));
                        }
                        _ => {
                            root.kids.push(Kid::Node(second));
                            root.kids.push(Kid::Node(leaf(full)));
                        }
                    }
                    root.kids.extend(leaves());
                    check(cx, &root, look, &u.spaces);
                }
            }
        }
    });

    three(run, look);

    // The words of `vocab` as names, prefixes and namespaces
    let words: Vec<&'static str> = vocab::words(quick).into_iter().map(leak).collect();
    let long: Vec<&'static str> = words.iter().map(|w| leak(format!("{w}x"))).collect();
    let work: Vec<(&'static str, &'static str)> = words.iter().copied().zip(long).collect();
    run.par("words of every kind", &work, |cx, &(w, more)| {
        // Reserved
        let p = if w == "xml" || w == "xmlns" { "p" } else { w };
        let leaves = |a: &'static str, b: &'static str| vec![Kid::Leaf("", w), Kid::Leaf(a, w), Kid::Leaf(b, more), Kid::Leaf("", "e")];
        for (a, b) in [("urn:a", "urn:b"), (w, more), (more, "urn:a"), (w, "urn:p")] {
            let attrs = vec![("", if w == "xmlns" { "x" } else { w }), (a, w), (b, more)];
            let decls = [vec![(p, a)], vec![(p, b)], vec![(p, a), (more, b)], vec![("_9", b), (p, a)]];
            for (i, d) in decls.iter().enumerate() {
                for (k, ns) in ["", a, b].into_iter().enumerate() {
                    for force in [false, true] {
                        let root = Tag { rust: "", ns, name: w, prefixes: d.clone(), force_prefix: force };
                        let mid = Tag {
                            rust: "",
                            ns: [a, b, ""][k],
                            name: more,
                            prefixes: decls[(i + 1) % 4].clone(),
                            force_prefix: !force,
                        };
                        let inner = Node { tag: &mid, attrs: attrs.clone(), kids: leaves(a, b) };
                        let mut kids = leaves(a, b);
                        kids.push(Kid::Node(inner));
                        kids.extend(leaves(b, a));
                        check(cx, &Node { tag: &root, attrs: attrs.clone(), kids }, look, &[a, b]);
                    }
                }
            }
        }
    });

    // Many declarations, in one container or in containers in each other
    let all: Vec<(&'static str, &'static str)> =
        (0..300).map(|i| (leak(format!("p{i}")), leak(format!("urn:{i}")))).collect();
    let spaces: Vec<&'static str> = all.iter().map(|a| a.1).collect();
    let mut counts: Vec<usize> = (0..=40).collect();
    counts.extend([63, 64, 65, 127, 128, 129, 255, 256, 257, 300]);
    run.par("containers with many declarations", &counts, |cx, &n| {
        for force in [false, true] {
            for own in [0, n / 2, n.saturating_sub(1)] {
                let own = all[own].1;
                // All at once, and a child that repeats, a child that rebinds
                let root = Tag { rust: "", ns: own, name: "e", prefixes: all[..n].to_vec(), force_prefix: force };
                let again = Tag { rust: "", ns: "", name: "f", prefixes: all[..n].to_vec(), force_prefix: force };
                let turned: Vec<(&str, &str)> = (0..n).map(|i| (all[i].0, all[(i + 1) % n.max(1)].1)).collect();
                let turned = Tag { rust: "", ns: own, name: "g", prefixes: turned, force_prefix: force };
                let new: Vec<(&str, &str)> = (0..n).map(|i| (all[i].0, all[299 - i].1)).collect();
                let new = Tag { rust: "", ns: own, name: "h", prefixes: new, force_prefix: force };
                let leaves = || -> Vec<Kid<'static>> { all[..n].iter().map(|a| Kid::Leaf(a.1, "l")).collect() };
                let attrs: Vec<_> = all[..n].iter().map(|a| (a.1, a.0)).collect();
                for kid in [&again, &turned, &new] {
                    for deep in [false, true] {
                        let inner = Node { tag: kid, attrs: attrs.clone(), kids: if deep { leaves() } else { vec![] } };
                        let mut kids = vec![Kid::Node(inner)];
                        kids.extend(leaves());
                        check(cx, &Node { tag: &root, attrs: attrs.clone(), kids }, look, &spaces);
                    }
                }
            }
        }
        // One more on every level
        let tags: Vec<Tag> = (0..n)
            .map(|i| Tag {
                rust: "",
                ns: if i % 3 == 2 { all[i / 2].1 } else { "" },
                name: "e",
                prefixes: vec![all[i]],
                force_prefix: i % 2 == 0,
            })
            .collect();
        let mut node: Option<Node<'_>> = None;
        for (i, tag) in tags.iter().enumerate().rev() {
            let mut kids: Vec<Kid<'_>> = vec![Kid::Leaf(all[i / 2].1, "l")];
            kids.extend(node.take().map(Kid::Node));
            kids.push(Kid::Leaf(all[(i * 7) % 300].1, "m"));
            kids.push(Kid::Leaf(all[i].1, "m"));
            node = Some(Node { tag, attrs: vec![(all[0].1, "x"), (all[i].1, "y")], kids });
        }
        if let Some(node) = &node {
            check(cx, node, look, &spaces);
        }
        // Many in a row
        if n > 0 {
            let root = Tag { rust: "", ns: all[0].1, name: "r", prefixes: all[..n.min(3)].to_vec(), force_prefix: false };
            let mut kids: Vec<Kid<'_>> = Vec::new();
            for t in &tags {
                kids.push(Kid::Node(Node { tag: t, attrs: vec![("", "x")], kids: vec![] }));
                kids.push(Kid::Node(Node { tag: t, attrs: vec![("", "x")], kids: vec![Kid::Leaf(all[0].1, "l")] }));
                kids.push(Kid::Leaf(all[1].1, "l"));
            }
            check(cx, &Node { tag: &root, attrs: vec![], kids }, look, &spaces);
        }
        // The same two, alternating, as deep as `n`
        let two = [
            Tag { rust: "", ns: all[0].1, name: "e", prefixes: vec![all[0], all[1]], force_prefix: false },
            Tag { rust: "", ns: all[1].1, name: "e", prefixes: vec![(all[0].0, all[1].1)], force_prefix: true },
            Tag { rust: "", ns: "", name: "e", prefixes: vec![(all[1].0, all[0].1)], force_prefix: false },
        ];
        for order in [[0, 1, 0], [0, 2, 0], [1, 2, 1], [0, 1, 2], [2, 1, 0]] {
            let mut node = Node { tag: &two[order[0]], attrs: vec![], kids: vec![] };
            for i in 0..n {
                let tag = &two[order[i % 3]];
                node = Node {
                    tag,
                    attrs: vec![(all[0].1, "x"), (all[1].1, "y")],
                    kids: vec![Kid::Leaf(all[0].1, "l"), Kid::Node(node), Kid::Leaf(all[1].1, "l"), Kid::Leaf("", "l")],
                };
            }
            check(cx, &node, look, &spaces);
        }
    });
}

/// Three prefixes, each bound to one of three namespaces or to none
fn three(run: &Run, look: Look) {
    const SPACES: [&str; 3] = ["urn:a", "urn:b", "urn:c"];
    const PREFIXES: [&str; 3] = ["p", "q", "r"];
    let mut decls: Vec<Vec<(&'static str, &'static str)>> = Vec::new();
    for i in 0..64usize {
        let bound = [i % 4, i / 4 % 4, i / 16];
        decls.push((0..3).filter(|&k| bound[k] > 0).map(|k| (PREFIXES[k], SPACES[bound[k] - 1])).collect());
    }
    let make = |spaces: &[&'static str], forces: &[bool]| -> Vec<Tag> {
        let mut out = Vec::new();
        for &ns in spaces {
            for &force in forces {
                for d in &decls {
                    out.push(Tag { rust: "", ns, name: "e", prefixes: d.clone(), force_prefix: force });
                }
            }
        }
        out
    };
    let attrs = || vec![("", "x"), (SPACES[0], "y"), (SPACES[1], "z"), (SPACES[2], "w")];
    let leaves = || vec![Kid::Leaf("", "f"), Kid::Leaf(SPACES[0], "g"), Kid::Leaf(SPACES[1], "h"), Kid::Leaf(SPACES[2], "i")];
    let all = make(&["", SPACES[0], SPACES[1], SPACES[2]], &[false, true]);
    run.par("three prefixes and namespaces, 2 containers", &all, |cx, root| {
        for inner in &all {
            for full in [false, true] {
                let inner = Node { tag: inner, attrs: attrs(), kids: if full { leaves() } else { vec![] } };
                let mut kids = vec![Kid::Node(inner)];
                kids.extend(leaves());
                check(cx, &Node { tag: root, attrs: attrs(), kids }, look, &SPACES);
            }
            if cx.run.stopped() {
                return;
            }
        }
    });
    let outer = make(&[""], &[false]);
    let mids = run.pick(make(&[SPACES[0]], &[false]), make(&["", SPACES[0], SPACES[1]], &[false, true]));
    let lasts = run.pick(make(&["", SPACES[1]], &[true]), make(&["", SPACES[0], SPACES[1]], &[false, true]));
    let work: Vec<(usize, usize)> = (0..outer.len()).flat_map(|a| (0..mids.len()).map(move |b| (a, b))).collect();
    run.par("three prefixes and namespaces, 3 containers", &work, |cx, &(a, b)| {
        for (i, last) in lasts.iter().enumerate() {
            let inner = Node { tag: last, attrs: attrs(), kids: if i % 2 == 0 { leaves() } else { vec![] } };
            let mut mid = Node { tag: &mids[b], attrs: attrs(), kids: vec![Kid::Node(inner)] };
            mid.kids.extend(leaves());
            let mut kids = vec![Kid::Node(mid)];
            kids.extend(leaves());
            check(cx, &Node { tag: &outer[a], attrs: attrs(), kids }, look, &SPACES);
        }
    });
}
