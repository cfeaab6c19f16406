//! Enumeration of values, of documents for them, and of edits to documents.

use std::fmt::Write;

use crate::model::{Field, Pos, Sc, Ty, Val};
use crate::refser::{OEl, OKid};

pub use crate::names::{rename_field, rename_variant};

// Values

/// Canonical texts to use for a scalar; the first ones are the most interesting
pub fn scalars(sc: Sc) -> &'static [&'static str] {
    match sc {
        Sc::Str => &["x", "", "a<&>\"'b", "é€😀", " p  q ", "]]>", "0", "\u{85}"],
        Sc::Bool => &["true", "false"],
        Sc::Char => &["c", "&", "<", "'", "\"", ">", "€", "😀", " ", "\u{10ffff}"],
        Sc::I8 => &["-128", "127", "0", "-1"],
        Sc::I16 => &["-32768", "32767", "0"],
        Sc::I32 => &["-2147483648", "2147483647", "0", "42"],
        Sc::I64 => &["-9223372036854775808", "9223372036854775807", "0"],
        Sc::Isize => &["-9223372036854775808", "9223372036854775807", "0"],
        Sc::U8 => &["255", "0", "128"],
        Sc::U16 => &["65535", "0"],
        Sc::U32 => &["4294967295", "0", "2147483648"],
        Sc::U64 => &["18446744073709551615", "0", "9223372036854775808"],
        Sc::Usize => &["18446744073709551615", "0"],
        Sc::F32 => &["1.5", "-0", "inf", "-inf", "340282350000000000000000000000000000000", "0.1"],
        Sc::F64 => &["0.1", "-0", "inf", "-inf", "1.5", "123456789.123"],
        Sc::Ip => &["127.0.0.1", "::1", "2001:db8::ff", "255.255.255.255", "::ffff:1.2.3.4"],
        Sc::DateTime => &[
            "1996-12-19T16:39:57+00:00",
            "1970-01-01T00:00:00.123456789+00:00",
            "9999-12-31T23:59:59.500+00:00",
            "0001-01-01T00:00:00+00:00",
        ],
        Sc::NaiveDateTime => &[
            "2015-09-18T23:56:04",
            "1970-01-01T00:00:00.123456789",
            "9999-12-31T23:59:59.500",
            "0001-01-01T00:00:00",
        ],
        Sc::NaiveDate => &["2015-09-18", "1970-01-01", "9999-12-31", "0001-01-01", "2024-02-29"],
    }
}

/// A text the scalar type does not accept
pub fn bad_text(ty: &'static Ty) -> Option<&'static str> {
    match ty {
        Ty::Scalar(Sc::Str) | Ty::Unit => None,
        Ty::Scalar(_) | Ty::Enum(_) => Some("zz-bad"),
        Ty::Option(t) | Ty::Vec(t) | Ty::Box(t) => bad_text(t.get()),
        _ => None,
    }
}

/// All combinations of one value per field if there are at most `cap`, otherwise all combinations
/// of every two fields with the others at their first value
pub fn product(sets: &[Vec<Val>], cap: usize) -> Vec<Vec<Val>> {
    let total = sets.iter().fold(1usize, |n, s| n.saturating_mul(s.len()));
    if total == 0 {
        return Vec::new();
    }
    let mut out = Vec::new();
    if total <= cap {
        let mut idx = vec![0; sets.len()];
        loop {
            out.push(idx.iter().zip(sets).map(|(&i, s)| s[i].clone()).collect());
            let mut k = sets.len();
            loop {
                if k == 0 {
                    return out;
                }
                k -= 1;
                idx[k] += 1;
                if idx[k] < sets[k].len() {
                    break;
                }
                idx[k] = 0;
            }
        }
    }
    let first: Vec<Val> = sets.iter().map(|s| s[0].clone()).collect();
    let last: Vec<Val> = sets.iter().map(|s| s[s.len() - 1].clone()).collect();
    let mut seen = std::collections::HashSet::new();
    for base in [first, last] {
        for a in 0..sets.len() {
            for b in a..sets.len() {
                for va in &sets[a] {
                    for vb in &sets[b] {
                        let mut row = base.clone();
                        row[a] = va.clone();
                        row[b] = vb.clone();
                        if seen.insert(crate::engine::hash(&row)) {
                            out.push(row);
                        }
                    }
                }
            }
        }
    }
    out
}

/// How rich the enumeration is
#[derive(Clone, Copy)]
pub struct Rich {
    /// Scalar values per scalar type
    pub scalars: usize,
    /// Nesting below which recursive types stop
    pub depth: usize,
    /// Full products up to this many combinations
    pub cap: usize,
    /// Values per nested type used inside a bigger one
    pub inner: usize,
    /// List lengths up to this
    pub list: usize,
}

pub fn values(ty: &'static Ty, r: Rich) -> Vec<Val> {
    match ty {
        Ty::Scalar(sc) => scalars(*sc)
            .iter()
            .take(r.scalars.max(1))
            .map(|s| Val::S((*s).to_owned()))
            .collect(),
        Ty::Unit => vec![Val::Unit],
        Ty::Enum(e) => (0..e.variants.len()).map(Val::Enum).collect(),
        Ty::UnitStruct(_) => vec![Val::Rec(Vec::new())],
        Ty::Option(t) => {
            let mut out = vec![Val::None];
            if r.depth > 0 || !recursive(t.get()) {
                let r = if recursive(t.get()) { deeper(r) } else { r };
                out.extend(values(t.get(), r).into_iter().map(|v| Val::Some(Box::new(v))));
            }
            out
        }
        Ty::Vec(t) => {
            let mut out = vec![Val::List(Vec::new())];
            if r.depth > 0 || !recursive(t.get()) {
                let vs = spread(values(t.get(), deeper(r)), r.inner);
                for v in &vs {
                    out.push(Val::List(vec![v.clone()]));
                }
                if r.list > 1 {
                    for a in &vs {
                        for b in &vs {
                            out.push(Val::List(vec![a.clone(), b.clone()]));
                        }
                    }
                }
                if r.list > 2 {
                    for (i, a) in vs.iter().enumerate() {
                        let b = &vs[(i + 1) % vs.len()];
                        out.push(Val::List(vec![a.clone(), b.clone(), a.clone()]));
                    }
                }
            }
            out
        }
        Ty::Box(t) => values(t.get(), r),
        Ty::Struct(s) => rec(s.fields.iter().map(|f| f.ty.get()), r),
        Ty::Transparent(t) => rec(t.fields.iter().map(|f| f.ty.get()), r),
        Ty::Tuple(t) => rec(t.fields.iter().map(|f| f.get()), r),
        Ty::Forward(f) => {
            let mut out = Vec::new();
            for (i, v) in f.variants.iter().enumerate() {
                for x in values(v.get(), r) {
                    out.push(Val::Var(i, Box::new(x)));
                }
            }
            out
        }
        Ty::Any => Vec::new(),
    }
}

fn deeper(r: Rich) -> Rich {
    Rich { depth: r.depth.saturating_sub(1), scalars: r.scalars.min(2), cap: r.cap.min(64), ..r }
}

fn rec(fields: impl Iterator<Item = &'static Ty>, r: Rich) -> Vec<Val> {
    let sets: Vec<Vec<Val>> = fields
        .map(|t| {
            let vs = values(t, Rich { cap: r.cap.min(64), ..r });
            match t {
                Ty::Scalar(_) => vs,
                _ => spread(vs, r.inner),
            }
        })
        .collect();
    product(&sets, r.cap).into_iter().map(Val::Rec).collect()
}

/// At most `n` of the values, evenly spread and including the first and the last
pub fn spread(vs: Vec<Val>, n: usize) -> Vec<Val> {
    if vs.len() <= n || n == 0 {
        return vs;
    }
    let len = vs.len();
    (0..n).map(|i| vs[i * (len - 1) / (n - 1).max(1)].clone()).collect()
}

/// Does the type contain itself?
pub fn recursive(ty: &'static Ty) -> bool {
    fn go(ty: &'static Ty, path: &mut Vec<*const Ty>) -> bool {
        let p = ty as *const Ty;
        if path.contains(&p) {
            return true;
        }
        path.push(p);
        let r = match ty {
            Ty::Option(t) | Ty::Vec(t) | Ty::Box(t) => go(t.get(), path),
            Ty::Struct(s) => s.fields.iter().any(|f| go(f.ty.get(), path)),
            Ty::Transparent(s) => s.fields.iter().any(|f| go(f.ty.get(), path)),
            Ty::Tuple(s) => s.fields.iter().any(|f| go(f.get(), path)),
            Ty::Forward(s) => s.variants.iter().any(|f| go(f.get(), path)),
            _ => false,
        };
        path.pop();
        r
    }
    go(ty, &mut Vec::new())
}

// Printing trees as documents

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ns {
    /// A default declaration wherever the namespace changes
    Default,
    /// All prefixes declared at the root, nothing is in a default namespace
    Root,
    /// Every element declares the same prefix anew for its own namespace
    Local,
    /// Default declarations at even depths, prefixes at odd ones
    Mixed,
    /// As `Root`, with a decoy default namespace on the root that every element has to undo
    Decoy,
    /// Prefixes at the root, declared again for other namespaces on every element
    Shadow,
}

pub const ALL_NS: [Ns; 6] = [Ns::Default, Ns::Root, Ns::Local, Ns::Mixed, Ns::Decoy, Ns::Shadow];

#[derive(Clone, Copy, Debug)]
pub struct Style {
    pub ns: Ns,
    pub quote: char,
    /// `<a/>` for empty elements
    pub short: bool,
    /// White space inside tags
    pub pad: &'static str,
    /// Declarations after the attributes
    pub decls_last: bool,
}

pub const PLAIN: Style = Style { ns: Ns::Default, quote: '"', short: false, pad: "", decls_last: false };

pub fn esc(s: &str, out: &mut String) {
    for c in s.chars() {
        match c {
            '&' => out.push_str("&amp;"),
            '<' => out.push_str("&lt;"),
            '>' => out.push_str("&gt;"),
            '"' => out.push_str("&quot;"),
            '\'' => out.push_str("&#39;"),
            '\t' | '\r' | '\n' => {
                let _ = write!(out, "&#{};", c as u32);
            }
            c => out.push(c),
        }
    }
}

struct Pr<'a> {
    st: Style,
    out: String,
    /// prefix -> namespace, "" for the default
    scope: Vec<(String, String)>,
    all: Vec<&'a str>,
}

pub fn print(el: &OEl, st: Style) -> String {
    let mut all = Vec::new();
    fn collect<'a>(el: &'a OEl, all: &mut Vec<&'a str>) {
        let mut add = |ns: &'a str| {
            if !ns.is_empty() && !all.contains(&ns) {
                all.push(ns);
            }
        };
        add(&el.ns);
        for (ns, _, _) in &el.attrs {
            add(ns);
        }
        for k in &el.kids {
            if let OKid::E(e) = k {
                collect(e, all);
            }
        }
    }
    collect(el, &mut all);
    let mut p = Pr { st, out: String::new(), scope: Vec::new(), all };
    p.el(el, 0);
    p.out
}

impl Pr<'_> {
    fn lookup(&self, prefix: &str) -> &str {
        self.scope
            .iter()
            .rev()
            .find(|(p, _)| p == prefix)
            .map_or("", |(_, ns)| ns)
    }

    fn find(&self, ns: &str) -> Option<String> {
        self.scope
            .iter()
            .rev()
            .find(|(p, n)| !p.is_empty() && n == ns && self.lookup(p) == ns)
            .map(|(p, _)| p.clone())
    }

    fn el(&mut self, el: &OEl, depth: usize) {
        let base = self.scope.len();
        let mut decls: Vec<(String, String)> = Vec::new();
        let st = self.st;
        let declare = |p: &mut Self, decls: &mut Vec<(String, String)>, pre: &str, ns: &str| {
            decls.push((pre.into(), ns.into()));
            p.scope.push((pre.into(), ns.into()));
        };
        if depth == 0 {
            if matches!(st.ns, Ns::Root | Ns::Decoy | Ns::Shadow) {
                for (i, ns) in self.all.clone().into_iter().enumerate() {
                    declare(self, &mut decls, &format!("p{i}"), ns);
                }
            }
            if st.ns == Ns::Decoy {
                declare(self, &mut decls, "q", "urn:decoy");
            }
        }
        let by_default = match st.ns {
            Ns::Default => true,
            Ns::Mixed => depth % 2 == 0,
            _ => false,
        };
        let mut prefix = String::new();
        if el.ns.is_empty() || by_default {
            if self.lookup("") != el.ns {
                declare(self, &mut decls, "", &el.ns);
            }
        } else {
            match st.ns {
                Ns::Local => {
                    prefix = "p".into();
                    declare(self, &mut decls, "p", &el.ns);
                }
                Ns::Shadow if depth > 0 => {
                    // Rotate the meaning of the prefixes
                    let n = self.all.len();
                    for i in 0..n {
                        let ns = self.all[(i + depth) % n].to_owned();
                        declare(self, &mut decls, &format!("p{i}"), &ns);
                    }
                    prefix = self.find(&el.ns).unwrap();
                }
                _ => match self.find(&el.ns) {
                    Some(p) => prefix = p,
                    None => {
                        prefix = "m".into();
                        declare(self, &mut decls, "m", &el.ns);
                    }
                },
            }
            if st.ns == Ns::Decoy {
                declare(self, &mut decls, "", "urn:decoy");
            }
        }
        let mut attrs = Vec::new();
        for (ns, name, value) in &el.attrs {
            let qname = match ns.as_str() {
                "" => name.clone(),
                crate::xml::XML_NS => format!("xml:{name}"),
                ns => {
                    let p = match self.find(ns) {
                        Some(p) => p,
                        None => {
                            let p = format!("a{}", decls.len());
                            declare(self, &mut decls, &p, ns);
                            p
                        }
                    };
                    format!("{p}:{name}")
                }
            };
            attrs.push((qname, value.clone()));
        }
        let q = st.quote;
        let qname = match prefix.as_str() {
            "" => el.name.clone(),
            p => format!("{p}:{}", el.name),
        };
        self.out.push('<');
        self.out.push_str(&qname);
        let mut parts: Vec<String> = Vec::new();
        for (qn, v) in attrs {
            let mut s = format!("{qn}{0}={0}{q}", st.pad);
            esc(&v, &mut s);
            s.push(q);
            parts.push(s);
        }
        let ds = decls.iter().map(|(p, ns)| match p.as_str() {
            "" => format!("xmlns{0}={0}{q}{ns}{q}", st.pad),
            p => format!("xmlns:{p}{0}={0}{q}{ns}{q}", st.pad),
        });
        match st.decls_last {
            true => parts.extend(ds),
            false => parts = ds.chain(parts).collect(),
        }
        for p in parts {
            self.out.push_str(match st.pad {
                "" => " ",
                pad => pad,
            });
            self.out.push_str(&p);
        }
        self.out.push_str(st.pad);
        if el.kids.is_empty() && st.short {
            self.out.push_str("/>");
        } else {
            self.out.push('>');
            for k in &el.kids {
                match k {
                    OKid::E(e) => self.el(e, depth + 1),
                    OKid::T(t) => {
                        let mut s = String::new();
                        esc(t, &mut s);
                        self.out.push_str(&s);
                    }
                }
            }
            self.out.push_str("</");
            self.out.push_str(&qname);
            self.out.push_str(st.pad);
            self.out.push('>');
        }
        self.scope.truncate(base);
    }
}

// Edits

pub type Path = Vec<usize>;

/// Paths of all elements of the tree
pub fn paths(el: &OEl) -> Vec<Path> {
    fn go(el: &OEl, at: &mut Path, out: &mut Vec<Path>) {
        out.push(at.clone());
        for (i, k) in el.kids.iter().enumerate() {
            if let OKid::E(e) = k {
                at.push(i);
                go(e, at, out);
                at.pop();
            }
        }
    }
    let mut out = Vec::new();
    go(el, &mut Vec::new(), &mut out);
    out
}

pub fn at<'e>(el: &'e OEl, path: &[usize]) -> &'e OEl {
    path.iter().fold(el, |e, &i| match &e.kids[i] {
        OKid::E(e) => e,
        OKid::T(_) => panic!("text at path"),
    })
}

pub fn at_mut<'e>(el: &'e mut OEl, path: &[usize]) -> &'e mut OEl {
    path.iter().fold(el, |e, &i| match &mut e.kids[i] {
        OKid::E(e) => e,
        OKid::T(_) => panic!("text at path"),
    })
}

/// A copy of the tree with one element edited
pub fn edited(el: &OEl, path: &[usize], f: impl FnOnce(&mut OEl)) -> OEl {
    let mut new = el.clone();
    f(at_mut(&mut new, path));
    new
}

pub fn leaf(ns: &str, name: &str, text: &str) -> OEl {
    let mut el = OEl::new(ns, name);
    el.text(text);
    el
}

/// Elements worth putting into a struct of this type: for every element field two good values, a
/// bad one, an empty one and near misses of the name; plus strangers
pub fn alphabet(fields: &'static [Field], rich: bool) -> Vec<OKid> {
    let mut out: Vec<OEl> = Vec::new();
    let r = Rich { scalars: 2, depth: 1, cap: 16, inner: 2, list: 1 };
    for f in fields.iter().filter(|f| f.pos == Pos::Elem) {
        let ty = f.ty.get();
        let mut mine: Vec<OEl> = Vec::new();
        for v in values(ty, r) {
            let mut top = OEl::new("", "");
            // A one-field struct around the value gives its elements
            if crate::refser::put_field(f, &v, &mut top).is_ok() {
                for k in top.kids {
                    if let OKid::E(e) = k {
                        if !mine.contains(&e) {
                            mine.push(e);
                        }
                    }
                }
            }
        }
        let max = match ty {
            Ty::Forward(_) | Ty::Transparent(_) => 4,
            Ty::Option(t) | Ty::Vec(t) | Ty::Box(t)
                if matches!(t.get(), Ty::Forward(_) | Ty::Transparent(_)) =>
            {
                4
            }
            _ => 2,
        };
        // Keep different names first
        mine.sort_by_key(|e| std::cmp::Reverse(e.size()));
        let mut pick: Vec<OEl> = Vec::new();
        for e in &mine {
            if !pick.iter().any(|p| p.name == e.name && p.ns == e.ns) {
                pick.push(e.clone());
            }
        }
        for e in &mine {
            if pick.len() < max && !pick.contains(e) {
                pick.push(e.clone());
            }
        }
        if ty.is_scalar() {
            if let Some(e) = mine.first() {
                if let Some(bad) = bad_text(ty) {
                    pick.push(leaf(&e.ns, &e.name, bad));
                }
                pick.push(OEl::new(&e.ns, &e.name));
            }
        }
        if let (true, Some(e)) = (rich, mine.first()) {
            let mut other = e.clone();
            other.ns = match e.ns.is_empty() {
                true => "urn:miss".into(),
                false => String::new(),
            };
            pick.push(other);
            let mut other = e.clone();
            other.name.push('x');
            pick.push(other);
        }
        out.extend(pick);
    }
    out.push(leaf("", "unknown", "u"));
    out.into_iter().map(OKid::E).collect()
}

// Names that are nearly right

pub fn near_names(name: &str) -> Vec<String> {
    let mut out = vec![
        format!("{name}x"),
        format!("x{name}"),
        name.to_uppercase(),
        name.to_lowercase(),
        name.replace('_', "-"),
        name.replace('-', "_"),
    ];
    let mut cut = name.to_owned();
    cut.pop();
    if !cut.is_empty() {
        out.push(cut);
    }
    out.retain(|n| n != name);
    out.dedup();
    out
}

/// Everything one edit away from it, and more of what URIs end in
pub fn all_near_ns(ns: &str) -> Vec<String> {
    let mut out = near_ns(ns);
    let punct = ['/', '#', '?', '.', ':', ' ', '-', '_', '%', '+', '~', '=', ',', ';', '!', '*', '@'];
    let chars: Vec<char> = ns.chars().collect();
    for c in punct.into_iter().chain(('0'..='9').chain('a'..='z').chain('A'..='Z')).chain(['\u{e9}', '\u{2f}', '\u{ff0f}']) {
        for at in 0..=chars.len() {
            let mut t = chars.clone();
            t.insert(at, c);
            out.push(t.iter().collect());
            if at < chars.len() {
                t.remove(at + 1);
                out.push(t.iter().collect());
            }
        }
    }
    for at in 0..chars.len() {
        let mut t = chars.clone();
        t.remove(at);
        out.push(t.iter().collect());
    }
    for a in punct {
        for b in punct {
            out.push(format!("{ns}{a}{b}"));
            out.push(format!("{a}{b}{ns}"));
        }
    }
    for lead in ["http://", "https://", "urn:", "http://www.", "file:///", "x:", "//"] {
        out.push(format!("{lead}{ns}"));
        if let Some(rest) = ns.strip_prefix("urn:") {
            out.push(format!("{lead}{rest}"));
        }
    }
    for tail in ["/index", ".html", "/1.0", "%2F", "%20", "?x=1", "#frag"] {
        out.push(format!("{ns}{tail}"));
    }
    out.push(format!("{ns}{ns}"));
    let mut seen = std::collections::HashSet::new();
    out.retain(|n| n != ns && !n.contains(['<', '&', '"', '\'']) && seen.insert(n.clone()));
    out
}

pub fn near_ns(ns: &str) -> Vec<String> {
    let mut out = match ns {
        "" => vec!["urn:miss".to_owned(), "urn:n".into(), "urn:k".into()],
        ns => vec![
            String::new(),
            format!("{ns}/"),
            ns.to_uppercase(),
            ns[..ns.len() - 1].to_owned(),
            format!(" {ns}"),
        ],
    };
    out.retain(|n| n != ns);
    out
}
