//! C21: the derives refuse the definitions that have no meaning and accept those that have one.
//!
//! All definitions within the bounds are written into generated packages, one per line, and given to
//! the compiler. A definition is refused if the compiler reports an error on its line. Whether it
//! should be is decided by the rules below, which know nothing of the macros' code.

use mcore::engine::{hash, Run};
use std::collections::BTreeSet;
use std::fmt::Write;
use std::path::PathBuf;
use std::process::Command;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Rule {
    Accept,
    Refuse,
    /// The documentation does not settle it
    Open,
}

use Rule::*;

struct Form {
    part: &'static str,
    src: String,
    rule: Rule,
}

#[derive(Clone, Copy, PartialEq)]
enum Way {
    To,
    From,
}

const WAYS: [Way; 2] = [Way::To, Way::From];

impl Way {
    fn name(self) -> &'static str {
        match self {
            Way::To => "ToXml",
            Way::From => "FromXml",
        }
    }
}

// ---- options ----

const ATTRIBUTE: &str = "attribute";
const BORROW: &str = "borrow";
const DIRECT: &str = "direct";
const NS: &str = "ns(\"u\")";
const NS_CONST: &str = "ns(U)";
const NS_PATH: &str = "ns(m::U)";
const NS_PREFIX: &str = "ns(\"u\", p = \"v\")";
const NS_ONLY_PREFIX: &str = "ns(p = \"v\")";
const RENAME: &str = "rename = \"x\"";
const RENAME_ALL: &str = "rename_all = \"UPPERCASE\"";
const TRANSPARENT: &str = "transparent";
const FORWARD: &str = "forward";
const SCALAR: &str = "scalar";
const FORCE: &str = "force_prefix";
const SER: &str = "serialize_with = \"ser\"";
const SER_PATH: &str = "serialize_with = \"m::ser\"";
const SER_BAD: &str = "serialize_with = \"a b\"";
const DE: &str = "deserialize_with = \"de\"";
const DE_PATH: &str = "deserialize_with = \"m::de\"";
const DE_BAD: &str = "deserialize_with = \"a b\"";

const CONTAINER: [&str; 14] = [
    NS, NS_CONST, NS_PATH, NS_PREFIX, NS_ONLY_PREFIX, RENAME, RENAME_ALL, TRANSPARENT, FORWARD, SCALAR, FORCE,
    ATTRIBUTE, DIRECT, BORROW,
];
const FIELD: [&str; 18] = [
    ATTRIBUTE, BORROW, DIRECT, NS, NS_CONST, NS_PATH, RENAME, RENAME_ALL, TRANSPARENT, FORWARD, SCALAR, FORCE, SER,
    SER_PATH, SER_BAD, DE, DE_PATH, DE_BAD,
];

fn key(option: &str) -> &str {
    let end = option.find(|c: char| !(c.is_alphanumeric() || c == '_')).unwrap_or(option.len());
    &option[..end]
}

/// Subsets of up to `max` options; a key that appears twice leaves the meaning open
fn subsets<'a>(all: &[&'a str], max: usize) -> Vec<Vec<&'a str>> {
    let mut out = vec![vec![]];
    let mut last: Vec<(usize, Vec<&str>)> = vec![(0, vec![])];
    for _ in 0..max {
        let mut next = Vec::new();
        for (from, set) in &last {
            for i in *from..all.len() {
                let mut set = set.clone();
                set.push(all[i]);
                next.push((i + 1, set));
            }
        }
        out.extend(next.iter().map(|(_, s)| s.clone()));
        last = next;
    }
    out
}

fn repeated(set: &[&str]) -> bool {
    let keys: BTreeSet<_> = set.iter().map(|o| key(o)).collect();
    keys.len() != set.len()
}

/// The ways to write down a list of options: one attribute, one attribute each, back to front
fn written(set: &[&str], style: usize) -> String {
    match style {
        0 if set.is_empty() => String::new(),
        0 => format!("#[xml({})]", set.join(", ")),
        1 => set.iter().map(|o| format!("#[xml({o})] ")).collect(),
        2 => set.iter().rev().map(|o| format!("#[xml({o},)] /** doc */ #[allow(unused)] ")).collect(),
        _ => format!("#[xml({})] #[doc = \"rename\"]", set.iter().rev().copied().collect::<Vec<_>>().join(", ")),
    }
}

fn styles(set: &[&str], quick: bool) -> std::ops::Range<usize> {
    match (set.len(), quick) {
        (0, _) => 0..1,
        (_, true) => 0..2,
        (..) => 0..4,
    }
}

// ---- containers ----

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Named,
    NoFields,
    Tuple,
    Unit,
    UnitEnum,
    WrapEnum,
    Union,
}

const KINDS: [Kind; 7] =
    [Kind::Named, Kind::NoFields, Kind::Tuple, Kind::Unit, Kind::UnitEnum, Kind::WrapEnum, Kind::Union];

impl Kind {
    fn is_enum(self) -> bool {
        matches!(self, Kind::UnitEnum | Kind::WrapEnum)
    }

    fn body(self) -> &'static str {
        match self {
            Kind::Named => "struct T { a: u8, b: E }",
            Kind::NoFields => "struct T {}",
            Kind::Tuple => "struct T(E);",
            Kind::Unit => "struct T;",
            Kind::UnitEnum => "enum T { A, B }",
            Kind::WrapEnum => "enum T { A(E), B(F) }",
            Kind::Union => "union T { a: u8, b: u16 }",
        }
    }
}

fn container(kind: Kind, set: &[&str], way: Way) -> Rule {
    let has = |o: &str| set.contains(&o);
    let ns = set.iter().any(|o| key(o) == "ns");
    let modes = [TRANSPARENT, FORWARD, SCALAR].iter().filter(|o| has(o)).count();
    let transparent = has(TRANSPARENT);

    if kind == Kind::Union
        || has(ATTRIBUTE)
        || has(DIRECT)
        || has(BORROW)
        || modes > 1
        || (!kind.is_enum() && (has(FORWARD) || has(SCALAR)))
        || (kind.is_enum() && (transparent || modes == 0 || has(FORCE)))
        || (transparent && (ns || has(RENAME)))
        || (kind == Kind::UnitEnum && has(FORWARD))
        || (kind == Kind::WrapEnum && has(SCALAR))
    {
        return Refuse;
    }
    if transparent && (has(FORCE) || !matches!(kind, Kind::Named | Kind::NoFields)) {
        // Without fields to name there is nothing to spread when reading
        return match way {
            Way::To if has(FORCE) => Refuse,
            Way::From if !matches!(kind, Kind::Named | Kind::NoFields) => Refuse,
            _ => Open,
        };
    }
    if has(FORWARD) && has(RENAME_ALL) {
        return if way == Way::To { Refuse } else { Open };
    }
    if kind.is_enum() && (has(RENAME) || (has(FORWARD) && ns)) {
        return Open;
    }
    if transparent && kind == Kind::NoFields || repeated(set) {
        return Open;
    }
    if matches!(kind, Kind::Tuple | Kind::Unit) && has(RENAME_ALL) {
        return Open;
    }
    Accept
}

fn containers(quick: bool, out: &mut Vec<Form>) {
    let mut sets = subsets(&CONTAINER, if quick { 2 } else { 3 });
    // More at once of those that can stand here
    let own: Vec<&str> = CONTAINER.iter().copied().filter(|o| ![ATTRIBUTE, DIRECT, BORROW].contains(o)).collect();
    let longer = if quick { 3 } else { 4 };
    sets.extend(subsets(&own, longer).into_iter().filter(|s| s.len() == longer));
    for set in sets {
        for kind in KINDS {
            for way in WAYS {
                let rule = container(kind, &set, way);
                for style in styles(&set, quick) {
                    out.push(Form {
                        part: "options on a type",
                        src: format!("#[derive({})] {} {}", way.name(), written(&set, style), kind.body()),
                        rule,
                    });
                }
            }
        }
    }
}

// ---- named fields ----

fn field(set: &[&str], last: bool, transparent: bool, way: Way) -> Rule {
    let has = |o: &str| set.contains(&o);
    let attribute = has(ATTRIBUTE);
    let ser = set.iter().any(|o| key(o) == "serialize_with");
    let de = set.iter().any(|o| key(o) == "deserialize_with");

    if [RENAME_ALL, TRANSPARENT, FORWARD, SCALAR, FORCE].iter().any(|o| has(o))
        || (has(DIRECT) && (!last || attribute))
        || (has(DIRECT) && if way == Way::To { ser } else { de })
        || (transparent && (attribute || (has(DIRECT) && way == Way::From)))
    {
        return Refuse;
    }
    if repeated(set) {
        return Open;
    }
    if has(SER_BAD) && way == Way::To && !attribute || has(DE_BAD) && way == Way::From {
        return Refuse;
    }
    if attribute && (has(NS) || has(NS_PATH)) {
        // The prefix of an attribute is chosen by its identifier
        return if way == Way::To { Refuse } else { Open };
    }
    if has(SER_BAD) || has(DE_BAD) || (transparent && has(DIRECT)) || (attribute && ser) {
        return Open;
    }
    Accept
}

fn named(quick: bool, out: &mut Vec<Form>) {
    let mut sets = subsets(&FIELD, if quick { 2 } else { 3 });
    let own: Vec<&str> =
        FIELD.iter().copied().filter(|o| ![RENAME_ALL, TRANSPARENT, FORWARD, SCALAR, FORCE].contains(o)).collect();
    let longer = if quick { 3 } else { 4 };
    sets.extend(subsets(&own, longer).into_iter().filter(|s| s.len() == longer));
    for set in sets {
        let what = |style| format!("{} f: u8", written(&set, style));
        for way in WAYS {
            for transparent in [false, true] {
                let head = format!("#[derive({})] {}", way.name(), if transparent { "#[xml(transparent)]" } else { "" });
                for (last, before, after) in
                    [(true, "", ""), (true, "a: u8, ", ""), (false, "", ", z: E"), (false, "", ", #[xml(direct)] z: String")]
                {
                    if transparent && after.contains("direct") {
                        continue;
                    }
                    let rule = field(&set, last, transparent, way);
                    for style in styles(&set, quick) {
                        if style > 0 && quick && (!before.is_empty() || !after.is_empty()) {
                            continue;
                        }
                        out.push(Form {
                            part: "options on a field",
                            src: format!("{head} struct T {{ {before}{}{after} }}", what(style)),
                            rule,
                        });
                    }
                }
            }
        }
    }
    // Options on two fields of one type are judged each on its own
    for one in FIELD {
        for two in FIELD {
            for (way, transparent) in WAYS.into_iter().flat_map(|w| [(w, false), (w, true)]) {
                let rule = match (field(&[one], false, transparent, way), field(&[two], true, transparent, way)) {
                    (Refuse, _) | (_, Refuse) => Refuse,
                    (Open, _) | (_, Open) => Open,
                    _ => Accept,
                };
                out.push(Form {
                    part: "options on two fields",
                    src: format!(
                        "#[derive({})] {} struct T {{ #[xml({one})] f: u8, #[xml({two})] g: u8 }}",
                        way.name(),
                        if transparent { "#[xml(transparent)]" } else { "" }
                    ),
                    rule,
                });
            }
        }
    }
    for option in FIELD.iter().chain(&["", "bogus", "rename"]) {
        for way in WAYS {
            for at in 0..2 {
                let f = |i| if i == at { format!("#[xml({option})] E") } else { "F".to_owned() };
                out.push(Form {
                    part: "options on a tuple field",
                    src: format!("#[derive({})] struct T({}, {});", way.name(), f(0), f(1)),
                    rule: Refuse,
                });
            }
        }
    }
}

// ---- variants ----

#[derive(Clone, Copy, PartialEq)]
enum Shape {
    Unit,
    NoTuple,
    One,
    Two,
    Three,
    Braces,
    NoBraces,
}

const SHAPES: [Shape; 7] =
    [Shape::Unit, Shape::NoTuple, Shape::One, Shape::Two, Shape::Three, Shape::Braces, Shape::NoBraces];

const VALUES: [&str; 7] = ["", " = 3", " = 0x1_0", " = 1 + 1", " = -1", " = CONST", " = 2 as isize"];

const ON_VARIANT: [&str; 16] = [
    RENAME, NS, NS_PREFIX, ATTRIBUTE, BORROW, DIRECT, RENAME_ALL, TRANSPARENT, FORWARD, SCALAR, FORCE, SER, DE,
    "bogus", "rename", "ns",
];

fn variants(quick: bool, out: &mut Vec<Form>) {
    for set in subsets(&ON_VARIANT, if quick { 1 } else { 2 }) {
        for shape in SHAPES {
            for value in VALUES {
                // Only unit variants can have a value without more ado
                if shape != Shape::Unit && !value.is_empty() {
                    continue;
                }
                for forward in [false, true] {
                    for way in WAYS {
                        let rule = variant(shape, &set, value, forward);
                        let body = match shape {
                            Shape::Unit => "",
                            Shape::NoTuple => "()",
                            Shape::One => "(E)",
                            Shape::Two => "(E, F)",
                            Shape::Three => "(E, F, E)",
                            Shape::Braces => "{ a: E }",
                            Shape::NoBraces => "{}",
                        };
                        let this = format!("{} This{body}{value}", written(&set, 0));
                        let (mode, plain) = if forward { ("forward", "A(F)") } else { ("scalar", "A") };
                        let head = format!("#[derive({})] #[xml({mode})] enum T", way.name());
                        for body in [this.clone(), format!("{this}, {plain}"), format!("{plain}, {this}")] {
                            out.push(Form { part: "variants", src: format!("{head} {{ {body} }}"), rule });
                        }
                    }
                }
            }
        }
    }
    for (way, rule) in [(Way::To, Open), (Way::From, Refuse)] {
        out.push(Form { part: "variants", src: format!("#[derive({})] #[xml(forward)] enum T {{}}", way.name()), rule });
    }
}

fn variant(shape: Shape, set: &[&str], value: &str, forward: bool) -> Rule {
    if forward {
        return if shape == Shape::One && set.is_empty() { Accept } else { Refuse };
    }
    match shape {
        Shape::Unit => {}
        Shape::NoTuple | Shape::NoBraces => return if set.iter().all(|o| *o == RENAME) { Open } else { Refuse },
        _ => return Refuse,
    }
    if set.iter().any(|o| *o != RENAME) || (!value.is_empty() && !set.is_empty()) {
        return Refuse;
    }
    if ["", " = 3", " = 0x1_0"].contains(&value) {
        Accept
    } else {
        Refuse
    }
}

// ---- parameters, names and types: nothing here takes away the meaning ----

/// Parameters, what follows the name in a `where`, and types that make use of them
const PARAMS: [(&str, &str, &[&str]); 20] = [
    ("", "", &["u8", "E"]),
    ("<'a>", "", &["&'a str"]),
    ("<'a>", "", &["Cow<'a, str>"]),
    ("<'a>", "", &["Option<Cow<'a, str>>", "Vec<Cow<'a, str>>"]),
    ("<'a, 'b>", "", &["&'a str", "Cow<'b, str>"]),
    ("<'a, 'b>", "", &["Cow<'a, str>", "Cow<'b, str>"]),
    ("<'a, 'cx>", "", &["Cow<'a, str>", "Lent<'cx>"]),
    ("<'a, 'b: 'a>", "", &["Lent<'a>", "Vec<Lent<'b>>"]),
    ("<'long_name>", "", &["Lent<'long_name>"]),
    ("<P>", "", &["P"]),
    ("<P>", "", &["Option<P>", "Vec<P>"]),
    ("<P: Clone>", "", &["P"]),
    ("<P: Clone + core::fmt::Debug>", "", &["Box<P>"]),
    ("<P>", "where P: Clone", &["Vec<P>"]),
    ("<P>", "where P: Clone,", &["P"]),
    ("<P, S>", "where P: Clone, S: Into<u64>", &["P", "Option<S>"]),
    ("<P = u8>", "", &["P"]),
    ("<const N: usize>", "", &["u8"]),
    ("<'a, P: Clone>", "", &["P", "Cow<'a, str>"]),
    ("<'a, P, const N: usize>", "where P: Clone", &["Cow<'a, str>", "Vec<P>"]),
];

const VISIBLE: [&str; 4] = ["", "pub", "pub(crate)", "pub(in super)"];

const NAMES: [&str; 12] = ["T0", "r#type", "r#T0", "É", "a_b", "A_", "__T", "Result", "String", "Option", "u8", "X1y2"];

/// Field names that code made by a derive may well use itself
const LOCAL: [&str; 32] = [
    "into", "field", "deserializer", "serializer", "id", "fid", "name", "ns", "value", "node", "attr", "prefix",
    "element", "namespaces_map", "cow_str", "inner", "item", "error", "acc", "data", "default", "field_str", "ignored",
    "new", "old", "this", "tag", "kind", "matches", "deserialize", "known", "result",
];

/// Type names that code made by a derive may well use itself
const TAKEN: [&str; 16] = [
    "Node", "Id", "Kind", "Error", "Accumulate", "Accumulator", "Deserializer", "Serializer", "Prefix", "Context", "Element",
    "Attribute", "Text", "Limits", "Write", "Vec",
];

const DERIVED: [&str; 4] = ["", "#[doc = \"x\"]", "#[derive(Clone)]", "#[cfg_attr(all(), doc = \"y\")] #[must_use]"];

fn shapes(out: &mut Vec<Form>) {
    let mut add = |src: String| out.push(Form { part: "parameters and names", src, rule: Accept });
    for (params, bound, types) in PARAMS {
        for kind in [Kind::Named, Kind::Tuple, Kind::Unit, Kind::UnitEnum, Kind::WrapEnum] {
            let wants = params.contains("'") || (params.contains("P") && !params.starts_with("<const"));
            // All parameters but constants have to be used
            if wants && matches!(kind, Kind::Unit | Kind::UnitEnum) {
                continue;
            }
            for way in WAYS {
                for transparent in [false, true] {
                    if transparent && kind != Kind::Named {
                        continue;
                    }
                    // Text with references in it cannot be lent
                    if way == Way::From && types.contains(&"&'a str") {
                        continue;
                    }
                    let list = |make: &dyn Fn(usize, &str) -> String| {
                        types.iter().enumerate().map(|(i, t)| make(i, t)).collect::<Vec<_>>().join(", ")
                    };
                    let fields = list(&|i, t| format!("f{i}: {t}"));
                    let (mode, body) = match kind {
                        Kind::Named => ("", format!("struct T{params} {bound} {{ {fields} }}")),
                        Kind::Tuple => ("", format!("struct T{params}({}) {bound};", list(&|_, t| t.to_owned()))),
                        Kind::Unit => ("", format!("struct T{params} {bound};")),
                        Kind::UnitEnum => ("#[xml(scalar)]", format!("enum T{params} {bound} {{ A, B }}")),
                        _ => ("#[xml(forward)]", format!("enum T{params} {bound} {{ {} }}", list(&|i, t| format!("V{i}({t})")))),
                    };
                    let mode = if transparent { "#[xml(transparent)]" } else { mode };
                    add(format!("#[derive({})] {mode} {body}", way.name()));
                    if kind == Kind::Named && !transparent {
                        let last = types.len() - 1;
                        let direct = list(&|i, t| format!("{}f{i}: {t}", if i == last { "#[xml(direct)] " } else { "" }));
                        add(format!("#[derive({})] struct T{params} {bound} {{ {direct} }}", way.name()));
                        if types.iter().all(|t| !t.contains("Vec") && !t.contains("Lent") && *t != "E") {
                            let attrs = list(&|i, t| format!("#[xml(attribute)] f{i}: {t}"));
                            add(format!("#[derive({})] struct T{params} {bound} {{ {attrs} }}", way.name()));
                        }
                    }
                }
            }
        }
    }
    for way in WAYS {
        for visible in VISIBLE {
            for other in DERIVED {
                for body in ["struct T { VIS f: u8 }", "struct T(VIS G);", "struct T;", "#[xml(scalar)] enum T { A }", "#[xml(forward)] enum T { A(G) }"] {
                    let body = body.replace("VIS", visible);
                    let (attr, body) = match body.strip_prefix("#[xml(").and_then(|b| b.split_once(' ')) {
                        Some((mode, body)) => (format!("#[xml({mode}"), body.to_owned()),
                        None => (String::new(), body),
                    };
                    add(format!("#[derive({})] {other} {attr} {visible} {body}", way.name()));
                }
            }
        }
        for name in LOCAL {
            for body in [
                format!("struct T {{ {name}: E }}"),
                format!("struct T {{ {name}: u8, z: Vec<E> }}"),
                format!("struct T {{ #[xml(attribute)] {name}: bool, z: E }}"),
                format!("struct T {{ #[xml(attribute)] z: bool, #[xml(direct)] {name}: bool }}"),
                format!("#[xml(transparent)] struct T {{ {name}: E, z: u8 }}"),
            ] {
                add(format!("#[derive({})] {body}", way.name()));
            }
        }
        for name in TAKEN {
            for body in [
                format!("struct T {{ f: {name} }}"),
                format!("struct T {{ #[xml(attribute)] f: {name}, z: E }}"),
                format!("struct T {{ #[xml(direct)] f: {name} }}"),
                format!("struct T({name});"),
                format!("#[xml(transparent)] struct T {{ f: {name} }}"),
                format!("#[xml(forward)] enum T {{ A({name}) }}"),
                format!("#[xml(scalar)] enum T {{ {name}, B }}"),
                format!("#[xml(forward)] enum T {{ {name}(E), B(F) }}"),
            ] {
                let (attr, body) = match body.strip_prefix("#[xml(").and_then(|b| b.split_once(' ')) {
                    Some((mode, body)) => (format!("#[xml({mode}"), body.to_owned()),
                    None => (String::new(), body),
                };
                add(format!("#[derive(ToXml, FromXml)] #[xml(scalar)] pub enum {name} {{ ONE, TWO }} #[derive({})] {attr} {body}", way.name()));
            }
        }
        for name in NAMES {
            let field = name.to_lowercase();
            for body in [
                format!("struct {name} {{ f: E }}"),
                format!("struct {name}(E);"),
                format!("struct {name};"),
                format!("#[xml(scalar)] enum {name} {{ A, B }}"),
                format!("#[xml(forward)] enum {name} {{ A(E), B(F) }}"),
                format!("#[xml(transparent)] struct {name} {{ f: E }}"),
                format!("struct T {{ {field}: E }}"),
                format!("struct T {{ #[xml(attribute)] {field}: bool }}"),
                format!("struct T {{ #[xml(direct)] {field}: bool }}"),
                format!("#[xml(transparent)] struct T {{ {field}: E }}"),
                format!("#[xml(scalar)] enum T {{ {name}, B }}"),
                format!("#[xml(forward)] enum T {{ {name}(E), B(F) }}"),
            ] {
                let (attr, body) = match body.strip_prefix("#[xml(").and_then(|b| b.split_once(' ')) {
                    Some((mode, body)) => (format!("#[xml({mode}"), body.to_owned()),
                    None => (String::new(), body),
                };
                add(format!("#[derive({})] {attr} {body}", way.name()));
            }
        }
    }
}

// ---- spelling ----

/// All sequences of up to `len` tokens
fn sequences<'a>(tokens: &[&'a str], len: usize) -> Vec<Vec<&'a str>> {
    let mut out = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..len {
        last = last
            .iter()
            .flat_map(|s: &Vec<&str>| {
                tokens.iter().map(move |t| {
                    let mut s = s.clone();
                    s.push(*t);
                    s
                })
            })
            .collect();
        out.extend(last.iter().cloned());
    }
    out
}

/// Everything that one token dropped, added, doubled, replaced or swapped makes of `seq`
fn slips<'a>(seq: &[&'a str], tokens: &[&'a str]) -> Vec<Vec<&'a str>> {
    let mut out = vec![seq.to_vec()];
    for i in 0..=seq.len() {
        for t in tokens {
            let mut s = seq.to_vec();
            s.insert(i, t);
            out.push(s);
            if i < seq.len() {
                let mut s = seq.to_vec();
                s[i] = t;
                out.push(s);
            }
        }
        if i < seq.len() {
            let mut s = seq.to_vec();
            s.remove(i);
            out.push(s);
        }
        for j in i + 1..seq.len() {
            let mut s = seq.to_vec();
            s.swap(i, j);
            out.push(s);
        }
    }
    out
}

const LIST: [&str; 12] = [
    "rename", "=", "\"x\"", ",", "ns", "(\"u\")", "force_prefix", "rename_all", "\"UPPERCASE\"", "bogus", "[\"u\"]", ":",
];

/// list := [item {"," item} [","]]
fn list(seq: &[&str]) -> Rule {
    let mut rest = seq;
    let mut seen = BTreeSet::new();
    let mut open = false;
    while !rest.is_empty() {
        let n = match rest {
            ["force_prefix", ..] => 1,
            ["ns", "(\"u\")", ..] => 2,
            ["rename", "=", "\"x\"", ..] => 3,
            // Nothing says that it cannot be a name
            ["rename", "=", "\"UPPERCASE\"", ..] => 3,
            ["rename_all", "=", "\"UPPERCASE\"", ..] => 3,
            _ => return Refuse,
        };
        open |= !seen.insert(rest[0]);
        rest = match &rest[n..] {
            [",", rest @ ..] => rest,
            [] => &[],
            _ => return Refuse,
        };
    }
    if open {
        Open
    } else {
        Accept
    }
}

const IN_NS: [&str; 9] = ["\"u\"", "U", "m::U", "::", "=", ",", "-", ".", "p"];

/// ns := [uri] {"," prefix "=" uri}, with the comma only between
fn ns(seq: &[&str]) -> Rule {
    let mut open = false;
    let mut seen = BTreeSet::new();
    let parts: Vec<&[&str]> = if seq.is_empty() { vec![] } else { seq.split(|t| *t == ",").collect() };
    let uri = |s: &[&str], open: &mut bool| match s {
        ["\"u\""] | ["U"] | ["m::U"] => true,
        // `p` is no constant, and neither are longer paths: refused by the compiler, not by the derive
        ["p"] => true,
        [..] if s.contains(&"::") => {
            *open = true;
            // Well-formed as a path?
            let mut name = s[0] != "::";
            for (i, t) in s.iter().enumerate() {
                let is_name = matches!(*t, "U" | "m::U" | "p");
                if is_name != name && !(i == 0) || (!is_name && *t != "::") {
                    return false;
                }
                name = *t == "::";
            }
            !name
        }
        _ => false,
    };
    for (i, part) in parts.iter().enumerate() {
        if part.is_empty() {
            // `ns("u",)`
            if i + 1 == parts.len() && i > 0 {
                open = true;
                continue;
            }
            return Refuse;
        }
        match part.iter().position(|t| *t == "=") {
            None if i == 0 => {
                if !uri(part, &mut open) {
                    return Refuse;
                }
                if *part == ["p"] {
                    open = true;
                }
            }
            None => return Refuse,
            Some(at) => {
                let (prefix, value) = (&part[..at], &part[at + 1..]);
                if value.is_empty() || !uri(value, &mut open) {
                    return Refuse;
                }
                if *value == ["p"] {
                    open = true;
                }
                // A name: identifiers, with `-` and `.` between
                if prefix.is_empty() || !["U", "p"].contains(&prefix[0]) {
                    return Refuse;
                }
                for t in prefix {
                    if !["U", "p", "-", "."].contains(t) {
                        return Refuse;
                    }
                }
                for two in prefix.windows(2) {
                    let punct = |t: &str| ["-", "."].contains(&t);
                    open |= punct(two[0]) == punct(two[1]);
                }
                open |= ["-", "."].contains(prefix.last().unwrap());
                open |= !seen.insert(prefix.concat());
            }
        }
    }
    if open {
        Open
    } else {
        Accept
    }
}

const RULES: [&str; 8] = [
    "lowercase",
    "UPPERCASE",
    "PascalCase",
    "camelCase",
    "snake_case",
    "SCREAMING_SNAKE_CASE",
    "kebab-case",
    "SCREAMING-KEBAB-CASE",
];

fn spelling(quick: bool, out: &mut Vec<Form>) {
    let mut seqs: BTreeSet<Vec<&str>> = sequences(&LIST, if quick { 3 } else { 4 }).into_iter().collect();
    for well in [
        &["rename", "=", "\"x\"", ",", "ns", "(\"u\")"][..],
        &["ns", "(\"u\")", ",", "rename_all", "=", "\"UPPERCASE\"", ","][..],
        &["force_prefix", ",", "rename", "=", "\"x\""][..],
        &["rename_all", "=", "\"UPPERCASE\"", ",", "force_prefix", ",", "ns", "(\"u\")"][..],
    ] {
        seqs.extend(slips(well, &LIST));
    }
    for (i, seq) in seqs.iter().enumerate() {
        let rule = list(seq);
        for way in WAYS {
            if quick && WAYS[i % 2] != way && rule == Refuse {
                continue;
            }
            out.push(Form {
                part: "spelling of the options",
                src: format!("#[derive({})] #[xml({})] struct T {{ a: u8 }}", way.name(), seq.join(" ")),
                rule,
            });
        }
    }

    let mut seqs: BTreeSet<Vec<&str>> = sequences(&IN_NS, if quick { 3 } else { 4 }).into_iter().collect();
    for well in [
        &["\"u\"", ",", "p", "=", "\"u\"", ",", "U", "=", "U"][..],
        &["m::U", ",", "p", "-", "U", "=", "m::U"][..],
        &["p", ".", "p", "=", "U", ",", "U", "=", "\"u\""][..],
        &["U", ",", "p", "-", "p", ".", "U", "=", "\"u\"", ",", "p", "=", "m::U"][..],
    ] {
        seqs.extend(slips(well, &IN_NS));
    }
    for (i, seq) in seqs.iter().enumerate() {
        let rule = ns(seq);
        for way in WAYS {
            if quick && WAYS[i % 2] != way && rule == Refuse {
                continue;
            }
            out.push(Form {
                part: "spelling of ns",
                src: format!("#[derive({})] #[xml(ns({}))] struct T {{ a: u8 }}", way.name(), seq.join(" ")),
                rule,
            });
        }
    }

    let mut cases: BTreeSet<String> = ["", " ", "none", "None", "UpperCase", "lower", "kebab_case"].map(String::from).into();
    for rule in RULES {
        cases.insert(rule.to_owned());
        cases.insert(rule.to_lowercase());
        cases.insert(rule.to_uppercase());
        cases.insert(rule.replace(['_', '-'], ""));
        cases.insert(rule.replace('_', "-"));
        cases.insert(rule.replace('-', "_"));
        for i in 0..rule.len() {
            let (a, b) = rule.split_at(i);
            let c = &b[..1];
            let flipped = if c.to_lowercase() == c { c.to_uppercase() } else { c.to_lowercase() };
            cases.insert(format!("{a}{}", &b[1..]));
            cases.insert(format!("{a}{flipped}{}", &b[1..]));
            cases.insert(format!("{a} {b}"));
            cases.insert(a.to_owned());
            cases.insert(b.to_owned());
        }
        cases.insert(format!("{rule} "));
    }
    for case in &cases {
        let rule = if RULES.contains(&case.as_str()) { Accept } else { Refuse };
        for way in WAYS {
            for (mode, body) in [("", "struct T { a: u8 }"), ("scalar, ", "enum T { A, B }")] {
                out.push(Form {
                    part: "names of the case rules",
                    src: format!("#[derive({})] #[xml({mode}rename_all = \"{case}\")] {body}", way.name()),
                    rule,
                });
            }
        }
    }

    // The attribute itself
    for (attr, rule) in [
        ("#[xml]", Refuse),
        ("#[xml = \"rename\"]", Refuse),
        ("#[xml()]", Accept),
        ("#[xml(rename_all = 1)]", Refuse),
        ("#[xml(Rename = \"x\")]", Refuse),
        ("#[xml(name = \"x\")]", Refuse),
        ("#[xml(xml(rename = \"x\"))]", Refuse),
        ("#[xml(xml)]", Refuse),
        ("#[xml(force_prefix = \"x\")]", Refuse),
        ("#[xml(force_prefix())]", Refuse),
        ("#[xml(rename(\"x\"))]", Refuse),
        ("#[xml(ns = \"u\")]", Refuse),
        ("#[xml(rename = x)]", Refuse),
        ("#[xml(rename = \"x\" \"y\")]", Refuse),
        ("#[xml(rename; ns)]", Refuse),
        ("#[xml(rename = \"x\"; force_prefix)]", Refuse),
        ("#[xml(force_prefix force_prefix)]", Refuse),
        ("#[xml(\"x\")]", Refuse),
        ("#[serde(rename)] #[xml]", Refuse),
        ("#[xml(rename = \"x\")] #[xml]", Refuse),
        ("#[xml] #[xml(rename = \"x\")]", Refuse),
        ("#[xml()] #[xml(bogus)]", Refuse),
        ("#[xml(bogus)] #[xml()]", Refuse),
    ] {
        for way in WAYS {
            for body in [
                format!("{attr} struct T {{ a: u8 }}"),
                format!("{attr} #[xml(scalar)] enum T {{ A }}"),
                format!("{attr} struct T(E);"),
                format!("{attr} struct T;"),
                format!("struct T {{ {attr} a: u8 }}"),
                format!("struct T {{ a: u8, {attr} b: u8 }}"),
                format!("#[xml(scalar)] enum T {{ {attr} A }}"),
            ] {
                // Not allowed there under any spelling
                let enum_force = body.contains("enum T") && body.contains("force_prefix");
                let rule = if rule == Accept && enum_force { Refuse } else { rule };
                if attr.contains("serde") {
                    continue;
                }
                out.push(Form {
                    part: "spelling of the attribute",
                    src: format!("#[derive({})] {body}", way.name()),
                    rule,
                });
            }
        }
    }
}

// ---- the compiler's word ----

const PACKAGES: usize = 8;

const PRELUDE: &str = "#![allow(warnings)]\n";

/// What every definition can refer to
const SCOPE: &str = "use instant_xml::{FromXml, ToXml}; use super::{E, F, G, Lent, U, m, ser, de}; use std::borrow::Cow; const CONST: isize = 7;";

const SUPPORT: &str = r#"
use std::borrow::Cow;
pub const U: &str = "c";
pub mod m { pub const U: &str = "d"; pub use super::{ser, de}; }
use instant_xml::{Deserializer, Error, Serializer, FromXml, ToXml};
#[derive(ToXml, FromXml)] pub struct E { e: u8 }
#[derive(ToXml, FromXml)] pub struct F { f: u8 }
#[derive(ToXml, FromXml, Clone)] pub struct G { g: u8 }
#[derive(ToXml, FromXml)] pub struct Lent<'a> { l: Cow<'a, str> }
pub fn ser<W: core::fmt::Write + ?Sized>(_: &u8, _: &mut Serializer<W>) -> Result<(), Error> { Ok(()) }
pub fn de(_: &mut Option<u8>, _: &'static str, _: &mut Deserializer<'_, '_>) -> Result<(), Error> { Ok(()) }
"#;

fn home() -> PathBuf {
    let target = match std::env::var_os("CARGO_TARGET_DIR") {
        Some(dir) => PathBuf::from(dir),
        None => PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/../target")),
    };
    target.join("forms")
}

fn fail(why: &str) -> ! {
    println!("check error: {why}");
    std::process::exit(2);
}

/// Give all definitions to the compiler; the line of each refused one, or None if it refused none
fn compile(forms: &[&Form], refused: &mut BTreeSet<usize>) -> bool {
    let home = home();
    let write = |path: PathBuf, text: &str| {
        if std::fs::read_to_string(&path).ok().as_deref() != Some(text) {
            std::fs::write(&path, text).unwrap_or_else(|e| fail(&format!("{}: {e}", path.display())));
        }
    };
    let mut members = String::new();
    // line -> form
    let mut lines: Vec<Vec<usize>> = Vec::new();
    for p in 0..PACKAGES {
        let dir = home.join(format!("f{p}/src"));
        std::fs::create_dir_all(&dir).unwrap_or_else(|e| fail(&e.to_string()));
        let _ = write!(members, "\"f{p}\", ");
        let mut text = PRELUDE.to_owned();
        let mut here = Vec::new();
        for (i, form) in forms.iter().enumerate().skip(p).step_by(PACKAGES) {
            if refused.contains(&i) {
                continue;
            }
            let _ = writeln!(text, "mod d{i} {{ {SCOPE} {} }}", form.src);
            here.push(i);
        }
        text.push_str(SUPPORT);
        write(dir.join("lib.rs"), &text);
        write(
            home.join(format!("f{p}/Cargo.toml")),
            &include_str!("../package.toml").replace("NAME", &format!("f{p}")),
        );
        lines.push(here);
    }
    write(home.join("Cargo.toml"), &format!("[workspace]\nmembers = [{members}]\nresolver = \"2\"\n"));
    write(home.join("Cargo.lock"), include_str!("../../Cargo.lock"));

    let out = Command::new(std::env::var_os("CARGO").unwrap_or_else(|| "cargo".into()))
        .args(["check", "--offline", "--keep-going", "--message-format", "short", "--color", "never"])
        .current_dir(&home)
        .env("CARGO_TARGET_DIR", home.join("target"))
        .env_remove("RUSTFLAGS")
        .output()
        .unwrap_or_else(|e| fail(&format!("cargo: {e}")));
    let text = String::from_utf8_lossy(&out.stderr);
    let before = refused.len();
    let mut lost = Vec::new();
    for line in text.lines() {
        let Some((place, rest)) = line.split_once(": error") else { continue };
        if !(rest.starts_with(':') || rest.starts_with('[')) {
            continue;
        }
        let mut at = place.split(':');
        let found = (|| {
            let package: usize = at.next()?.strip_prefix('f')?.strip_suffix("/src/lib.rs")?.parse().ok()?;
            let line: usize = at.next()?.parse().ok()?;
            lines.get(package)?.get(line.checked_sub(2)?).copied()
        })();
        match found {
            Some(i) => {
                refused.insert(i);
            }
            None => lost.push(line.to_owned()),
        }
    }
    if std::env::var_os("C21_ALL").is_some() {
        println!("  {} refused before, {} now\n{}", before, refused.len(), text.lines().rev().take(6).collect::<Vec<_>>().join("\n"));
    }
    if out.status.success() {
        return true;
    }
    if !lost.is_empty() || refused.len() == before {
        fail(&format!("cannot make out what was refused: {}\n{}", lost.join("\n"), &text[text.len().saturating_sub(2000)..]));
    }
    false
}

/// The known finding that a definition falls under
fn finding(src: &str) -> Option<&'static str> {
    if src.starts_with("#[derive(FromXml)]") && src.contains("<'a, 'cx>") {
        Some("lifetime-called-cx")
    } else if src.contains(" struct Option") || src.contains(" enum Option ") {
        Some("type-called-option")
    } else if src.contains("#[derive(FromXml)]") && (src.contains("{ Accumulator, B }") || src.contains("{ Accumulator(E)")) {
        Some("variant-called-accumulator")
    } else {
        None
    }
}

fn main() {
    mcore::engine::main(c21)
}

fn c21(run: &Run) {
    let mut forms = Vec::new();
    let quick = run.quick();
    containers(quick, &mut forms);
    named(quick, &mut forms);
    variants(quick, &mut forms);
    spelling(quick, &mut forms);
    shapes(&mut forms);
    let mut known = BTreeSet::new();
    forms.retain(|f| known.insert(f.src.clone()));
    let judged: Vec<&Form> = forms.iter().filter(|f| f.rule != Open).collect();

    let mut refused = BTreeSet::new();
    let mut rounds = 0;
    // The compiler gives up in stages: once without errors, all stages have been passed
    while !compile(&judged, &mut refused) {
        rounds += 1;
        if rounds > 12 {
            fail("the compiler does not come to an end");
        }
    }
    println!(
        "  {} definitions ({} more are left open), {} refused, {} accepted, {} rounds of compilation",
        judged.len(),
        forms.len() - judged.len(),
        refused.len(),
        judged.len() - refused.len(),
        rounds + 1
    );

    if std::env::var_os("C21_ALL").is_some() {
        for (i, form) in judged.iter().enumerate() {
            if (form.rule == Refuse) != refused.contains(&i) {
                println!("  should {:?}: {}", form.rule, form.src);
            }
        }
    }

    for key in ["lifetime-called-cx", "type-called-option", "variant-called-accumulator"] {
        let bad = judged.iter().enumerate().find(|(i, f)| f.rule == Accept && refused.contains(i) && finding(&f.src) == Some(key));
        if let Some((_, form)) = bad {
            run.probe(key, &form.src, "compiles", "refused at compile time", false);
        }
    }

    let mut parts: Vec<&str> = judged.iter().map(|f| f.part).collect();
    parts.dedup();
    for part in parts {
        let items: Vec<(usize, &Form)> = judged.iter().copied().enumerate().filter(|(_, f)| f.part == part).collect();
        run.par(part, &items, |cx, (i, form)| {
            cx.count(hash(&form.src));
            cx.transitions += 1;
            cx.sample(|| format!("{:?}: {}", form.rule, form.src));
            let gone = refused.contains(i);
            if gone {
                cx.rejected += 1;
            } else {
                cx.accepted += 1;
            }
            match (form.rule, gone) {
                (Refuse, false) => cx.violation(part, &form.src, "refused at compile time", "accepted"),
                (Accept, true) if finding(&form.src).is_some() => {}
                (Accept, true) => cx.violation(part, &form.src, "compiles", "refused at compile time"),
                _ => {}
            }
        });
    }
}
