//! Writes the family of type definitions: every combination and order of options, every identifier
//! shape, every form of namespace.

#[path = "../mcore/src/names.rs"]
mod names;

use std::fmt::Write;

use names::{rename_field, rename_variant};

const RULES: [&str; 9] = [
    "",
    "lowercase",
    "UPPERCASE",
    "PascalCase",
    "camelCase",
    "snake_case",
    "SCREAMING_SNAKE_CASE",
    "kebab-case",
    "SCREAMING-KEBAB-CASE",
];

#[derive(Default)]
struct Out {
    code: String,
    calls: String,
    n: usize,
    part: usize,
}

impl Out {
    /// A module with some types; `S` is the one under test
    fn add(&mut self, what: &str, types: &[&str], code: &str) {
        let n = self.n;
        self.n += 1;
        if n % 4 != self.part {
            return;
        }
        let _ = write!(self.code, "pub mod m{n} {{\n    use super::*;\n    {code}\n}}\n");
        for t in types {
            let name = format!("m{n}::{t}: {what}");
            let _ = writeln!(self.calls, "    out.push(Case {{ name: {name:?}, ..case!(m{n}::{t}) }});");
        }
    }
}

const DERIVE: &str = "#[derive(Clone, Debug, PartialEq, FromXml, ToXml, Model)]";

/// All orders of all subsets
fn arrangements<'a>(items: &[&'a str]) -> Vec<Vec<&'a str>> {
    let mut out = vec![vec![]];
    let mut last: Vec<Vec<&str>> = vec![vec![]];
    for _ in 0..items.len() {
        let mut next = Vec::new();
        for a in &last {
            for i in items {
                if !a.contains(i) {
                    let mut b = a.clone();
                    b.push(*i);
                    next.push(b);
                }
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

/// The options in one attribute, in one attribute each, and split with other attributes in between
fn spellings(opts: &[&str]) -> Vec<String> {
    match opts.len() {
        0 => vec![String::new()],
        1 => vec![format!("#[xml({})]", opts[0])],
        n => {
            let mut out = vec![format!("#[xml({})]", opts.join(", "))];
            out.push(opts.iter().map(|o| format!("#[xml({o})]\n    ")).collect());
            if n > 2 {
                out.push(format!(
                    "/// Documented\n    #[xml({})]\n    #[allow(dead_code)]\n    #[xml({},)]",
                    opts[0],
                    opts[1..].join(", ")
                ));
            }
            out
        }
    }
}

fn container(rule: &str) -> String {
    match rule {
        "" => String::new(),
        rule => format!("#[xml(rename_all = \"{rule}\")]"),
    }
}

fn renames(out: &mut Out, wide: bool) {
    let sets: [&[&str]; 3] = [
        &["a", "ab", "foo_bar", "foo_bar_baz", "x1y", "z_1", "r#type", "long_name_2_x"],
        &["a_b", "type_", "camelCase", "r#match", "e2e_t3st"],
        &["a__b", "i", "_lead", "r#loop"],
    ];
    let idents = |i: usize, rule: &str| -> Vec<&str> {
        let mut ids = sets[i].to_vec();
        if rule.contains("kebab") || rule.contains("KEBAB") {
            // `-lead` is no XML name
            ids.retain(|i| !i.starts_with('_'));
        }
        if matches!(rule, "" | "lowercase" | "snake_case" | "kebab-case" | "camelCase") {
            if i == 2 {
                ids.push("été_bleu");
            }
        }
        if !matches!(rule, "UPPERCASE" | "SCREAMING_SNAKE_CASE" | "SCREAMING-KEBAB-CASE" | "PascalCase" | "camelCase") {
            // Which capital letters of a field a rule keeps is only clear for some
            if rule == "lowercase" || rule == "snake_case" {
                ids.retain(|i| *i != "camelCase");
            }
        } else {
            ids.retain(|i| *i != "camelCase" || rule != "camelCase");
        }
        ids
    };
    for rule in RULES {
        for i in 0..sets.len() {
            let ids = idents(i, rule);
            let kinds: &[usize] = if wide || i == 0 { &[0, 1, 2] } else { &[0, 1] };
            for &kind in kinds {
                let mut body = String::new();
                for (k, id) in ids.iter().enumerate() {
                    let attr = match kind {
                        0 => true,
                        1 => false,
                        _ => k % 2 == 0,
                    };
                    let ty = match (attr, k % 3) {
                        (true, 0) | (false, 1) => "Option<u8>",
                        (true, _) => "String",
                        (false, 0) => "String",
                        (false, _) => "Vec<u8>",
                    };
                    let _ = writeln!(body, "{}\n        pub {id}: {ty},", if attr { "#[xml(attribute)]" } else { "" });
                }
                out.add(&format!("rename_all {rule}"), &["S"], &format!("{DERIVE}\n{}\npub struct S {{\n{body}}}", container(rule)));
            }
        }
        // Exact names win over the rule
        for spelled in ["rename = \"Ex_act\"", "rename = \"ex-act.1\""] {
            out.add(
                &format!("rename under {rule}"),
                &["S"],
                &format!(
                    "{DERIVE}\n{}\npub struct S {{
        #[xml(attribute, {spelled})] pub foo_bar: Option<u8>,
        #[xml(attribute)] pub one_two: String,
        #[xml({spelled})] pub three_four: String,
        pub five_six: Vec<u8>,
        #[xml(rename = \"five_six_7\")] pub seven_eight: Option<T>,
    }}
    {DERIVE}\n{}\npub struct T {{ #[xml(attribute, rename = \"TEN\")] pub ten_nine: u8, #[xml(direct)] pub nine_ten: u8 }}",
                    container(rule),
                    container(rule)
                ),
            );
        }
        // A struct's own name is not subject to the rule
        let attr = match rule {
            "" => String::new(),
            rule => format!(", rename_all = \"{rule}\""),
        };
        out.add(
            &format!("transparent, {rule}"),
            &["S"],
            &format!(
                "{DERIVE} #[xml(transparent{attr})] pub struct X {{ pub foo_bar: String, pub a_b: Option<u8>, #[xml(rename = \"Fix_ed\")] pub fix_me: Option<u8> }}
    {DERIVE} pub struct S {{ pub before_x: u8, pub x: X, pub after_x: Option<u8> }}"
            ),
        );
        out.add(
            &format!("container name under {rule}"),
            &["S"],
            &format!(
                "{DERIVE} {0} pub struct FooBar {{ pub x_y: u8 }}
    {DERIVE} {0} pub struct Baz_Qux; {DERIVE} {0} pub struct r#type(pub Baz_Qux);
    {DERIVE} {0} pub struct S {{ pub foo_bar: FooBar, pub baz: Option<Baz_Qux>, pub ty: Vec<r#type> }}",
                container(rule)
            ),
        );
        // Variants
        let mut list = vec!["A", "Ab", "AbC", "FooBar", "HTTPServer", "X1", "Foo2Bar", "r#Type2"];
        if !rule.contains("UPPER") && !rule.contains("SCREAMING") {
            list.push("CaféNoir");
        }
        let plain: String = list.iter().map(|v| format!("{v}, ")).collect();
        let marked: String = list
            .iter()
            .enumerate()
            .map(|(i, v)| match i % 3 {
                0 => format!("#[xml(rename = \"n_{i}-Ex\")] {v}, "),
                _ => format!("{v}, "),
            })
            .collect();
        let numbered: String = list
            .iter()
            .enumerate()
            .map(|(i, v)| match i % 3 {
                1 => format!("{v} = {}, ", ["7", "0x10", "1_000", "12u8", "0b11"][i % 5].replace("12u8", "12")),
                _ => format!("{v}, "),
            })
            .collect();
        for (what, vs) in [("plain", &plain), ("renamed", &marked), ("numbered", &numbered)] {
            out.add(
                &format!("{what} variants, {rule}"),
                &["S", "D"],
                &format!(
                    "#[derive(Clone, Copy, Debug, PartialEq, FromXml, ToXml, Model)] #[xml(scalar{attr})] pub enum E {{ {vs} }}
    {DERIVE} pub struct S {{ #[xml(attribute)] pub at: Option<E>, pub e: E, pub list: Vec<E> }}
    {DERIVE} pub struct D {{ #[xml(attribute)] pub at: E, #[xml(direct)] pub d: E }}"
                ),
            );
        }
    }
    // How a capital outside ASCII is changed is left open, but it has to compile and be consistent
    for rule in RULES {
        let attr = match rule {
            "" => String::new(),
            rule => format!(", rename_all = \"{rule}\""),
        };
        let n = out.n;
        out.n += 1;
        if n % 4 != out.part {
            continue;
        }
        let _ = write!(
            out.code,
            "pub mod m{n} {{ use super::*;
    #[derive(Clone, Copy, Debug, PartialEq, FromXml, ToXml)] #[xml(scalar{attr})] pub enum E {{ ÉtéBleu, Ünter, Ñ }}
    #[derive(Clone, Debug, PartialEq, FromXml, ToXml)] {} pub struct S {{ #[xml(attribute)] pub été_là: E, pub ß_x: E, pub ñ: Vec<E> }} }}\n",
            container(rule)
        );
        let _ = writeln!(
            out.calls,
            "    odd.push((\"m{n}: {rule}\", || {{ use m{n}::*; let v = S {{ été_là: E::ÉtéBleu, ß_x: E::Ünter, ñ: vec![E::Ñ, E::ÉtéBleu] }}; back(&v) }}));"
        );
    }
}

fn containers(out: &mut Out) {
    let ns = [
        "ns(\"urn:a\", p = \"urn:a\", q = B)",
        "ns(B, p = \"urn:a\")",
        "ns(q = B)",
        "ns(\"urn:c\")",
    ];
    for (i, ns) in ns.iter().enumerate() {
        let items = [*ns, "rename = \"re-Named\"", "rename_all = \"camelCase\"", "force_prefix"];
        for a in arrangements(&items) {
            if i > 0 && (!a.contains(ns) || a.len() > 3) {
                continue;
            }
            for spelled in spellings(&a) {
                let at = match a.contains(ns) && ns.contains("q = B") {
                    true => "#[xml(attribute, ns(B))] pub in_b: Option<u8>, #[xml(ns(B))] pub elem_b: Option<u8>,",
                    false => "",
                };
                out.add(
                    &format!("container {spelled}"),
                    &["S"],
                    &format!("{DERIVE}\n{spelled}\npub struct S {{ #[xml(attribute)] pub foo_bar: u8, {at} pub baz_qux: Vec<String>, pub kid: Option<Kid> }}"),
                );
            }
        }
    }
    for ns in ["ns(\"urn:a\")", "ns(B)"] {
        for a in arrangements(&[ns, "scalar", "rename_all = \"kebab-case\""]) {
            if !a.contains(&"scalar") {
                continue;
            }
            for spelled in spellings(&a) {
                out.add(
                    &format!("enum {spelled}"),
                    &["S", "T"],
                    &format!(
                        "#[derive(Clone, Copy, Debug, PartialEq, FromXml, ToXml, Model)]\n{spelled}\npub enum E {{ FooBar, Two, #[xml(rename = \"ThRee\")] Three, Four = 4 }}
    {DERIVE} pub struct S {{ pub e: E, #[xml(attribute)] pub at: Option<E>, pub l: Vec<E> }}
    {DERIVE} #[xml(ns(\"urn:a\", b = B))] pub struct T {{ pub e: E, #[xml(attribute)] pub at: Option<E>, pub l: Vec<E> }}"
                    ),
                );
            }
        }
    }
    // The remaining kinds of container
    for ns in ["", "ns(\"urn:a\")", "ns(\"urn:a\", a = \"urn:a\")", "ns(B, a = \"urn:a\", b = B)"] {
        let mut items = vec!["rename = \"o.th-er\"", "force_prefix"];
        if !ns.is_empty() {
            items.push(ns);
        }
        for a in arrangements(&items) {
            let full = spellings(&a);
            let spelled = &full[full.len() - 1];
            out.add(
                &format!("tuple, unit and empty {spelled}"),
                &["T", "U", "N", "H"],
                &format!(
                    "{DERIVE}\n{spelled}\npub struct T(pub Kid);\n{DERIVE}\n{spelled}\npub struct U;\n{DERIVE}\n{spelled}\npub struct N {{}}
    {DERIVE} #[xml(ns(c = \"urn:a\", d = B))] pub struct H {{ pub t: Vec<W>, pub u: Option<U> }}
    {DERIVE} pub struct W {{ pub n: N }}"
                ),
            );
        }
    }
    for a in arrangements(&["transparent", "rename_all = \"UPPERCASE\""]) {
        if !a.contains(&"transparent") {
            continue;
        }
        for spelled in spellings(&a) {
            out.add(
                &format!("transparent {spelled}"),
                &["S"],
                &format!(
                    "{DERIVE}\n{spelled}\npub struct X {{ pub ab_c: Option<u8>, pub kid: Option<Kid>, pub s: String }}
    {DERIVE} #[xml(ns(\"urn:a\"))] pub struct S {{ #[xml(attribute)] pub at: u8, pub x: X, pub y: Vec<u8> }}"
                ),
            );
        }
    }
    for spelled in ["#[xml(forward)]", "#[xml(forward,)]", "/// Doc\n #[xml(forward)] #[allow(dead_code)]"] {
        out.add(
            &format!("forward {spelled}"),
            &["S"],
            &format!(
                "{DERIVE}\n{spelled}\npub enum F {{ /** One */ A(Kid), B(Other), C(Box<Third>) }}
    {DERIVE} pub struct S {{ pub f: F, pub g: Vec<F2> }}
    {DERIVE}\n{spelled}\npub enum F2 {{ #[allow(dead_code)] X(Fourth) }}"
            ),
        );
    }
}

fn fields(out: &mut Out) {
    let tops = [
        "#[xml(ns(\"urn:a\", d = D, e = \"urn:e\"))]",
        "#[xml(ns(d = D), rename_all = \"UPPERCASE\")]",
        "#[xml(ns(D, d = D), rename_all = \"PascalCase\")]",
    ];
    for (t, top) in tops.iter().enumerate() {
        let mut seen = std::collections::BTreeSet::new();
        for a in arrangements(&["attribute", "rename = \"re-Named.x\"", "ns(D)"]) {
            for spelled in spellings(&a) {
                if seen.insert(spelled.clone()) {
                    out.add(
                        &format!("field {spelled} in {top}"),
                        &["S", "O"],
                        &format!(
                            "{DERIVE}\n{top}\npub struct S {{\n{spelled}\npub foo_bar: String, #[xml(attribute)] pub rest_a: Option<u8>, pub rest_e: Option<u8> }}
    {DERIVE}\n{top}\npub struct O {{ pub rest_e: Vec<u8>,\n{spelled}\npub foo_bar: Option<u8> }}"
                        ),
                    );
                }
            }
        }
        for a in arrangements(&["rename = \"n-n\"", "ns(\"urn:e\")", "borrow"]) {
            if t > 0 && a.len() == 3 {
                continue;
            }
            for spelled in spellings(&a) {
                if seen.insert(format!("{spelled} ")) {
                    out.add(
                        &format!("field {spelled} in {top}"),
                        &["S<'_>"],
                        &format!(
                            "{DERIVE}\n{top}\npub struct S<'a> {{\n{spelled}\npub foo_bar: Cow<'a, str>, pub after: Option<u8> }}"
                        ),
                    );
                }
            }
        }
        for a in arrangements(&["attribute", "rename = \"n.n\"", "ns(D)", "borrow"]) {
            if !a.contains(&"borrow") || !a.contains(&"attribute") || t > 0 && a.len() == 4 {
                continue;
            }
            let all = spellings(&a);
            let spelled = &all[0];
            out.add(
                &format!("field {spelled} in {top}"),
                &["S<'_>"],
                &format!(
                    "{DERIVE}\n{top}\npub struct S<'a> {{ pub before: u8, \n{spelled}\npub foo_bar: Cow<'a, str> }}"
                ),
            );
        }
        for spelled in ["#[xml(direct)]", "#[xml(direct,)]", "/// Doc\n#[xml(direct)]"] {
            for ty in ["String", "Option<u8>", "bool", "Cow<'static, str>"] {
                out.add(
                    &format!("field {spelled} {ty} in {top}"),
                    &["S", "A"],
                    &format!(
                        "{DERIVE}\n{top}\npub struct S {{ #[xml(attribute, ns(D))] pub at: u8,\n{spelled}\npub text: {ty} }}
    {DERIVE}\n{top}\npub struct A {{ pub e: Option<u8>, #[xml(attribute)] pub at: u8,\n{spelled}\npub text: {ty} }}"
                    ),
                );
            }
        }
        // Every kind of field with a namespace and a name of its own
        for ns in ["ns(D)", "ns(\"urn:e\")", "ns(\"urn:none\")", "ns(\"urn:a\")", "ns(\"\")"] {
            let same = [("ns(\"urn:a\")", 0), ("ns(\"\")", 1), ("ns(D)", 2)].contains(&(ns, t));
            let name = if same { "other" } else { ["foo", "FOO", "Foo"][t] };
            for ty in ["u8", "Option<String>", "Vec<u8>", "Box<u8>", "Option<Box<String>>", "std::net::IpAddr"] {
                out.add(
                    &format!("field {ns} {ty} in {top}"),
                    &["S"],
                    &format!(
                        "{DERIVE}\n{top}\npub struct S {{ pub foo: Option<u8>, #[xml({ns}, rename = \"{name}\")] pub bar: {ty}, pub baz: Option<u8> }}"
                    ),
                );
            }
        }
    }
}

fn namespaces(out: &mut Out, wide: bool) {
    let forms = [
        "\"urn:x\"",
        "r\"urn:x\"",
        "r#\"urn:x\"#",
        "\"urn:\\u{78}\"",
        "X",
        "names::X",
        "self::X",
        "super::X",
        "super::names::X",
        "crate::X",
        "crate::names::X",
        "::mcore::model::FAR",
        "mcore::model::FAR",
        "\"http://www.w3.org/2001/XMLSchema-instance\"",
        "\"DAV:\"",
        "\"a b\"",
    ];
    for f in forms {
        let places = [
            format!("{DERIVE} #[xml(ns({f}))] pub struct S {{ pub a: u8, pub k: Option<Kid>, #[xml(attribute)] pub b: Option<u8> }}"),
            format!("{DERIVE} #[xml(ns(pre = {f}))] pub struct S {{ pub a: u8, pub k: Option<Kid>, #[xml(ns({f}))] pub c: Option<u8> }}"),
            format!("{DERIVE} #[xml(ns(\"urn:y\", pre = {f}))] pub struct S {{ pub a: u8, pub k: Option<Kid>, #[xml(ns({f}))] pub c: Vec<u8> }}"),
            format!("{DERIVE} #[xml(ns({f}, pre = {f}))] pub struct S {{ pub a: u8, pub k: Option<Kid>, #[xml(ns(\"urn:y\"))] pub c: Vec<u8> }}"),
            format!("{DERIVE} #[xml(ns({f}, a = \"urn:y\", pre = {f}), force_prefix)] pub struct S {{ pub a: u8, pub k: Option<Kid>, #[xml(ns(\"urn:y\"))] pub c: Vec<u8> }}"),
            format!("{DERIVE} #[xml(ns({f}, a = \"urn:y\", pre = {f},))] pub struct S {{ pub a: u8, #[xml(ns({f}),)] pub c: Vec<u8> }}"),
            format!("{DERIVE} pub struct S {{ pub a: u8, #[xml(ns({f}))] pub b: Option<u8>, pub c: Vec<u8> }}"),
            format!("{DERIVE} #[xml(ns(a = \"urn:y\", b = {f}, c = \"urn:z\"))] pub struct S {{ #[xml(ns({f}))] pub b: Option<u8>, #[xml(ns(\"urn:y\"))] pub c: Vec<u8>, #[xml(ns(\"urn:z\"))] pub d: u8 }}"),
            format!("#[derive(Clone, Copy, Debug, PartialEq, FromXml, ToXml, Model)] #[xml(scalar, ns({f}))] pub enum E {{ A, B }} {DERIVE} pub struct S {{ pub e: E, pub f: Option<E> }}"),
            format!("{DERIVE} #[xml(ns({f}))] pub struct U; {DERIVE} #[xml(ns({f}))] pub struct T(pub U); {DERIVE} pub struct S {{ pub t: Vec<T> }}"),
        ];
        for p in places {
            // A trailing comma within `ns` is not among the documented forms
            let p = p.replace(",))]", "))]");
            out.add(&format!("namespace {f}"), &["S"], &p);
        }
    }
    let names = ["a", "A", "_u", "xsi", "a1", "a-b", "a.b", "a-b.c", "a.b-c", "a_b", "my-ns.v1", "type", "ns", "rename", "x-y-z", "r", "é", "xm", "xmlx", "x-xml", "lang", "in.self-mod"];
    for p in names {
        for (uri, n) in [("", 0), ("\"urn:u\", ", 1), ("B, ", 2)] {
            for (more, m) in [("", 0), (", z = \"urn:z\"", 1), (", k.k-1k = \"urn:z\", c = B", 2)] {
                let more = more.replace("k.k-1k", "k.k-k1");
                if !wide && n + m > 2 {
                    continue;
                }
                for place in [0, 1] {
                    let own = format!("{p} = D");
                    let list = match place {
                        0 => format!("{uri}{own}{more}"),
                        // The prefix comes last
                        _ if m == 0 => continue,
                        _ => format!("{uri}{}, {own}", &more[2..]),
                    };
                    out.add(
                        &format!("prefix {list}"),
                        &["S"],
                        &format!(
                            "{DERIVE} #[xml(ns({list}))] pub struct S {{ #[xml(attribute, ns(D))] pub at: Option<u8>, #[xml(ns(D))] pub e: u8, pub f: Option<u8>, #[xml(attribute)] pub g: Option<u8> }}"
                        ),
                    );
                }
            }
        }
    }
    // Several prefixes in every order
    let four = ["a = \"urn:1\"", "b-b = \"urn:2\"", "c = D", "d.d = B"];
    for list in arrangements(&four) {
        if list.is_empty() || !wide && list.len() == 3 {
            continue;
        }
        let at = match list.contains(&four[2]) {
            true => "#[xml(attribute, ns(D))] pub at: u8,",
            false => "",
        };
        out.add(
            &format!("prefixes {list:?}"),
            &["S"],
            &format!(
                "{DERIVE} #[xml(ns(\"urn:2\", {}))] pub struct S {{ {at} #[xml(ns(\"urn:1\"))] pub e: u8, #[xml(ns(\"urn:2\"))] pub f: Option<u8>, #[xml(ns(B))] pub g: Option<u8>, pub kid: Option<Kid> }}",
                list.join(", ")
            ),
        );
    }
}

/// Names in every spelling of a string literal, and names of every kind
fn literals(out: &mut Out, wide: bool) {
    let mut forms: Vec<String> = [
        "\"caf\\u{e9}\"", "\"\\x41b\"", "\"\\u{6E}\"", "\"a\\x2db\"", "r\"raw\"", "r#\"raw-1\"#", "r##\"r\"##", "\"two\\\n            lines\"", "\"\\u{0_078}yz\"",
        "\"caf\u{e9}\"", "\"_\"", "\"a\"", "\"a.b-c_d\"", "\"\u{4e2d}\u{6587}\"",
    ]
    .map(String::from)
    .to_vec();
    let words = [
        "xm", "xmlx", "Xml", "xmln", "type", "Self", "self", "id", "class", "lang", "space", "ns", "nil", "true", "value", "v", "S", "x-y.z", "a1", "rename",
        "name", "text", "attribute", "direct", "u8", "Option", "e", "E", "s", "T",
    ];
    forms.extend(words.iter().take(if wide { 30 } else { 14 }).map(|w| format!("\"{w}\"")));
    forms.push(format!("\"{}\"", "long".repeat(20)));
    for l in &forms {
        for (k, top) in ["", "ns(\"urn:a\"), ", "ns(D, d = \"urn:b\"), rename_all = \"UPPERCASE\", "].into_iter().enumerate() {
            if !wide && k == 1 {
                continue;
            }
            out.add(
                &format!("names {l} in {top}"),
                &["S", "T", "A", "D"],
                &format!(
                    "#[derive(Clone, Copy, Debug, PartialEq, FromXml, ToXml, Model)] #[xml(scalar)] pub enum E {{ One, #[xml(rename = {l})] Two, Three }}
    {DERIVE} #[xml({top}rename = {l})] pub struct K {{ #[xml(rename = {l}, attribute)] pub at: Option<u8>, #[xml(rename = {l})] pub el: Option<String> }}
    {DERIVE} #[xml({top}rename = {l})] pub struct U;
    {DERIVE} #[xml({top}rename = {l})] pub struct T(pub u8);
    {DERIVE} #[xml(forward)] pub enum F {{ K(K), Kid(Kid) }}
    {DERIVE} #[xml({top}rename = \"root\")] pub struct S {{ #[xml(attribute)] pub at: E, #[xml(attribute, rename = {l})] pub e: Option<E>, pub k: K, #[xml(rename = \"zz9\")] pub list: Vec<E>, pub zz: Option<u8> }}
    {DERIVE} #[xml({top}rename = {l})] pub struct A {{ #[xml(rename = {l})] pub e: Vec<E>, pub u: Option<Kid>, pub zz: Option<u8> }}
    {DERIVE} #[xml({top}rename = \"root\")] pub struct D {{ pub u: U, #[xml(attribute)] pub g: Option<u8>, pub f: Vec<Kid> }}"
                ),
            );
        }
    }
}

/// All words of up to `n` letters
fn words(letters: &[char], n: usize) -> Vec<String> {
    let mut out = Vec::new();
    let mut last = vec![String::new()];
    for _ in 0..n {
        last = last.iter().flat_map(|w| letters.iter().map(move |c| format!("{w}{c}"))).collect();
        out.extend(last.iter().cloned());
    }
    out
}

fn xml_name(name: &str) -> bool {
    let mut cs = name.chars();
    cs.next().is_some_and(|c| c.is_alphabetic() || c == '_')
        && cs.all(|c| c.is_alphanumeric() || ['_', '-', '.'].contains(&c))
}

/// As few groups as there are, in which no name comes twice
fn groups(list: Vec<(String, String)>, most: usize) -> Vec<Vec<(String, String)>> {
    let mut out: Vec<Vec<(String, String)>> = Vec::new();
    for (ident, name) in list {
        match out.iter_mut().find(|g| g.len() < most && g.iter().all(|(_, n)| *n != name)) {
            Some(g) => g.push((ident, name)),
            None => out.push(vec![(ident, name)]),
        }
    }
    out
}

impl Out {
    /// A struct with these fields, all of them alike; see `fields` in family.rs
    fn all_fields(&mut self, what: &str, attr: bool, head: &str, fields: &[(String, String)]) {
        let n = self.n;
        self.n += 1;
        if n % 4 != self.part {
            return;
        }
        let mut code = format!("pub mod m{n} {{ use super::*; #[derive(Clone, Debug, Default, PartialEq, FromXml, ToXml)] {head} pub struct S {{\n");
        let mut list = String::new();
        for (ident, name) in fields {
            let _ = writeln!(code, "{} pub {ident}: Option<u8>,", if attr { "#[xml(attribute)]" } else { "" });
            let _ = write!(list, "({ident:?}, {name:?}, |s, v| s.{ident} = v), ");
        }
        let _ = writeln!(self.code, "{code} }} }}");
        let _ = writeln!(self.calls, "    odd.push((\"m{n}: {what}\", || {{ use m{n}::*; fields::<S>({attr}, &[{list}]) }}));");
    }

    /// An enum with these variants; see `variants` in family.rs
    fn all_variants(&mut self, what: &str, head: &str, list: &[(String, String)]) {
        let n = self.n;
        self.n += 1;
        if n % 4 != self.part {
            return;
        }
        let names: String = list.iter().map(|(ident, _)| format!("{ident}, ")).collect();
        let pairs: String = list.iter().map(|(ident, name)| format!("({name:?}, E::{ident}), ")).collect();
        let _ = writeln!(
            self.code,
            "pub mod m{n} {{ use super::*; #[derive(Clone, Copy, Debug, PartialEq, FromXml, ToXml)] #[xml(scalar{head})] pub enum E {{ {names} }} }}"
        );
        let _ = writeln!(self.calls, "    odd.push((\"m{n}: {what}\", || {{ use m{n}::*; variants::<E>(&[{pairs}]) }}));");
    }
}

/// All identifiers of a few letters under every rule
fn letters(out: &mut Out, wide: bool) {
    let (n, m) = if wide { (4, 7) } else { (3, 5) };
    let mut idents = words(&['a', 's', '_', '2'], n);
    idents.extend(words(&['a', '_'], m));
    idents.extend(words(&['a', '_', '2'], n + 1));
    let common = "line_2b ipv4_addr sha256sum utf8_text v1_2_3 x2y3z a_1b2c iso_8601_date is_x86_64 \
        address_line_1 one_two_three_four_five_six x_y_z_ _id __type type__name longidentifierwithoutunderscores";
    idents.extend(common.split_whitespace().map(String::from));
    idents.retain(|i| !i.starts_with('2') && i.chars().any(|c| c != '_'));
    idents.sort();
    idents.dedup();
    let mut vars = words(&['A', 'B', 'a', '1'], n);
    vars.extend(words(&['A', 'a'], m));
    let common = "Utf8 Utf8Text IPv4 Sha256Sum HTTPServer2 XmlHttpRequest A1b2C3 V1Point2 Iso8601Date X86_64 \
        Snake_Case SHOUTING OneTwoThreeFourFiveSix Z _Lead Trail_ Two__Bars E2E";
    vars.extend(common.split_whitespace().map(String::from));
    vars.retain(|v| !v.starts_with('1'));
    vars.sort();
    vars.dedup();
    for rule in RULES {
        for attr in [true, false] {
            let list = idents.iter().filter_map(|i| {
                let name = rename_field(rule, i);
                let ident = if i == "as" { "r#as" } else { i };
                xml_name(&name).then(|| (ident.to_owned(), name))
            });
            for g in groups(list.collect(), 60) {
                out.all_fields(&format!("letters under {rule}"), attr, &container(rule), &g);
            }
        }
        let head = match rule {
            "" => String::new(),
            rule => format!(", rename_all = \"{rule}\""),
        };
        let list = vars.iter().map(|v| (v.clone(), rename_variant(rule, v)));
        for g in groups(list.collect(), 100) {
            out.all_variants(&format!("letters under {rule}"), &head, &g);
        }
    }
}

/// Types with many parts
fn big(out: &mut Out) {
    let same = |i: usize| (format!("f{i}"), format!("f{i}"));
    for n in [31, 33, 65, 130] {
        for attr in [true, false] {
            // More attributes than that are refused
            let n = if attr { n.min(64) } else { n };
            out.all_fields(&format!("{n} fields"), attr, "", &(0..n).map(same).collect::<Vec<_>>());
        }
    }
    for n in [33, 65, 300] {
        let list: Vec<_> = (0..n).map(|i| (format!("V{i}"), format!("V{i}"))).collect();
        out.all_variants(&format!("{n} variants"), "", &list);
    }
    let name = |i: usize| format!("K{i}");
    let kids: String = (0..40)
        .map(|i| format!("{DERIVE} #[xml(ns(\"urn:{}\"), rename = \"{}\")] pub struct {} {{ #[xml(attribute)] pub x: u8 }}\n", i % 2, name(i / 2), name(i)))
        .collect();
    let list: String = (0..40).map(|i| format!("V{i}({}), ", name(i))).collect();
    out.add("forward enum with 40 variants", &["S", "L"], &format!("{kids} {DERIVE} #[xml(forward)] pub enum F {{ {list} }} {DERIVE} pub struct S {{ pub f: F }} {DERIVE} pub struct L {{ pub f: Vec<F>, pub o: Option<u8> }}"));
    let list: String = (0..12).map(|i| format!("pub {}, ", name(i))).collect();
    out.add("tuple of 12", &["T"], &format!("{kids} {DERIVE} pub struct T({list});"));
    let list: String = (0..20).map(|i| format!("pub g{i}: Option<u8>, ")).collect();
    out.add("transparent of 20", &["S"], &format!("{DERIVE} #[xml(transparent)] pub struct X {{ {list} }} {DERIVE} pub struct S {{ pub before: Option<u8>, pub x: X, pub after: Option<u8> }}"));
    let list: String = (0..20).map(|i| format!("pub h{i}: Option<Kid{i}>, ")).collect();
    let kids: String = (0..20).map(|i| format!("{DERIVE} #[xml(ns(\"urn:{i}\"))] pub struct Kid{i} {{ pub x: Option<u8> }}\n")).collect();
    let prefixes: String = (0..20).map(|i| format!("p{i} = \"urn:{i}\", ")).collect();
    out.add("20 prefixes", &["S"], &format!("{kids} {DERIVE} #[xml(ns({}))] pub struct S {{ {list} }}", prefixes.trim_end_matches(", ")));
}

fn main() {
    println!("cargo:rerun-if-changed=../../build.rs");
    println!("cargo:rerun-if-changed=../../../mcore/src/names.rs");
    let wide = std::env::var_os("CARGO_FEATURE_WIDE").is_some();
    let name = std::env::var("CARGO_PKG_NAME").unwrap();
    let part = ["opts-a", "opts-b", "opts-c", "opts-d"].iter().position(|p| *p == name).unwrap();
    let mut out = Out { part, ..Out::default() };
    renames(&mut out, wide);
    literals(&mut out, wide);
    containers(&mut out);
    fields(&mut out);
    namespaces(&mut out, wide);
    letters(&mut out, wide);
    big(&mut out);
    let path = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("family.rs");
    let text = format!(
        "{}\npub fn cases(out: &mut Vec<Case>, odd: &mut Vec<(&'static str, fn() -> Result<(), String>)>) {{\n{}}}\n",
        out.code, out.calls
    );
    std::fs::write(path, text).unwrap();
}
