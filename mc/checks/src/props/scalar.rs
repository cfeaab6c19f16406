//! C16: scalars, as values over their range and as texts over their lexical space, everywhere a
//! scalar can stand.

use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};

use chrono::{DateTime, Duration, NaiveDate, NaiveDateTime, NaiveTime, Utc};
use mcore::engine::{hash, Cx, Run};
use mcore::gen::{self, PLAIN};
use mcore::judge;
use mcore::model::{Case, EnumTy, Model, Pos, Sc, Ty, Val};
use mcore::refser::{OEl, OKid};

use super::common;
use crate::zoo::misc::{self, A1, E1};

/// What is at the bottom of a type
#[derive(Clone, Copy)]
enum Base {
    Sc(Sc),
    Enum(&'static EnumTy),
}

fn base(ty: &'static Ty) -> Base {
    match ty {
        Ty::Scalar(sc) => Base::Sc(*sc),
        Ty::Enum(e) => Base::Enum(e),
        Ty::Option(t) | Ty::Vec(t) | Ty::Box(t) => base(t.get()),
        _ => panic!("not a scalar"),
    }
}

fn listed(ty: &'static Ty) -> bool {
    match ty {
        Ty::Vec(_) => true,
        Ty::Option(t) | Ty::Box(t) => listed(t.get()),
        _ => false,
    }
}

/// A value of the type with this scalar in it
fn wrap(ty: &'static Ty, v: Val) -> Val {
    match ty {
        Ty::Option(t) => Val::Some(Box::new(wrap(t.get(), v))),
        Ty::Box(t) => wrap(t.get(), v),
        Ty::Vec(t) => {
            let v = wrap(t.get(), v);
            Val::List(vec![v.clone(), v])
        }
        _ => v,
    }
}

/// The type with its place for a scalar
struct Place {
    case: Case,
    base: Base,
    /// Document with `HOLE` where the text goes
    frame: String,
    make: fn(&'static Ty, Val) -> Val,
}

const HOLE: &str = "\u{E000}";

fn places() -> Vec<Place> {
    misc::scalar_cases()
        .into_iter()
        .map(|case| {
            let ty = (case.ty)();
            let (base, frame) = match ty {
                Ty::Struct(s) => {
                    let f = &s.fields[0];
                    let t = f.ty.get();
                    let mut root = OEl::new(s.tag.ns, s.tag.name);
                    match f.pos {
                        Pos::Attr => root.attrs.push((f.ns.into(), f.name.clone(), HOLE.into())),
                        Pos::Direct => root.text(HOLE),
                        Pos::Elem => {
                            let ns = match base(t) {
                                Base::Enum(e) => e.ns,
                                Base::Sc(_) => f.ns,
                            };
                            for _ in 0..1 + listed(t) as usize {
                                root.kids.push(OKid::E(gen::leaf(ns, &f.name, HOLE)));
                            }
                        }
                    }
                    (base(t), gen::print(&root, PLAIN))
                }
                Ty::Tuple(t) => {
                    let mut root = OEl::new(t.tag.ns, t.tag.name);
                    root.text(HOLE);
                    (base(t.fields[0].get()), gen::print(&root, PLAIN))
                }
                _ => panic!("not a place"),
            };
            let make = |ty: &'static Ty, v: Val| match ty {
                Ty::Struct(s) => {
                    let mut out = vec![wrap(s.fields[0].ty.get(), v)];
                    out.extend(s.fields[1..].iter().map(|_| Val::None));
                    Val::Rec(out)
                }
                Ty::Tuple(t) => Val::Rec(vec![wrap(t.fields[0].get(), v)]),
                _ => unreachable!(),
            };
            Place { case, base, frame, make }
        })
        .collect()
}

impl Place {
    fn doc(&self, text: &str) -> String {
        let mut esc = String::new();
        gen::esc(text, &mut esc);
        self.frame.replace(HOLE, &esc)
    }

    fn read(&self, cx: &mut Cx<'_>, text: &str) {
        judge::de(cx, &self.case, &self.doc(text));
    }

    fn write(&self, cx: &mut Cx<'_>, text: &str) {
        let v = match self.base {
            Base::Sc(_) => Val::S(text.to_owned()),
            Base::Enum(e) => Val::Enum(e.variants.iter().position(|v| v == text).unwrap()),
        };
        let v = (self.make)((self.case.ty)(), v);
        judge::ser(cx, &self.case, &v);
        judge::round_trip(cx, &self.case, &v);
    }
}

// Values

fn ints(min: i128, max: i128, all: bool) -> Vec<String> {
    let mut out: Vec<i128> = Vec::new();
    if all {
        out.extend(min..=max);
    } else {
        let mut near = |n: i128| {
            for d in -3..=3 {
                for n in [n.saturating_add(d), (-n).saturating_add(d)] {
                    if (min..=max).contains(&n) {
                        out.push(n);
                    }
                }
            }
        };
        near(0);
        near(min);
        near(max);
        for i in 0..64 {
            near(1 << i);
            near((1 << i) * 3);
        }
        let mut ten = 1i128;
        for _ in 0..20 {
            for k in 1..10 {
                near(ten * k);
            }
            ten *= 10;
        }
        near(12345678901234567890);
        near(9876543210);
    }
    out.sort();
    out.dedup();
    out.iter().map(|n| n.to_string()).collect()
}

fn floats32(quick: bool) -> Vec<String> {
    let mut out = Vec::new();
    for head in 0..512u32 {
        for m in 0..if quick { 48 } else { 512u32 } {
            for low in [0u32, 1, 2, 0x2AAA, 0x3FFF] {
                let mant = (m * if quick { 0x2AAAA / 16 } else { 0x4000 }) & 0x7F_C000 | low;
                out.push(f32::from_bits(head << 23 | mant));
            }
        }
    }
    for n in ints(-1 << 30, 1 << 30, false) {
        out.push(n.parse().unwrap());
        out.push(n.parse::<f32>().unwrap() / 1000.0);
        out.push(n.parse::<f32>().unwrap() * 1e20);
    }
    out.iter().map(|f| f.to_string()).collect()
}

fn floats64(quick: bool) -> Vec<String> {
    let mut out = Vec::new();
    for head in 0..4096u64 {
        for m in 0..if quick { 8 } else { 64u64 } {
            for low in [0, 1, 0xF_FFFF_FFFF] {
                let mant = m << if quick { 49 } else { 46 } | low;
                out.push(f64::from_bits(head << 52 | mant));
            }
        }
    }
    for n in ints(i64::MIN as i128, i64::MAX as i128, false) {
        out.push(n.parse().unwrap());
        out.push(n.parse::<f64>().unwrap() / 1000.0);
        out.push(n.parse::<f64>().unwrap() * 1e200);
    }
    out.iter().map(|f| f.to_string()).collect()
}

fn ips(quick: bool) -> Vec<String> {
    let mut out: Vec<IpAddr> = Vec::new();
    let bytes: &[u8] = if quick { &[0, 1, 9, 10, 127, 255] } else { &[0, 1, 9, 10, 99, 100, 127, 128, 192, 255] };
    for &a in bytes {
        for &b in bytes {
            for &c in bytes {
                for &d in bytes {
                    out.push(Ipv4Addr::new(a, b, c, d).into());
                }
            }
        }
    }
    let words: &[u16] = if quick { &[0, 0xffff, 0xa] } else { &[0, 0xffff, 0xa, 0x10] };
    let n = words.len();
    for code in 0..n.pow(8) {
        let mut c = code;
        let w: Vec<u16> = (0..8)
            .map(|_| {
                let w = words[c % n];
                c /= n;
                w
            })
            .collect();
        out.push(Ipv6Addr::new(w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7]).into());
    }
    out.iter().map(|i| i.to_string()).collect()
}

fn dates(quick: bool) -> Vec<NaiveDate> {
    let years: Vec<i32> = match quick {
        true => vec![0, 1, 4, 99, 100, 400, 999, 1000, 1582, 1900, 1970, 1999, 2000, 2023, 2024, 9999],
        false => (0..10000).collect(),
    };
    let mut out = Vec::new();
    for y in years {
        let first = NaiveDate::from_ymd_opt(y, 1, 1).unwrap();
        let mut d = first;
        while d.format("%Y").to_string() == first.format("%Y").to_string() {
            out.push(d);
            match d.succ_opt() {
                Some(next) => d = next,
                None => break,
            }
        }
    }
    out
}

fn times(quick: bool) -> Vec<NaiveTime> {
    let mut out = Vec::new();
    let nanos = [0, 1, 10, 100, 999, 1_000, 1_500, 999_999, 1_000_000, 10_000_000, 120_000_000, 123_456_789, 500_000_000, 999_999_999, 999_999_000, 999_000_000];
    for h in 0..24 {
        for m in [0, 1, 9, 10, 30, 59] {
            for s in [0, 1, 9, 10, 59] {
                for n in nanos {
                    out.push(NaiveTime::from_hms_nano_opt(h, m, s, n).unwrap());
                }
            }
        }
    }
    if quick {
        // Every hour with some of the rest
        out = out.into_iter().step_by(7).collect();
    }
    out
}

fn date_times(quick: bool) -> Vec<NaiveDateTime> {
    let days = dates(true);
    let mut out = Vec::new();
    for t in times(quick) {
        for d in [days[0], days[59], days[days.len() - 1], days[days.len() / 2]] {
            out.push(d.and_time(t));
        }
    }
    for d in days {
        out.push(d.and_hms_opt(0, 0, 0).unwrap());
        out.push(d.and_hms_opt(23, 59, 59).unwrap() + Duration::milliseconds(999));
    }
    out
}

fn chars(quick: bool) -> Vec<String> {
    let _ = quick;
    (0..=0x10FFFF).filter_map(char::from_u32).map(|c| c.to_string()).collect()
}

fn values(b: Base, quick: bool) -> Vec<String> {
    let sc = match b {
        Base::Enum(e) => return e.variants.clone(),
        Base::Sc(sc) => sc,
    };
    match sc {
        Sc::Str => {
            let mut out = Vec::new();
            common::strings(&["a", " ", "é", "\n", "&", "<", "1", "true", "\"", "😀"], if quick { 3 } else { 4 }, &mut |s| {
                if !s.contains('\n') {
                    out.push(s.to_owned())
                }
            });
            out
        }
        Sc::Bool => vec!["true".into(), "false".into()],
        Sc::Char => Vec::new(),
        Sc::I8 => ints(i8::MIN as _, i8::MAX as _, true),
        Sc::U8 => ints(u8::MIN as _, u8::MAX as _, true),
        Sc::I16 => ints(i16::MIN as _, i16::MAX as _, !quick),
        Sc::U16 => ints(u16::MIN as _, u16::MAX as _, !quick),
        Sc::I32 => ints(i32::MIN as _, i32::MAX as _, false),
        Sc::U32 => ints(u32::MIN as _, u32::MAX as _, false),
        Sc::I64 => ints(i64::MIN as _, i64::MAX as _, false),
        Sc::U64 => ints(u64::MIN as _, u64::MAX as _, false),
        Sc::Isize => ints(isize::MIN as _, isize::MAX as _, false),
        Sc::Usize => ints(usize::MIN as _, usize::MAX as _, false),
        Sc::F32 => floats32(quick),
        Sc::F64 => floats64(quick),
        Sc::Ip => ips(quick),
        Sc::NaiveDate => dates(quick).iter().map(Model::to_val).map(text).collect(),
        Sc::NaiveDateTime => date_times(quick).iter().map(Model::to_val).map(text).collect(),
        Sc::DateTime => date_times(quick)
            .into_iter()
            .map(|d| DateTime::<Utc>::from_naive_utc_and_offset(d, Utc).to_val())
            .map(text)
            .collect(),
    }
}

fn text(v: Val) -> String {
    match v {
        Val::S(s) => s,
        _ => unreachable!(),
    }
}

// Texts

/// Every string over an alphabet, up to a length
fn over(alphabet: &[&str], max: usize) -> Vec<String> {
    let mut out = Vec::new();
    common::strings(alphabet, max, &mut |s| out.push(s.to_owned()));
    out
}

/// Every text with up to `n` slots that differ from the first choice
fn slots(slots: &[&[&str]], n: usize) -> Vec<String> {
    fn go(slots: &[&[&str]], left: usize, buf: &mut String, out: &mut Vec<String>) {
        let Some((first, rest)) = slots.split_first() else {
            out.push(buf.clone());
            return;
        };
        for (i, s) in first.iter().enumerate() {
            if i > 0 && left == 0 {
                break;
            }
            let len = buf.len();
            buf.push_str(s);
            go(rest, left - (i > 0) as usize, buf, out);
            buf.truncate(len);
        }
    }
    let mut out = Vec::new();
    go(slots, n, &mut String::new(), &mut out);
    out
}

const YEAR: &[&str] = &["2024", "", "0", "0000", "999", "9999", "10000", "-001", "+2024", "02024", "24", " 2024", "2023"];
const SEP: &[&str] = &["-", "", "/", ":", "--", " -", "- ", "."];
const MONTH: &[&str] = &["02", "", "00", "1", "12", "13", "2", "002", " 2", "+2", "Feb"];
const DAY: &[&str] = &["28", "", "00", "1", "29", "30", "31", "32", "028", " 1", "+1", "1 "];
const TEE: &[&str] = &["T", "", "t", " ", "TT", "T ", " T", "_"];
const HOUR: &[&str] = &["23", "", "00", "24", "25", "7", "023", " 7", "-1", "+1"];
const COLON: &[&str] = &[":", "", ".", "-", "::", " :", ": "];
const MINUTE: &[&str] = &["59", "", "00", "60", "61", "7", "059", " 7", "-1"];
const SECOND: &[&str] = &["58", "", "00", "60", "61", "7", "058", " 7", "-1"];
const FRAC: &[&str] = &["", ".", ".0", ".1", ".123456789", ".1234567890", ",5", ".5s", ".-1", ". 5", ".999999999", " "];
const ZONE: &[&str] = &[
    "Z", "", "z", "+00:00", "-00:00", "+01:00", "-01:00", "+00:01", "+0000", "+00", "+24:00", "+00:60", "UTC", " Z", "Z ", "ZZ", "+23:59", "−00:00", "+0:00",
];
const FORE: &[&str] = &["", " ", "\n", "x", "0", "-", "é"];
const AFT: &[&str] = &["", " ", "\n", "x", "0", "Z", "é"];

fn texts(b: Base, quick: bool) -> Vec<String> {
    let n = if quick { 3 } else { 4 };
    let sc = match b {
        Base::Enum(e) => {
            let mut out = vec![String::new(), "x".into()];
            for v in &e.variants {
                for (i, _) in v.char_indices() {
                    out.push(v[..i].to_owned());
                    out.push(v[i..].to_owned());
                }
                for w in &e.variants {
                    out.push(format!("{v}{w}"));
                }
                for s in [" ", "\n", "\t", "\u{a0}", "x", "0"] {
                    out.push(format!("{v}{s}"));
                    out.push(format!("{s}{v}"));
                }
                out.extend([v.to_uppercase(), v.to_lowercase(), v.clone()]);
            }
            return out;
        }
        Base::Sc(sc) => sc,
    };
    match sc {
        Sc::Str => over(&["a", " ", "\n", "&", "<", "1"], 3),
        Sc::Bool => {
            let mut out = over(&["true", "false", "1", "0", " ", "\n", "+", "-", "t", "é"], n + 1);
            for w in ["true", "false", "yes", "no", "on", "off", "null"] {
                for i in 0..=w.len() {
                    out.push(w[..i].to_owned());
                    out.push(w[i..].to_owned());
                }
                // Every choice of capitals
                for mask in 0..1u32 << w.len() {
                    out.push(
                        w.chars()
                            .enumerate()
                            .map(|(i, c)| if mask >> i & 1 == 1 { c.to_ascii_uppercase() } else { c })
                            .collect(),
                    );
                }
            }
            out
        }
        Sc::Char => over(&["a", " ", "é", "😀", "\n", "&", "e\u{301}", "\u{301}", "\t"], n + 1),
        Sc::F32 | Sc::F64 => {
            let mut out = over(&["1", "0", ".", "-", "+", "e", "E", "9", " ", "_"], n + 1);
            out.extend(slots(
                &[&["", " ", "\n\t", "\u{a0}", "x"], &["", "-", "+", "--"], &["inf", "NaN", "nan", "infinity", "INF", "Infinity", "1", "340282350", "1.7976931348623157", "0x1", "1,5", "٣"], &["", "e38", "e39", "e308", "e309", "e-45", "e-46", "e-400", "f"], &["", " ", "\n", "\u{3000}", "x"]],
                5,
            ));
            out
        }
        Sc::Ip => {
            let mut out = over(&["1", ":", "::", ".", "256", "0", "f"], n + 2);
            out.extend(slots(
                &[FORE, &["1", "255", "256", "01", "001", "", "-1", "0x1", "1e1"], &[".", "", ",", ":"], &["0", "00", "300", ""], &[".", "..", ":"], &["0", "", "a"], &["."], &["9", "99", "999", ""], &["", "/8", ":80", ".1", "%1"], AFT],
                n,
            ));
            out.extend(slots(
                &[&["", "[", " "], &["1", "::", "ffff", "fffff", "g", ""], &[":", "::", "."], &["0", "", "00000"], &[":2:3:4:5:6", ":2:3:4:5", "", ":2:3:4:5:6:7"], &[":7", "::7", ":1.2.3.4", "", "::"], &["", "%eth0", "]", "/64", " "]],
                n + 1,
            ));
            out
        }
        Sc::NaiveDate => slots(&[FORE, YEAR, SEP, MONTH, SEP, DAY, AFT], n + 1),
        Sc::NaiveDateTime => slots(&[FORE, YEAR, SEP, MONTH, SEP, DAY, TEE, HOUR, COLON, MINUTE, COLON, SECOND, FRAC, AFT], n),
        Sc::DateTime => slots(&[FORE, YEAR, SEP, MONTH, SEP, DAY, TEE, HOUR, COLON, MINUTE, COLON, SECOND, FRAC, ZONE, AFT], n),
        _ => {
            let mut out = over(&["1", "0", "-", "+", " ", "9", ".", "_", "\n", "x"], n + 1);
            for (min, max) in [
                (i8::MIN as i128, i8::MAX as i128),
                (i16::MIN as i128, i16::MAX as i128),
                (i32::MIN as i128, i32::MAX as i128),
                (i64::MIN as i128, i64::MAX as i128),
                (0, u8::MAX as i128),
                (0, u16::MAX as i128),
                (0, u32::MAX as i128),
                (0, u64::MAX as i128),
                (i128::MIN + 4, i128::MAX - 4),
            ] {
                for d in -3..=3 {
                    for n in [min + d, max + d] {
                        for form in ["", "+", "0", "000000000000000000000", " ", "\u{2003}", "\n", "\u{b}"] {
                            let digits = n.unsigned_abs();
                            let sign = if n < 0 { "-" } else { "" };
                            out.push(format!("{sign}{form}{digits}"));
                            out.push(format!("{form}{sign}{digits}"));
                            out.push(format!("{sign}{digits}{form}"));
                            out.push(format!("{form}{sign}{digits}{form}"));
                        }
                    }
                }
            }
            out.extend(["1e3", "0x10", "0b1", "0o7", "1u8", "٣", "１", "½", "1,000", "1 000", "--1", "+-1", "true"].map(String::from));
            out
        }
    }
}

/// `m` times two to the `e`, all digits of it
fn exact(m: u64, e: i32) -> String {
    let mut digits: Vec<u8> = m.to_string().bytes().rev().map(|b| b - b'0').collect();
    let factor = if e < 0 { 5 } else { 2 };
    for _ in 0..e.unsigned_abs() {
        let mut carry = 0;
        for d in digits.iter_mut() {
            let n = *d * factor + carry;
            *d = n % 10;
            carry = n / 10;
        }
        if carry > 0 {
            digits.push(carry);
        }
    }
    let point = if e < 0 { -e as usize } else { 0 };
    while digits.len() <= point {
        digits.push(0);
    }
    let mut out: String = digits.iter().rev().map(|d| (d + b'0') as char).collect();
    if point > 0 {
        out.insert(out.len() - point, '.');
    }
    out
}

/// The exact text, and those just above and below it
fn around(text: &str, out: &mut Vec<String>) {
    let dot = if text.contains('.') { "" } else { "." };
    out.push(text.to_owned());
    out.push(format!("-{text}"));
    for tail in ["0", "1", "0000000000000000000000001"] {
        out.push(format!("{text}{dot}{tail}"));
    }
    // The last digit that is not zero, one less
    if let Some(at) = text.rfind(|c: char| ('1'..='9').contains(&c)) {
        let less = (text.as_bytes()[at] - 1) as char;
        let rest: String = text[at + 1..].chars().map(|c| if c == '0' { '9' } else { c }).collect();
        for tail in ["9", "9999999999999999999999999"] {
            out.push(format!("{}{less}{rest}{dot}{tail}", &text[..at]));
        }
    }
}

/// Texts halfway between two floats, and next to that
fn halfway(double: bool, quick: bool) -> Vec<String> {
    let mut out = Vec::new();
    // Bits of the mantissa, smallest and largest exponent of its last bit
    let (bits, low, high) = if double { (52, -1074, 971) } else { (23, -149, 104) };
    let one = 1u64 << bits;
    let step = match (double, quick) {
        (true, true) => 41,
        (true, false) => 9,
        (false, true) => 3,
        (false, false) => 1,
    };
    let mut exps: Vec<i32> = (low..=high).step_by(step).collect();
    // Around one and the whole numbers too big for all their digits
    exps.extend([high, -bits - 1, -bits, 1 - bits, -1, 0, 1, 2, 3, 10, 11]);
    for e in exps {
        for m in [one, one + 1, one | 0x1234_5678_9abc & (one - 1), 2 * one - 2, 2 * one - 1] {
            around(&exact(2 * m + 1, e - 1), &mut out);
        }
    }
    // The smallest ones
    for m in [0, 1, 2, 3, one / 2, one - 2, one - 1] {
        around(&exact(2 * m + 1, low - 1), &mut out);
    }
    out
}

/// The text with each of these characters in each place, added and instead of what is there
fn with_chars(text: &str, out: &mut Vec<String>) {
    let ends: Vec<usize> = text.char_indices().map(|(i, _)| i).chain([text.len()]).collect();
    for c in ["é", "€", "😀", "\u{301}", "\u{feff}", "\u{7f}", "\u{85}", "\u{200b}", "٣", "\u{ff10}"] {
        for (k, &i) in ends.iter().enumerate() {
            out.push(format!("{}{c}{}", &text[..i], &text[i..]));
            if let Some(&j) = ends.get(k + 1) {
                out.push(format!("{}{c}{}", &text[..i], &text[j..]));
            }
        }
    }
}

/// Texts with characters of several bytes anywhere
fn foreign(b: Base) -> Vec<String> {
    let mut seeds: Vec<String> = match b {
        Base::Enum(e) => e.variants.clone(),
        Base::Sc(Sc::Char) => vec!["a".into(), String::new()],
        Base::Sc(Sc::Bool) => ["true", "false", "1", "0", " true ", "truefalse"].map(String::from).to_vec(),
        Base::Sc(_) => {
            let all = values(b, true);
            let mut longest = all.iter().max_by_key(|s| s.len()).cloned().unwrap_or_default();
            longest.truncate(60);
            let step = (all.len() / 7).max(1);
            all.into_iter().step_by(step).filter(|s| s.len() < 60).chain([longest]).collect()
        }
    };
    seeds.push("abcdefghijklmnopqrstuvwxyz".into());
    let mut out = Vec::new();
    for s in &seeds {
        with_chars(s, &mut out);
    }
    // Every shift of a run
    for c in ["é", "€", "😀"] {
        for lead in ["", "t", "1", "-1", "127", "2024", "false", "2024-0", "2024-02", "2024-02-03T04:05:06", "1234567890123456789012345"] {
            for n in 1..=16 {
                out.push(format!("{lead}{}", c.repeat(n)));
                out.push(format!("{}{lead}", c.repeat(n)));
            }
        }
    }
    out
}

/// The same for C07
pub fn foreign_texts(run: &Run, check: &(dyn Fn(&mut Cx<'_>, &Case, &str) + Sync)) {
    let places = places();
    run.par("scalars with characters of several bytes", &places, |cx, place| {
        for t in foreign(place.base) {
            check(cx, &place.case, &place.doc(&t));
        }
    });
}

/// Texts of all lengths up to `long` bytes, of characters that begin at all alignments, for every
/// scalar
pub fn long_texts(run: &Run, long: usize, check: &(dyn Fn(&mut Cx<'_>, &Case, &str) + Sync)) {
    let places = places();
    run.par("scalars of all lengths and alignments", &places, |cx, place| {
        let mut text = String::new();
        for c in ['a', '7', 'é', '€', '\u{10000}'] {
            for before in ["", "a", "ab", "abc"] {
                for n in 0..=long / c.len_utf8() + 1 {
                    if cx.run.stopped() {
                        return;
                    }
                    text.clear();
                    text.push_str(before);
                    text.extend(std::iter::repeat_n(c, n));
                    check(cx, &place.case, &place.doc(&text));
                }
            }
        }
    });
}

pub fn c16(run: &Run) {
    super::scale::numbers(run);
    let places = places();
    let quick = run.quick();
    // (place, part of its values)
    let parts = 8;
    let work: Vec<(usize, usize)> = (0..places.len()).flat_map(|p| (0..parts).map(move |i| (p, i))).collect();
    run.par("values", &work, |cx, &(p, i)| {
        let place = &places[p];
        for v in values(place.base, quick).iter().skip(i).step_by(parts) {
            if cx.run.stopped() {
                return;
            }
            place.write(cx, v);
        }
    });
    run.par("texts", &work, |cx, &(p, i)| {
        let place = &places[p];
        for t in texts(place.base, quick).iter().skip(i).step_by(parts) {
            if cx.run.stopped() {
                return;
            }
            place.read(cx, t);
        }
    });
    foreign_texts(run, &judge::de);
    let halves = [halfway(false, quick), halfway(true, quick)];
    run.par("texts halfway between floats", &work, |cx, &(p, i)| {
        let place = &places[p];
        if !matches!(place.base, Base::Sc(Sc::F32 | Sc::F64)) {
            return;
        }
        for all in &halves {
            for t in all.iter().skip(i).step_by(parts) {
                if cx.run.stopped() {
                    return;
                }
                place.read(cx, t);
            }
        }
    });
    // Every character, in each position in turn
    let with_char: Vec<&Place> = places.iter().filter(|p| matches!(p.base, Base::Sc(Sc::Char))).collect();
    let all = chars(quick);
    let blocks: Vec<usize> = (0..64).collect();
    run.par("every character", &blocks, |cx, &b| {
        for (i, c) in all.iter().enumerate().skip(b).step_by(64) {
            if cx.run.stopped() {
                return;
            }
            for (k, p) in with_char.iter().enumerate() {
                // Line ends and tabs are recorded elsewhere as not read back by other parsers
                if (!quick || i % with_char.len() == k || i < 0x3000) && !matches!(c.as_str(), "\t" | "\n" | "\r") {
                    p.write(cx, c);
                }
            }
        }
    });
    // All bit patterns of f32 with a step, directly
    let heads: Vec<u32> = (0..1024).collect();
    let step: u32 = run.pick(4093, 29);
    run.par("single precision", &heads, |cx, &h| {
        let mut at = h << 22;
        let end = at + ((1 << 22) - 1);
        loop {
            float(cx, f32::from_bits(at));
            match at.checked_add(step) {
                Some(n) if n <= end && !cx.run.stopped() => at = n,
                _ => break,
            }
        }
    });
}

fn float(cx: &mut Cx<'_>, f: f32) {
    if f.is_nan() {
        return;
    }
    cx.count(hash(&f.to_bits()));
    let got = cx.guard("f32", "", || {
        let a = instant_xml::to_string(&E1 { v: f }).ok()?;
        let b = instant_xml::to_string(&A1 { v: f }).ok()?;
        let x: E1<f32> = instant_xml::from_str(&a).ok()?;
        let y: A1<f32> = instant_xml::from_str(&b).ok()?;
        Some((x.v.to_bits(), y.v.to_bits()))
    });
    cx.validated += 1;
    match got {
        Ok(Some((x, y))) if x == f.to_bits() && y == x => cx.accepted += 1,
        other => cx.violation("f32", &format!("{f:?} {:08x}", f.to_bits()), "the same bits", &format!("{other:?}")),
    }
}
