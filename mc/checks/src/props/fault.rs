//! C13: a writer that fails at every possible point.

use std::fmt::{self, Write};

use instant_xml::{Error, ToXml};
use mcore::case;
use mcore::engine::{hash, Cx, Run};
use mcore::gen::{self, Rich};
use mcore::model::{Case, Model as _, Val};

use super::common;
use crate::zoo::{misc, ns};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Fail {
    Never,
    /// The call with this number fails, later ones do not
    Once(usize),
    /// This call and all later ones fail
    From(usize),
    /// Room for this many bytes; what fits is taken
    Bytes(usize),
    /// Room for this many bytes; a piece that does not fit is not taken at all
    Whole(usize),
}

/// Only `write_str`, like `String` seen through `dyn Write`
struct Plain {
    fail: Fail,
    out: String,
    calls: usize,
    failed: bool,
    after: usize,
}

impl Plain {
    fn new(fail: Fail) -> Self {
        Self { fail, out: String::new(), calls: 0, failed: false, after: 0 }
    }

    fn put(&mut self, s: &str) -> fmt::Result {
        let n = self.calls;
        self.calls += 1;
        if self.failed {
            self.after += 1;
        }
        let ok = match self.fail {
            Fail::Never => true,
            Fail::Once(k) => n != k,
            Fail::From(k) => n < k,
            Fail::Bytes(b) => {
                let room = b - self.out.len().min(b);
                if s.len() > room {
                    let mut cut = room;
                    while !s.is_char_boundary(cut) {
                        cut -= 1;
                    }
                    self.out.push_str(&s[..cut]);
                }
                s.len() <= room
            }
            Fail::Whole(b) => self.out.len() + s.len() <= b && !self.failed,
        };
        match ok {
            true => {
                self.out.push_str(s);
                Ok(())
            }
            false => {
                self.failed = true;
                Err(fmt::Error)
            }
        }
    }
}

impl Write for Plain {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.put(s)
    }
}

/// All three methods its own, each a single call
struct Full(Plain);

impl Write for Full {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.put(s)
    }

    fn write_char(&mut self, c: char) -> fmt::Result {
        self.0.put(c.encode_utf8(&mut [0; 4]))
    }

    fn write_fmt(&mut self, args: fmt::Arguments<'_>) -> fmt::Result {
        let mut s = String::new();
        fmt::write(&mut s, args)?;
        self.0.put(&s)
    }
}

fn check(cx: &mut Cx<'_>, case: &Case, val: &Val, bytes: bool) {
    let label = || format!("{}: {val:?}", case.name);
    cx.count(hash(&(case.name, val)));
    let (Ok(first), Ok(second)) = (
        cx.guard(case.name, "to_string", || (case.to_string)(val)),
        cx.guard(case.name, "to_string", || (case.to_string)(val)),
    ) else {
        return cx.violation("writer", &label(), "no panic", "panic");
    };
    if first != second {
        return cx.violation("twice", &label(), &format!("{first:?}"), &format!("{second:?}"));
    }
    // Runs with one writer; `true` for `Full`
    let run = |cx: &mut Cx<'_>, fail: Fail, full: bool| -> Option<(Result<(), Error>, Plain)> {
        let r = cx.guard(case.name, "to_writer", || match full {
            false => {
                let mut w = Plain::new(fail);
                ((case.ser)(val, &mut w), w)
            }
            true => {
                let mut w = Full(Plain::new(fail));
                ((case.ser)(val, &mut w), w.0)
            }
        });
        cx.transitions += 1;
        match r {
            Ok(r) => Some(r),
            Err(p) => {
                cx.violation("writer", &label(), "no panic", &p);
                None
            }
        }
    };
    for full in [false, true] {
        let Some((r, w)) = run(cx, Fail::Never, full) else { return };
        match (&first, &r) {
            (Ok(xml), Ok(())) if *xml == w.out => cx.accepted += 1,
            (Err(a), Err(b)) if a == b => cx.rejected += 1,
            _ => return cx.violation("kinds of writers", &label(), &format!("{first:?}"), &format!("{r:?} {}", w.out)),
        }
        // What a run without failures writes, also if the value is refused
        let (whole, calls) = (w.out, w.calls);
        let mut fails = Vec::new();
        for k in 0..calls {
            fails.push(Fail::Once(k));
            fails.push(Fail::From(k));
        }
        if bytes && (whole.len() < 160 || !cx.run.quick()) {
            for b in 0..whole.len() {
                if whole.is_char_boundary(b) {
                    fails.push(Fail::Bytes(b));
                    fails.push(Fail::Whole(b));
                }
            }
        }
        for fail in fails {
            let Some((r, w)) = run(cx, fail, full) else { return };
            cx.count(hash(&(case.name, val, full, fail)));
            let room = match fail {
                Fail::Bytes(b) => w.out.len() == b,
                _ => true,
            };
            let good = matches!(r, Err(Error::Format(_)))
                && w.failed
                && w.after == 0
                && whole.starts_with(&w.out)
                && w.out.len() < whole.len()
                && room;
            cx.sample(|| format!("{} with {fail:?}: {r:?} after {:?}", label(), w.out));
            if !good && !(whole == w.out && matches!(r, Err(Error::Format(_))) && w.after == 0) {
                return cx.violation(
                    "failing writer",
                    &format!("{} with {fail:?}", label()),
                    &format!("a formatting error and the beginning of {whole}"),
                    &format!("{r:?}, {} calls after the failure, wrote {}", w.after, w.out),
                );
            }
        }
    }
}

/// Writes its fields through `display_to_xml`
#[derive(Clone)]
struct Shown(String);

impl fmt::Display for Shown {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for c in self.0.chars() {
            f.write_char(c)?;
        }
        f.write_str("<end>")
    }
}

impl ToXml for Shown {
    fn serialize<W: Write + ?Sized>(
        &self,
        field: Option<instant_xml::Id<'_>>,
        serializer: &mut instant_xml::Serializer<'_, W>,
    ) -> Result<(), Error> {
        instant_xml::display_to_xml(self, field, serializer)
    }
}

#[derive(ToXml)]
struct ShownBoth<'a> {
    #[xml(attribute)]
    a: Shown,
    b: Vec<Shown>,
    c: &'a Option<Box<Shown>>,
    #[xml(serialize_with = "custom")]
    d: u8,
}

fn custom<W: Write + ?Sized>(
    value: &u8,
    serializer: &mut instant_xml::Serializer<'_, W>,
) -> Result<(), Error> {
    serializer.write_str("n")?;
    serializer.write_str(value)
}

fn shown(v: &Val, f: &mut dyn FnMut(&ShownBoth<'_>) -> Result<(), Error>) -> Result<(), Error> {
    let Val::S(s) = v else { unreachable!() };
    let c = (s.len() % 2 == 0).then(|| Box::new(Shown(s.clone())));
    f(&ShownBoth { a: Shown(s.clone()), b: vec![Shown(s.clone()); s.len() % 3], c: &c, d: s.len() as u8 })
}

const SHOWN: Case = Case {
    name: "ShownBoth",
    ty: <String as mcore::model::Model>::ty,
    de: |_| unreachable!(),
    ser: |v, w| shown(v, &mut |x| instant_xml::to_writer(x, w)),
    to_string: |v| {
        let mut out = String::new();
        shown(v, &mut |x| instant_xml::to_writer(x, &mut out))?;
        Ok(out)
    },
};

pub fn c13(run: &Run) {
    let rich = run.pick(Rich { scalars: 3, depth: 2, cap: 120, inner: 5, list: 3 }, common::wide_rich());
    let cases = common::cases();
    run.par("all types", &cases, |cx, case| {
        for v in gen::values((case.ty)(), rich) {
            check(cx, case, &v, true);
            if cx.run.stopped() {
                return;
            }
        }
    });
    let node = ns::case();
    let roots: Vec<usize> = (0..ns::count()).collect();
    run.par("container trees", &roots, |cx, &r| {
        let mut visit = |v: Val| {
            if !cx.run.stopped() {
                check(cx, &node, &v, !run.quick());
            }
        };
        ns::small(r, &mut visit);
        if !run.quick() {
            ns::three(r, true, &mut visit);
        }
    });
    // Strings in pieces, and strings that are refused half way
    let strs = [
        case!(misc::E1<String>),
        case!(misc::A1<String>),
        case!(misc::D1<String>),
        case!(misc::E1<Vec<String>>),
        case!(misc::E1<Option<Box<String>>>),
    ];
    let pieces = ["a", "é", "<", "&", "\"", "'", ">", "\u{1}", "]]>"];
    let heads = common::heads(&pieces);
    run.par("strings", &heads, |cx, head| {
        common::from_head(&pieces, head, run.pick(4, 5), &mut |s| {
            for case in &strs {
                let s = Val::S(s.to_owned());
                let v = match case.name {
                    n if n.contains("Vec") => Val::List(vec![s.clone(), s]),
                    n if n.contains("Option") => Val::Some(Box::new(s)),
                    _ => s,
                };
                check(cx, case, &Val::Rec(vec![v]), true);
            }
            check(cx, &SHOWN, &Val::S(s.to_owned()), true);
        });
    });
    let _ = String::ty;
}
