//! Comparison of the library with the reference models.

use instant_xml::Error;

use crate::engine::{hash, Cx};
use crate::model::{Case, Pos, Sc, Ty, Val};
use crate::refde::{self, No};
use crate::refser::{self, Start};
use crate::xml::{self, El, Kid};

pub fn show(r: &Result<Result<Val, Error>, String>) -> String {
    match r {
        Ok(Ok(v)) => format!("Ok({v:?})"),
        Ok(Err(e)) => format!("Err({e:?})"),
        Err(p) => p.clone(),
    }
}

/// Deserialize `doc`, and compare with what the reference says about it
pub fn de(cx: &mut Cx<'_>, case: &Case, doc: &str) {
    let want = refde::expect((case.ty)(), doc);
    de_want(cx, case, doc, &want)
}

pub fn de_want(cx: &mut Cx<'_>, case: &Case, doc: &str, want: &Result<Val, No>) {
    cx.count(hash(&(case.name, doc)));
    let got = cx.guard(case.name, doc, || (case.de)(doc));
    cx.validated += 1;
    let ok = match (want, &got) {
        (_, Err(_)) => false,
        (Ok(v), Ok(Ok(w))) => {
            cx.accepted += 1;
            v == w
        }
        (Err(No::Fail(_)), Ok(Err(_))) => {
            cx.rejected += 1;
            true
        }
        (Err(No::Open(_)), Ok(_)) => {
            cx.open += 1;
            true
        }
        _ => false,
    };
    cx.sample(|| format!("{}: {doc} -> {want:?}", case.name));
    if !ok {
        let want = match want {
            Ok(v) => format!("Ok({v:?})"),
            Err(No::Fail(why)) => format!("an error ({why})"),
            Err(No::Open(why)) => format!("Ok or Err ({why})"),
        };
        cx.violation("deserialize", &format!("{}: {doc}", case.name), &want, &show(&got));
    }
}

/// Values that cannot be told from another value once written
pub fn ambiguous(ty: &'static Ty, val: &Val) -> bool {
    match (ty, val) {
        (Ty::Scalar(Sc::F32 | Sc::F64), Val::S(s)) => s.contains("NaN"),
        (Ty::Option(t), Val::None) => nothing(t.get()),
        (Ty::Option(t), Val::Some(v)) => ambiguous(t.get(), v) || invisible(t.get(), v),
        (Ty::Box(t), v) => ambiguous(t.get(), v) || matches!(v, Val::None),
        // Items of several elements cannot be told apart
        (Ty::Vec(t), Val::List(vs)) => {
            !vs.is_empty() && spans(t.get()) || vs.iter().any(|v| ambiguous(t.get(), v))
        }
        (Ty::Struct(s), Val::Rec(vs)) => s.fields.iter().zip(vs).any(|(f, v)| {
            ambiguous(f.ty.get(), v)
                || f.pos == Pos::Direct && matches!(v, Val::Some(x) if **x == Val::S(String::new()))
        }),
        (Ty::Transparent(s), Val::Rec(vs)) => {
            s.fields.iter().zip(vs).any(|(f, v)| ambiguous(f.ty.get(), v))
        }
        (Ty::Tuple(t), Val::Rec(vs)) => {
            vs.iter().zip(&t.fields).any(|(v, f)| ambiguous(f.get(), v))
                || t.fields.iter().any(|f| matches!(f.get(), Ty::Option(_) | Ty::Vec(_)))
                    && (t.fields.len() > 1 || vs.iter().any(|v| *v == Val::List(vec![])))
        }
        (Ty::Forward(f), Val::Var(i, v)) => ambiguous(f.variants[*i].get(), v),
        _ => false,
    }
}

/// Can a value of this type be more than one element?
fn spans(ty: &'static Ty) -> bool {
    match ty {
        Ty::Box(t) | Ty::Option(t) => spans(t.get()),
        Ty::Transparent(t) => t.fields.len() > 1 || t.fields.iter().any(|f| spans(f.ty.get())),
        Ty::Vec(_) => true,
        _ => false,
    }
}

/// Can a value of this type be written as nothing at all?
fn nothing(ty: &'static Ty) -> bool {
    match ty {
        Ty::Option(_) | Ty::Vec(_) => true,
        Ty::Box(t) => nothing(t.get()),
        Ty::Transparent(t) => t.fields.iter().all(|f| nothing(f.ty.get())),
        _ => false,
    }
}

/// Is this value written as nothing at all?
fn invisible(ty: &'static Ty, val: &Val) -> bool {
    match (ty, val) {
        (Ty::Option(_), Val::None) => true,
        (Ty::Option(t), Val::Some(v)) => invisible(t.get(), v),
        (Ty::Vec(_), Val::List(vs)) => vs.is_empty(),
        (Ty::Box(t), v) => invisible(t.get(), v),
        (Ty::Transparent(t), Val::Rec(vs)) => {
            t.fields.iter().zip(vs).all(|(f, v)| invisible(f.ty.get(), v))
        }
        _ => false,
    }
}

fn written(cx: &mut Cx<'_>, case: &Case, val: &Val) -> Result<Result<String, Error>, ()> {
    let label = format!("{val:?}");
    cx.count(hash(&(case.name, val)));
    let got = cx.guard(case.name, &label, || (case.to_string)(val));
    cx.validated += 1;
    match got {
        Ok(r) => Ok(r),
        Err(p) => {
            cx.violation("serialize", &format!("{}: {val:?}", case.name), "no panic", &p);
            Err(())
        }
    }
}

/// Serialized text, if the value can be written; reports a wrong refusal
pub fn text_of(cx: &mut Cx<'_>, case: &Case, val: &Val) -> Option<String> {
    let want = refser::ser((case.ty)(), val);
    let got = written(cx, case, val).ok()?;
    match (want, got) {
        (Ok(_), Ok(xml)) => {
            cx.accepted += 1;
            Some(xml)
        }
        (Err(_), Err(_)) => {
            cx.rejected += 1;
            None
        }
        (want, got) => {
            cx.violation(
                "serialize",
                &format!("{}: {val:?}", case.name),
                &format!("{want:?}"),
                &format!("{got:?}"),
            );
            None
        }
    }
}

/// The output must be well-formed and denote the expected tree
pub fn ser(cx: &mut Cx<'_>, case: &Case, val: &Val) {
    let want = refser::ser((case.ty)(), val);
    let Ok(got) = written(cx, case, val) else { return };
    cx.sample(|| format!("{}: {val:?} -> {got:?}", case.name));
    let fail = |cx: &mut Cx<'_>, got: String| {
        cx.violation("serialize", &format!("{}: {val:?}", case.name), &format!("{want:?}"), &got)
    };
    match (&want, &got) {
        (Err(_), Err(_)) => cx.rejected += 1,
        (Ok(tree), Ok(out)) => {
            cx.accepted += 1;
            match xml::parse(out) {
                Err(why) => fail(cx, format!("not well-formed ({why}): {out}")),
                Ok(doc) => {
                    if !matches!(
                        doc.open,
                        None | Some("attribute whitespace normalization" | "line end normalization")
                    ) {
                        fail(cx, format!("not namespace-well-formed ({:?}): {out}", doc.open))
                    } else if doc.comments > 0 || !tree.same(&doc.root) {
                        fail(cx, out.clone())
                    }
                }
            }
        }
        _ => fail(cx, format!("{got:?}")),
    }
}

/// Reading back what was written gives the value
pub fn round_trip(cx: &mut Cx<'_>, case: &Case, val: &Val) {
    if ambiguous((case.ty)(), val) {
        return;
    }
    let Ok(Ok(out)) = written(cx, case, val) else { return };
    let got = cx.guard(case.name, &out, || (case.de)(&out));
    cx.sample(|| format!("{}: {val:?} -> {out} -> {}", case.name, show(&got)));
    match &got {
        Ok(Ok(v)) if v == val => cx.accepted += 1,
        _ => cx.violation(
            "round trip",
            &format!("{}: {val:?} written as {out}", case.name),
            "the same value",
            &show(&got),
        ),
    }
}

/// Start tags of a document in order
pub fn starts(el: &El<'_>, default: &str, out: &mut Vec<Start>) {
    // A declaration that repeats the default namespace in force says nothing
    let decls: Vec<(String, String)> = el
        .decls
        .iter()
        .filter(|(p, ns)| !(p.is_empty() && *ns == default))
        .map(|(p, ns)| (p.to_string(), ns.to_string()))
        .collect();
    let inner = decls
        .iter()
        .find(|(p, _)| p.is_empty())
        .map_or(default.to_owned(), |(_, ns)| ns.clone());
    let mut start = Start {
        prefix: (!el.prefix.is_empty()).then(|| el.prefix.to_owned()),
        local: el.local.to_owned(),
        decls,
        attrs: el.attrs.iter().map(|a| (a.prefix.to_owned(), a.local.to_owned())).collect(),
    };
    start.decls.sort();
    start.attrs.sort();
    out.push(start);
    for k in &el.kids {
        if let Kid::E(e) = k {
            starts(e, &inner, out);
        }
    }
}

/// Declarations and prefixes are those of the documented policy
pub fn policy(cx: &mut Cx<'_>, case: &Case, val: &Val) {
    let Ok(Ok(out)) = written(cx, case, val) else { return };
    let Ok(doc) = xml::parse(&out) else {
        return cx.violation("policy", &format!("{}: {val:?}", case.name), "well-formed output", &out);
    };
    cx.accepted += 1;
    let mut got = Vec::new();
    starts(&doc.root, "", &mut got);
    let want = refser::policy((case.ty)(), val);
    cx.sample(|| format!("{}: {out}", case.name));
    if got != want {
        cx.violation("policy", &format!("{}: {val:?}", case.name), &format!("{want:?}"), &out);
    }
}
