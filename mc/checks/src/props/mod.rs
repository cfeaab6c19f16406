//! One module per property; each decides it by exhaustive enumeration within its bounds.

pub mod common;
pub mod scale;
pub mod vocab;
pub mod values;
pub mod scoping;
pub mod text;
pub mod malformed;
pub mod robust;
pub mod fields;
pub mod inert;
pub mod limits;
pub mod holders;
pub mod fault;
pub mod capture;
pub mod borrow;
pub mod scalar;
pub mod forbidden;

pub fn run(run: &mcore::engine::Run) {
    match run.id.as_str() {
        "C01" => values::c01(run),
        "C02" => values::c02(run),
        "C03" => scoping::c03(run),
        "C04" => text::c04(run),
        "C05" => text::c05(run),
        "C06" => malformed::c06(run),
        "C07" => robust::c07(run),
        "C08" => fields::c08(run),
        "C09" => inert::c09(run),
        "C10" => limits::c10(run),
        "C11" => mcore::writer::c11(run),
        "C12" => mcore::cursor::c12(run),
        "C13" => fault::c13(run),
        "C14" => capture::c14(run),
        "C15" => borrow::c15(run),
        "C16" => scalar::c16(run),
        "C18" => forbidden::c18(run),
        "C19" => fields::c19(run),
        "C20" => values::c20(run),
        other => panic!("no check for {other}"),
    }
}
