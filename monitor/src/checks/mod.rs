//! The properties' checks.
pub mod addr;
pub mod combs;
pub mod common;
pub mod aio;
pub mod algebra;
pub mod dec;
pub mod enc;
pub mod entry;
pub mod huge;
pub mod io;
pub mod leaf;
pub mod len;
pub mod probes;
pub mod mono;
pub mod fault;
pub mod passthru;
pub mod num;
pub mod protocol;
pub mod seqs;
pub mod slices;
pub mod ub;
use crate::run::Prop;

pub fn all() -> Vec<Prop> {
    vec![
        dec::c01(), enc::c02(), enc::c03(), dec::c05(), enc::c07(), dec::c08(), enc::c12(), dec::c16(),
        combs::c17(), combs::c18(), dec::c21(), dec::c28(), slices::c11(), slices::c24(), num::c04(), entry::c06(), entry::c25(), io::c13(), io::c14(), aio::c15(), len::c09(), len::c10(), algebra::c22(), leaf::c26(), mono::c19(), passthru::c23(), fault::c20(), protocol::c29(), ub::c27(),
    ]
}
pub fn ub_main(a: &[String]) -> i32 {
    ub::main(a)
}
