// The oak compiler, run on grammars whose text or tokens are symbolic (properties C12 to C16 and C18).
extern crate oaklib;
extern crate proc_macro2;
extern crate syn;
extern crate quote;
include!("../../common/symrt.rs");
mod reference;
mod common;
mod wf;
#[allow(dead_code)] mod names;
mod types;
mod notation;
mod rustc;
mod codegen;
#[allow(dead_code)] mod diagnostics;
include!("entries.rs");
