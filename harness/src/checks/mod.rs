//! The checks: for each property a runner of one case and an enumerator of the cases.
use crate::rt::{Rt, RunFn};

pub mod api;
pub mod builtin;
pub mod c01;
pub mod ctx;
pub mod errors;
pub mod history;
pub mod laws;
pub mod memory;
pub mod names;
pub mod panics;
pub mod repl;
pub mod text;
pub mod trees;
pub mod values;

pub struct Check {
    pub id: &'static str,
    pub run: RunFn,
    pub enumerate: fn(&mut Rt),
}

pub const ALL: &[Check] = &[
    Check { id: "C01", run: c01::run, enumerate: c01::enumerate },
    Check { id: "C02", run: text::run_c02, enumerate: text::enum_c02 },
    Check { id: "C03", run: text::run_c03, enumerate: text::enum_c03 },
    Check { id: "C04", run: text::run_c04, enumerate: text::enum_c04 },
    Check { id: "C05", run: trees::run_c05, enumerate: trees::enum_c05 },
    Check { id: "C06", run: trees::run_c06, enumerate: trees::enum_c06 },
    Check { id: "C07", run: trees::run_c07, enumerate: trees::enum_c07 },
    Check { id: "C08", run: api::run_c08, enumerate: api::enum_c08 },
    Check { id: "C09", run: api::run_c09, enumerate: api::enum_c09 },
    Check { id: "C10", run: api::run_c10, enumerate: api::enum_c10 },
    Check { id: "C11", run: ctx::run_c11, enumerate: ctx::enum_c11 },
    Check { id: "C12", run: ctx::run_c12, enumerate: ctx::enum_c12 },
    Check { id: "C13", run: builtin::run, enumerate: builtin::enumerate },
    Check { id: "C14", run: errors::run, enumerate: errors::enumerate },
    Check { id: "C15", run: trees::run_c15, enumerate: trees::enum_c15 },
    Check { id: "C16", run: panics::run, enumerate: panics::enumerate },
    Check { id: "C18", run: repl::run, enumerate: repl::enumerate },
    Check { id: "C19", run: history::run, enumerate: history::enumerate },
    Check { id: "C20", run: trees::run_c20, enumerate: trees::enum_c20 },
    Check { id: "C21", run: text::run_c21, enumerate: text::enum_c21 },
    Check { id: "C22", run: text::run_c22, enumerate: text::enum_c22 },
    Check { id: "C23", run: laws::run, enumerate: laws::enumerate },
    Check { id: "C24", run: memory::run, enumerate: memory::enumerate },
];
