#[path = "../../harness/src/lex.rs"]
pub mod lex;
#[path = "../../harness/src/model.rs"]
pub mod model;
#[path = "../../harness/src/spec.rs"]
pub mod spec;
#[path = "../../harness/src/sx.rs"]
pub mod sx;
pub mod ast;
pub mod est;
pub mod ops;
pub mod par;
pub mod refp;

pub type Entry = (&'static str, fn());
pub const TABLE: &'static [Entry] = &[("h_par", par::h_par), ("h_est", est::h_est), ("h_mal", est::h_mal), ("h_ops", ops::h_ops), ("h_prec", ops::h_prec)];
