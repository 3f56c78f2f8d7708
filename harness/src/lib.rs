pub mod api;
pub mod json;
pub mod lex;
pub mod look;
pub mod model;
pub mod spec;
pub mod sx;

pub type Entry = (&'static str, fn());
pub const TABLE: &'static [Entry] = &[
    ("h_lex", lex::h_lex),
    ("h_look", look::h_look),
    ("h_ctx", look::h_ctx),
    ("h_name", api::h_name),
    ("h_atoms", api::h_atoms),
    ("h_eq", api::h_eq),
    ("h_numsrc", api::h_numsrc),
    ("h_span", api::h_span),
    ("h_class", api::h_class),
    ("h_json", json::h_json),
];
