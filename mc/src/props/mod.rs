//! One function per property; each explores its spaces completely.

use crate::engine::Ctx;

mod api;
mod colours;
mod compare;
mod defaults;
mod edits;
mod equality;
mod events;
mod faults;
mod files;
mod history;
mod hits;
mod kv;
mod lines;
mod malformed;
mod numbers;
mod parts;
mod timing;
mod text;
mod tokens;
pub use history::child as history;
pub use tokens::nest;

pub type Entry = (&'static str, fn(&mut Ctx), &'static [&'static str]);

pub const ALL: &[Entry] = &[
    ("C01", tokens::c01, &[]),
    ("C02", tokens::c02, &[]),
    ("C03", files::c03, &[]),
    ("C04", lines::c04, &[]),
    ("C05", files::c05, &[]),
    ("C06", kv::c06, &[]),
    ("C07", kv::c07, &[]),
    ("C08", numbers::c08, &[]),
    ("C09", hits::c09, &[]),
    ("C10", hits::c10, &[]),
    ("C11", hits::c11, &[]),
    ("C12", timing::c12, &[]),
    ("C13", timing::c13, &[]),
    ("C14", events::c14, &[]),
    ("C15", events::c15, &[]),
    ("C16", events::c16, &[]),
    ("C17", events::c17, &[]),
    ("C18", colours::c18, &[]),
    ("C19", numbers::c19, &[]),
    ("C20", files::c20, &[]),
    ("C21", malformed::c21, &[]),
    ("C22", files::c22, &[]),
    ("C23", files::c23, &[]),
    ("C24", api::c24, &[]),
    ("C25", compare::c25, &[]),
    ("C26", files::c26, &[]),
    ("C27", defaults::c27, &[]),
    ("C28", lines::c28, &[]),
    ("C29", edits::c29, &[]),
    ("C30", malformed::c30, &[]),
    ("C31", text::c31, &[]),
    ("C32", history::c32, &[]),
    ("C33", equality::c33, &[]),
    ("C34", faults::c34, &[]),
    ("C35", parts::c35, &[]),
];
