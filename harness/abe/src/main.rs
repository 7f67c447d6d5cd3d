#![cfg_attr(not(feature = "native"), no_main)]
#![allow(unused)]
mod bfmt;
mod misc;
mod eval;
mod funcs;
mod text;
#[cfg(feature = "native")]
fn main() {
    let mut t: Vec<(&str, fn())> = vec![];
    t.extend_from_slice(text::TABLE);
    t.extend_from_slice(eval::TABLE);
    t.extend_from_slice(funcs::TABLE);
    t.extend_from_slice(bfmt::TABLE);
    t.extend_from_slice(misc::TABLE);
    symrt::native::main(&t);
}
