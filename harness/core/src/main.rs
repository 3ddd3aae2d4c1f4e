include!("../../rt/rt.rs");
/// full sets of characters in generated texts
pub const RICH: bool = true;
mod acct;
mod data;
mod gen;
mod parse;
mod render;
mod vocab;
fn main() {
    rt::main_(&[parse::ENTRIES, data::ENTRIES, render::ENTRIES].concat())
}
