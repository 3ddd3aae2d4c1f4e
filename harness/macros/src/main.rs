#![allow(warnings)]
include!("../../rt/rt.rs");
include!(concat!(env!("LLSYM_OUT"), "/gen/macros_root.rs"));
#[path = "/repo/packages/stylist-macros/src/literal/fstring.rs"]
mod fstr;
pub const RICH: bool = false;
mod ev;
#[path = "../../core/src/gen.rs"]
mod gen;
mod inl;
mod comp;
mod lit;
#[path = "../../core/src/vocab.rs"]
mod vocab;
fn main() {
    rt::main_(&[lit::ENTRIES, inl::ENTRIES, comp::ENTRIES].concat())
}
