include!("../../rt/rt.rs");
#[path = "../../mgr/src/model.rs"]
mod model;
mod tree;
fn main() {
    rt::main_(&[tree::ENTRIES].concat())
}
