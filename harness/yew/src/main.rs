include!("../../rt/rt.rs");
#[path = "../../mgr/src/model.rs"]
mod model;
mod yewc;
fn main() {
    rt::main_(&[yewc::ENTRIES].concat())
}
