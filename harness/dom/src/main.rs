include!("../../rt/rt.rs");
#[path = "../../mgr/src/model.rs"]
mod model;
mod mount;
fn main() {
    rt::main_(&[mount::ENTRIES].concat())
}
