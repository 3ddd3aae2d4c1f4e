// The registrations of ../../mgr with ids that are counted (stylist without `random`).
include!("../../rt/rt.rs");
#[path = "../../mgr/src/hist.rs"]
mod hist;
#[path = "../../mgr/src/model.rs"]
mod model;
#[path = "../../mgr/src/ssr.rs"]
mod ssr;
mod ctr;
fn main() {
    rt::main_(&[hist::ENTRIES, ssr::ENTRIES, ctr::ENTRIES].concat())
}
