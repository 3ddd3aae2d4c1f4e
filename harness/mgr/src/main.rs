include!("../../rt/rt.rs");
mod hist;
mod model;
mod ssr;
fn main() {
    rt::main_(&[hist::ENTRIES, ssr::ENTRIES].concat())
}
