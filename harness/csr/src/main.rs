include!("../../rt/rt.rs");
mod client;
mod media;
#[path = "../../mgr/src/model.rs"]
mod model;
#[path = "../../ssr/src/tree.rs"]
mod tree;
fn main() {
    rt::main_(&[media::ENTRIES, client::ENTRIES].concat())
}
pub fn block<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let mut c = std::task::Context::from_waker(std::task::Waker::noop());
    for _ in 0..100 {
        if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut c) {
            return x;
        }
        yew::platform::drain();
    }
    rt::fail("rendering does not end")
}
