import re, sys, os
d = sys.argv[1]
def edit(f, *subs):
    p = f"{d}/{f}"
    t = open(p).read()
    for a, b in subs:
        if isinstance(a, str):
            assert a in t, (f, a)
            t = t.replace(a, b)
        else:
            t, n = a.subn(lambda m: b, t)
            assert n, (f, a)
    open(p, "w").write(t)

edit("Cargo.toml",
     (re.compile(r"(?ms)^\[\[test\]\].*?(?=^\[)"), ""),
     (re.compile(r"(?ms)^\[dev-dependencies\..*?(?=^\[|\Z)"), ""),
     (re.compile(r"(?ms)^\[target\..*?(?=^\[|\Z)"), ""),
     (re.compile(r"(?ms)^\[dependencies\.(gloo|js-sys|console_error_panic_hook|web-sys)\]\n.*?(?=^\[|\Z)"), ""))
open(f"{d}/Cargo.toml", "a").write('''
[dependencies.web-sys]
version = "0.3"
''')
def props(*ps):
    s = '''#[repr(transparent)]
struct EventTargetable(wasm_bindgen::JsValue);
impl AsRef<wasm_bindgen::JsValue> for EventTargetable {
    fn as_ref(&self) -> &wasm_bindgen::JsValue { &self.0 }
}
impl From<EventTargetable> for wasm_bindgen::JsValue {
    fn from(t: EventTargetable) -> Self { t.0 }
}
impl wasm_bindgen::JsCast for EventTargetable {
    fn instanceof(_: &wasm_bindgen::JsValue) -> bool { true }
    fn unchecked_from_js(v: wasm_bindgen::JsValue) -> Self { Self(v) }
    fn unchecked_from_js_ref(v: &wasm_bindgen::JsValue) -> &Self { unsafe { &*(v as *const wasm_bindgen::JsValue as *const Self) } }
}
impl EventTargetable {
'''
    for p in ps:
        s += f'''    fn {p}(&self) -> Option<u32> {{ web_sys::model::prop(&self.0, "{p}") }}
    fn set_{p}(&self, v: u32) {{ web_sys::model::set_prop(&self.0, "{p}", v) }}
'''
    return s + "}\n"

EXTERN = re.compile(r'(?ms)^#\[wasm_bindgen\]\nextern "C" \{.*?^\}\n')
edit("src/dom_bundle/subtree_root.rs",
     (EXTERN, props("subtree_id", "cache_key")),
     ("use wasm_bindgen::prelude::{wasm_bindgen, Closure};\n", ""),
     ("use wasm_bindgen::{intern, JsCast, UnwrapThrowExt};", "use wasm_bindgen::JsCast;"),
     ("    AddEventListenerOptions, Element,", "    Element,"),
     (re.compile(r"(?ms)^type EventClosure.*?^/// Ensures event handler registration\.\n"), "/// Ensures event handler registration.\n"),
     (re.compile(r"(?ms)^    fn add_listener\(&mut self, desc: &EventDescriptor, callback.*?^    \}\n"),
      "    fn add_listener(&mut self, _desc: &EventDescriptor, _callback: impl 'static + Fn(&Event)) {}\n"))
edit("src/dom_bundle/btag/listeners.rs",
     (EXTERN, props("listener_id")),
     ("use wasm_bindgen::prelude::wasm_bindgen;\n", ""))
for f in ["btag/mod.rs", "btext.rs", "bsuspense.rs"]:
    edit("src/dom_bundle/" + f, ("use gloo::utils::document;", "use web_sys::model::document;"))
edit("src/renderer.rs",
     ("gloo::utils::document()", "web_sys::model::document()"),
     ("std::panic::set_hook(Box::new(console_error_panic_hook::hook));", ""))
edit("src/dom_bundle/position.rs",
     ("gloo::utils::document().create_element(\"div\").unwrap().into()", "web_sys::model::trap()"),
     (re.compile(r"(?m)^ *gloo::console::error!\(.*\);\n"), "let _ = (&msg, &err);\n"))
edit("src/dom_bundle/btag/attributes.rs", ("js_sys::Reflect::set(", "web_sys::model::reflect_set("))
edit("src/dom_bundle/braw.rs", ("gloo::utils::document()", "web_sys::model::document()"), (re.compile(r"let children = js_sys::Array::from\(&children\);"), "let children: Vec<wasm_bindgen::JsValue> = children.into();"))
edit("src/functional/hooks/use_prepared_state/feat_hydration.rs",
     ('async fn decode_base64(_s: &str) -> Result<Vec<u8>, JsValue> {\n    unreachable!("this function is not callable under non-wasm targets!");',
      '''async fn decode_base64(s: &str) -> Result<Vec<u8>, JsValue> {
    use base64ct::Encoding;
    let s = s.strip_prefix("data:application/octet-binary;base64,").expect("a data url");
    Ok(base64ct::Base64::decode_vec(s).expect("base64"))'''))
edit("src/dom_bundle/utils.rs", (re.compile(r"(?m)^ *Node::(ATTRIBUTE|CDATA|ENTITY|PROCESSING|DOCUMENT_TYPE|NOTATION)\w* => .*\n"), ""))
edit("src/scheduler.rs",
     ('''    pub(crate) fn start() {
        super::start_now();
    }''', '''    thread_local! {
        static SCHEDULED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    }
    pub(crate) fn start() {
        if !SCHEDULED.with(|s| s.replace(true)) {
            crate::platform::spawn_local(async {
                SCHEDULED.with(|s| s.set(false));
                super::start_now();
            });
        }
    }'''))
open(f"{d}/src/platform.rs", "w").write('''//! Tasks go to a queue.
pub use tokise::{fmt, pinned, time, LocalHandle, Runtime};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::Relaxed)
    }
}
struct Task(Arc<Flag>, Pin<Box<dyn Future<Output = ()>>>);
thread_local! {
    static TASKS: RefCell<VecDeque<Task>> = const { RefCell::new(VecDeque::new()) };
}
/// Queues a task.
pub fn spawn_local<F: Future<Output = ()> + 'static>(f: F) {
    TASKS.with(|t| t.borrow_mut().push_back(Task(Arc::new(Flag(AtomicBool::new(true))), Box::pin(f))))
}
/// Runs what is ready until nothing is.
pub fn drain() {
    loop {
        let t = TASKS.with(|t| {
            let mut t = t.borrow_mut();
            let i = t.iter().position(|x| x.0 .0.load(Ordering::Relaxed))?;
            t.remove(i)
        });
        let Some(mut t) = t else { return };
        t.0 .0.store(false, Ordering::Relaxed);
        let w = Waker::from(t.0.clone());
        if let Poll::Pending = t.1.as_mut().poll(&mut Context::from_waker(&w)) {
            TASKS.with(|q| q.borrow_mut().push_back(t));
        }
    }
}
/// Forgets all tasks.
pub fn clear() {
    let t = TASKS.with(|t| std::mem::take(&mut *t.borrow_mut()));
    drop(t);
}
''')
