//! A model of the DOM: the part of `web_sys` a style library can use, as the
//! DOM and CSS standards define it, over a tree kept in a thread local.
use std::cell::RefCell;
use std::ops::Deref;
use std::rc::Rc;
pub use wasm_bindgen::{JsCast, JsValue};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Document,
    Fragment,
    Shadow,
    Element,
    Text,
    Comment,
}
struct N {
    kind: Kind,
    /// what scripts put on the object
    props: Vec<(&'static str, u32)>,
    /// tag or text
    text: String,
    attrs: Vec<(String, String)>,
    children: Vec<usize>,
    parent: Option<usize>,
}
#[derive(Default)]
pub struct Dom {
    n: Vec<N>,
    window: bool,
    /// media queries in question and whether they match now
    media: Vec<(String, bool)>,
    /// objects `matchMedia` returned
    lists: Vec<String>,
    listeners: Vec<Option<Listening>>,
}
type Handler = Rc<RefCell<dyn FnMut(&Event)>>;
struct Listening {
    target: JsValue,
    kind: String,
    once: bool,
    f: Handler,
}
thread_local! {
    static DOM: RefCell<Dom> = RefCell::new(Dom::default());
}
const DOC: usize = 0;
fn with<R>(f: impl FnOnce(&mut Dom) -> R) -> R {
    DOM.with(|d| f(&mut d.borrow_mut()))
}
fn exception<R>(name: &'static str) -> Result<R, JsValue> {
    Err(JsValue::Exception(name))
}
impl Dom {
    fn add(&mut self, kind: Kind, text: &str) -> usize {
        self.n.push(N { kind, text: text.to_string(), attrs: vec![], children: vec![], parent: None, props: vec![] });
        self.n.len() - 1
    }
    fn detach(&mut self, c: usize) {
        if let Some(p) = self.n[c].parent.take() {
            self.n[p].children.retain(|x| *x != c);
        }
    }
    fn ancestor(&self, a: usize, mut n: usize) -> bool {
        loop {
            if a == n {
                return true;
            }
            match self.n[n].parent {
                Some(p) => n = p,
                None => return false,
            }
        }
    }
    /// "ensure pre-insertion validity", then "insert"
    fn insert(&mut self, parent: usize, node: usize, before: Option<usize>) -> Result<(), JsValue> {
        if matches!(self.n[parent].kind, Kind::Text | Kind::Comment) || self.ancestor(node, parent) {
            return exception("HierarchyRequestError");
        }
        if let Some(b) = before {
            if self.n[b].parent != Some(parent) {
                return exception("NotFoundError");
            }
        }
        if matches!(self.n[node].kind, Kind::Document | Kind::Shadow) || self.n[parent].kind == Kind::Document {
            return exception("HierarchyRequestError");
        }
        let mut before = before;
        if before == Some(node) {
            before = self.next(node);
        }
        let nodes = if self.n[node].kind == Kind::Fragment { self.n[node].children.clone() } else { vec![node] };
        for m in nodes {
            self.detach(m);
            let at = match before {
                Some(b) => self.n[parent].children.iter().position(|x| *x == b).unwrap(),
                None => self.n[parent].children.len(),
            };
            self.n[parent].children.insert(at, m);
            self.n[m].parent = Some(parent);
        }
        Ok(())
    }
    fn next(&self, n: usize) -> Option<usize> {
        let p = self.n[n].parent?;
        let i = self.n[p].children.iter().position(|x| *x == n)?;
        self.n[p].children.get(i + 1).copied()
    }
    fn previous(&self, n: usize) -> Option<usize> {
        let p = self.n[n].parent?;
        let i = self.n[p].children.iter().position(|x| *x == n)?;
        if i == 0 {
            None
        } else {
            Some(self.n[p].children[i - 1])
        }
    }
    fn walk(&self, n: usize, out: &mut Vec<usize>) {
        for c in &self.n[n].children {
            out.push(*c);
            self.walk(*c, out);
        }
    }
    fn attr(&self, n: usize, k: &str) -> Option<&String> {
        self.n[n].attrs.iter().find(|a| a.0 == k).map(|a| &a.1)
    }
    fn matches(&self, n: usize, s: &[Vec<Simple>]) -> bool {
        self.n[n].kind == Kind::Element
            && s.iter().any(|c| {
                c.iter().all(|x| match x {
                    Simple::Any => true,
                    Simple::Tag(t) => self.n[n].text.eq_ignore_ascii_case(t),
                    Simple::Attr(k, None) => self.attr(n, k).is_some(),
                    Simple::Attr(k, Some(v)) => self.attr(n, k) == Some(v),
                    Simple::Class(c) => self.attr(n, "class").map_or(false, |a| a.split(' ').any(|x| x == c)),
                    Simple::Id(c) => self.attr(n, "id") == Some(c),
                })
            })
    }
    fn find(&self, root: usize, sel: &str) -> Result<Vec<usize>, JsValue> {
        let s = match selector(sel) {
            Some(s) => s,
            None => return exception("SyntaxError"),
        };
        let mut v = vec![];
        self.walk(root, &mut v);
        v.retain(|n| self.matches(*n, &s));
        Ok(v)
    }
    fn text_of(&self, n: usize) -> String {
        if matches!(self.n[n].kind, Kind::Text | Kind::Comment) {
            return self.n[n].text.clone();
        }
        let mut s = String::new();
        for c in &self.n[n].children {
            if self.n[*c].kind == Kind::Comment {
                continue;
            }
            s.push_str(&self.text_of(*c));
        }
        s
    }
}
enum Simple {
    Any,
    Tag(String),
    Attr(String, Option<String>),
    Class(String),
    Id(String),
}
struct S<'a> {
    b: &'a [u8],
    i: usize,
}
impl S<'_> {
    fn peek(&self, k: usize) -> u8 {
        self.b.get(self.i + k).copied().unwrap_or(0)
    }
    fn start(c: u8) -> bool {
        c.is_ascii_alphabetic() || c == b'_' || c >= 0x80
    }
    fn space(&mut self) {
        while matches!(self.peek(0), b' ' | b'\t' | b'\n' | b'\r' | 0x0c) {
            self.i += 1;
        }
    }
    /// a CSS identifier
    fn ident(&mut self) -> Option<String> {
        let ok = match self.peek(0) {
            b'-' => S::start(self.peek(1)) || self.peek(1) == b'-' || self.peek(1) == b'\\',
            c => S::start(c) || c == b'\\',
        };
        if !ok {
            return None;
        }
        let mut o: Vec<u8> = vec![];
        loop {
            let c = self.peek(0);
            if c == b'\\' {
                self.escape(&mut o)?;
            } else if c == b'-' || S::start(c) || c.is_ascii_digit() {
                o.push(c);
                self.i += 1;
            } else {
                break;
            }
        }
        Some(String::from_utf8(o).unwrap())
    }
    fn escape(&mut self, o: &mut Vec<u8>) -> Option<()> {
        self.i += 1;
        let c = self.peek(0);
        if c == b'\n' || self.i >= self.b.len() {
            return None;
        }
        if c.is_ascii_hexdigit() {
            let mut n = 0u32;
            let mut k = 0;
            while k < 6 && self.peek(0).is_ascii_hexdigit() {
                n = n * 16 + (self.peek(0) as char).to_digit(16).unwrap();
                self.i += 1;
                k += 1;
            }
            if matches!(self.peek(0), b' ' | b'\t' | b'\n') {
                self.i += 1;
            }
            let c = char::from_u32(n).filter(|c| *c != '\0').unwrap_or('\u{fffd}');
            let mut buf = [0; 4];
            o.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
        } else {
            o.push(c);
            self.i += 1;
            while self.peek(0) & 0xc0 == 0x80 {
                o.push(self.peek(0));
                self.i += 1;
            }
        }
        Some(())
    }
    fn string(&mut self) -> Option<String> {
        let q = self.peek(0);
        if q != b'"' && q != b'\'' {
            return None;
        }
        self.i += 1;
        let mut o: Vec<u8> = vec![];
        while self.i < self.b.len() {
            let c = self.peek(0);
            if c == q {
                self.i += 1;
                return Some(String::from_utf8(o).unwrap());
            }
            if c == b'\n' {
                return None;
            }
            if c == b'\\' {
                self.escape(&mut o)?;
            } else {
                o.push(c);
                self.i += 1;
            }
        }
        Some(String::from_utf8(o).unwrap())
    }
    fn compound(&mut self) -> Option<Vec<Simple>> {
        let mut v = vec![];
        if self.peek(0) == b'*' {
            self.i += 1;
            v.push(Simple::Any);
        } else if let Some(t) = self.ident() {
            v.push(Simple::Tag(t));
        }
        loop {
            match self.peek(0) {
                b'.' => {
                    self.i += 1;
                    v.push(Simple::Class(self.ident()?));
                }
                b'#' => {
                    self.i += 1;
                    v.push(Simple::Id(self.ident()?));
                }
                b'[' => {
                    self.i += 1;
                    self.space();
                    let k = self.ident()?;
                    self.space();
                    let mut val = None;
                    if self.peek(0) == b'=' {
                        self.i += 1;
                        self.space();
                        val = Some(match self.peek(0) {
                            b'"' | b'\'' => self.string()?,
                            _ => self.ident()?,
                        });
                        self.space();
                    }
                    if self.peek(0) != b']' {
                        return None;
                    }
                    self.i += 1;
                    v.push(Simple::Attr(k, val));
                }
                _ => break,
            }
        }
        if v.is_empty() {
            None
        } else {
            Some(v)
        }
    }
}
/// a list of compound selectors; combinators and pseudo-classes are not modelled
fn selector(t: &str) -> Option<Vec<Vec<Simple>>> {
    let mut s = S { b: t.as_bytes(), i: 0 };
    let mut v = vec![];
    loop {
        s.space();
        v.push(s.compound()?);
        s.space();
        if s.i >= s.b.len() {
            return Some(v);
        }
        match s.peek(0) {
            b',' => s.i += 1,
            b':' | b'>' | b'+' | b'~' => panic!("UNSUPPORTED selector in the DOM model"),
            c if S::start(c) || c == b'.' || c == b'#' || c == b'[' || c == b'*' => panic!("UNSUPPORTED selector in the DOM model"),
            _ => return None,
        }
    }
}

macro_rules! object {
    ($t:ident : $up:ident, $is:expr) => {
        #[derive(Clone, Debug, PartialEq, Eq)]
        #[repr(transparent)]
        pub struct $t($up);
        impl Deref for $t {
            type Target = $up;
            fn deref(&self) -> &$up {
                &self.0
            }
        }
        impl JsCast for $t {
            fn instanceof(v: &JsValue) -> bool {
                let is: fn(&JsValue) -> bool = $is;
                $up::instanceof(v) && is(v)
            }
            fn unchecked_from_js(v: JsValue) -> Self {
                $t($up::unchecked_from_js(v))
            }
            fn unchecked_from_js_ref(v: &JsValue) -> &Self {
                // a chain of transparent wrappers
                unsafe { &*(v as *const JsValue as *const Self) }
            }
        }
        impl AsRef<JsValue> for $t {
            fn as_ref(&self) -> &JsValue {
                self.0.as_ref()
            }
        }
        impl AsRef<$t> for $t {
            fn as_ref(&self) -> &$t {
                self
            }
        }
        impl From<$t> for JsValue {
            fn from(t: $t) -> JsValue {
                t.0.into()
            }
        }
        impl From<&$t> for JsValue {
            fn from(t: &$t) -> JsValue {
                t.0.clone().into()
            }
        }
        impl From<JsValue> for $t {
            fn from(v: JsValue) -> $t {
                $t::unchecked_from_js(v)
            }
        }
    };
}
macro_rules! also {
    ($t:ident : $($up:ident),*) => {$(
        impl From<$t> for $up {
            fn from(t: $t) -> $up {
                t.unchecked_into()
            }
        }
        impl AsRef<$up> for $t {
            fn as_ref(&self) -> &$up {
                self
            }
        }
    )*};
}
#[derive(Clone, Debug, PartialEq)]
#[repr(transparent)]
pub struct Object(JsValue);
impl Eq for Object {}
impl JsCast for Object {
    fn instanceof(v: &JsValue) -> bool {
        matches!(v, JsValue::Node(_) | JsValue::Object(..))
    }
    fn unchecked_from_js(v: JsValue) -> Self {
        Object(v)
    }
    fn unchecked_from_js_ref(v: &JsValue) -> &Self {
        unsafe { &*(v as *const JsValue as *const Self) }
    }
}
impl AsRef<JsValue> for Object {
    fn as_ref(&self) -> &JsValue {
        &self.0
    }
}
impl From<Object> for JsValue {
    fn from(o: Object) -> JsValue {
        o.0
    }
}
impl From<JsValue> for Object {
    fn from(o: JsValue) -> Object {
        Object(o)
    }
}
fn kind_is(v: &JsValue, k: &[Kind]) -> bool {
    match v {
        JsValue::Node(n) => with(|d| k.contains(&d.n[*n].kind)),
        _ => false,
    }
}
fn tag_is(v: &JsValue, t: &[&str]) -> bool {
    match v {
        JsValue::Node(n) => with(|d| t.contains(&d.n[*n].text.as_str())),
        _ => false,
    }
}
object!(EventTarget: Object, |v| matches!(v, JsValue::Node(_) | JsValue::Object("window" | "MediaQueryList", _)));
object!(Window: EventTarget, |v| matches!(v, JsValue::Object("window", _)));
object!(Node: EventTarget, |v| matches!(v, JsValue::Node(_)));
object!(Text: Node, |v| kind_is(v, &[Kind::Text]));
object!(Document: Node, |v| kind_is(v, &[Kind::Document]));
object!(DocumentFragment: Node, |v| kind_is(v, &[Kind::Fragment, Kind::Shadow]));
object!(ShadowRoot: DocumentFragment, |v| kind_is(v, &[Kind::Shadow]));
object!(Element: Node, |v| kind_is(v, &[Kind::Element]));
object!(HtmlElement: Element, |_| true);
object!(HtmlInputElement: HtmlElement, |v| tag_is(v, &["input"]));
object!(HtmlTextAreaElement: HtmlElement, |v| tag_is(v, &["textarea"]));
object!(HtmlScriptElement: HtmlElement, |v| tag_is(v, &["script"]));
object!(Comment: Node, |v| kind_is(v, &[Kind::Comment]));
object!(MediaQueryList: EventTarget, |v| matches!(v, JsValue::Object("MediaQueryList", _)));
object!(Event: Object, |v| matches!(v, JsValue::Object("Event", _)));
macro_rules! events {
    ($($t:ident)*) => {$(
        object!($t: Event, |_| true);
        also!($t: Event);
    )*};
}
events!(AnimationEvent DragEvent ErrorEvent FocusEvent InputEvent KeyboardEvent MouseEvent PointerEvent ProgressEvent SubmitEvent
    TouchEvent TransitionEvent UiEvent WheelEvent MediaQueryListEvent);
object!(HtmlHeadElement: HtmlElement, |v| tag_is(v, &["head"]));
object!(HtmlStyleElement: HtmlElement, |v| tag_is(v, &["style"]));
also!(EventTarget: Object);
also!(Window: EventTarget, Object);
also!(Node: EventTarget, Object);
also!(Text: Node, EventTarget, Object);
also!(Document: Node, EventTarget, Object);
also!(DocumentFragment: Node, EventTarget, Object);
also!(ShadowRoot: DocumentFragment, Node, EventTarget, Object);
also!(Element: Node, EventTarget, Object);
also!(HtmlElement: Element, Node, EventTarget, Object);
also!(HtmlInputElement: HtmlElement, Element, Node, EventTarget, Object);
also!(HtmlTextAreaElement: HtmlElement, Element, Node, EventTarget, Object);
also!(HtmlScriptElement: HtmlElement, Element, Node, EventTarget, Object);
also!(Comment: Node, EventTarget, Object);
also!(MediaQueryList: EventTarget, Object);
also!(HtmlHeadElement: HtmlElement, Element, Node, EventTarget, Object);
also!(HtmlStyleElement: HtmlElement, Element, Node, EventTarget, Object);

fn obj<T: JsCast>(n: usize) -> T {
    T::unchecked_from_js(JsValue::Node(n))
}
pub fn window() -> Option<Window> {
    if with(|d| d.window) {
        Some(Window::unchecked_from_js(JsValue::Object("window", 0)))
    } else {
        None
    }
}
impl Window {
    pub fn document(&self) -> Option<Document> {
        if with(|d| d.n.is_empty()) {
            return None;
        }
        Some(obj(DOC))
    }
    /// a new object for every call
    pub fn match_media(&self, q: &str) -> Result<Option<MediaQueryList>, JsValue> {
        Ok(Some(with(|d| {
            d.lists.push(q.to_string());
            MediaQueryList::unchecked_from_js(JsValue::Object("MediaQueryList", d.lists.len() - 1))
        })))
    }
}
impl MediaQueryList {
    pub fn media(&self) -> String {
        match self.as_ref() as &JsValue {
            JsValue::Object(_, n) => with(|d| d.lists[*n].clone()),
            _ => panic!("not a MediaQueryList"),
        }
    }
    pub fn matches(&self) -> bool {
        let q = self.media();
        with(|d| d.media.iter().any(|m| m.0 == q && m.1))
    }
}
impl Event {
    pub fn composed_path(&self) -> Path {
        panic!("UNSUPPORTED events of nodes")
    }
    pub fn bubbles(&self) -> bool {
        false
    }
    pub fn cancel_bubble(&self) -> bool {
        false
    }
    pub fn target(&self) -> Option<EventTarget> {
        panic!("UNSUPPORTED target of events")
    }
}
pub struct Path;
impl Path {
    pub fn length(&self) -> u32 {
        0
    }
    pub fn get(&self, _: u32) -> JsValue {
        JsValue::Undefined
    }
}
impl Node {
    pub const ELEMENT_NODE: u16 = 1;
    pub const TEXT_NODE: u16 = 3;
    pub const COMMENT_NODE: u16 = 8;
    pub const DOCUMENT_NODE: u16 = 9;
    pub const DOCUMENT_FRAGMENT_NODE: u16 = 11;
    fn i(&self) -> usize {
        match self.as_ref() as &JsValue {
            JsValue::Node(n) => *n,
            _ => panic!("not a node"),
        }
    }
    pub fn append_child(&self, node: &Node) -> Result<Node, JsValue> {
        with(|d| d.insert(self.i(), node.i(), None))?;
        Ok(node.clone())
    }
    pub fn insert_before(&self, node: &Node, child: Option<&Node>) -> Result<Node, JsValue> {
        with(|d| d.insert(self.i(), node.i(), child.map(|c| c.i())))?;
        Ok(node.clone())
    }
    pub fn remove_child(&self, node: &Node) -> Result<Node, JsValue> {
        if with(|d| d.n[node.i()].parent) != Some(self.i()) {
            return exception("NotFoundError");
        }
        with(|d| d.detach(node.i()));
        Ok(node.clone())
    }
    pub fn replace_child(&self, node: &Node, child: &Node) -> Result<Node, JsValue> {
        self.insert_before(node, Some(child))?;
        self.remove_child(child)
    }
    pub fn first_child(&self) -> Option<Node> {
        with(|d| d.n[self.i()].children.first().copied()).map(obj)
    }
    pub fn last_child(&self) -> Option<Node> {
        with(|d| d.n[self.i()].children.last().copied()).map(obj)
    }
    pub fn next_sibling(&self) -> Option<Node> {
        with(|d| d.next(self.i())).map(obj)
    }
    pub fn previous_sibling(&self) -> Option<Node> {
        with(|d| d.previous(self.i())).map(obj)
    }
    pub fn parent_node(&self) -> Option<Node> {
        with(|d| d.n[self.i()].parent).map(obj)
    }
    pub fn parent_element(&self) -> Option<Element> {
        let p = with(|d| d.n[self.i()].parent.filter(|p| d.n[*p].kind == Kind::Element));
        p.map(obj)
    }
    pub fn child_nodes(&self) -> NodeList {
        NodeList(with(|d| d.n[self.i()].children.clone()))
    }
    pub fn node_value(&self) -> Option<String> {
        match with(|d| d.n[self.i()].kind) {
            Kind::Text | Kind::Comment => self.text_content(),
            _ => None,
        }
    }
    pub fn set_node_value(&self, t: Option<&str>) {
        if self.node_value().is_some() {
            self.set_text_content(t)
        }
    }
    pub fn clone_node(&self) -> Result<Node, JsValue> {
        self.clone_node_with_deep(false)
    }
    pub fn clone_node_with_deep(&self, deep: bool) -> Result<Node, JsValue> {
        fn go(d: &mut Dom, n: usize, deep: bool) -> usize {
            let (kind, text) = (d.n[n].kind, d.n[n].text.clone());
            let m = d.add(kind, &text);
            d.n[m].attrs = d.n[n].attrs.clone();
            if deep {
                for c in d.n[n].children.clone() {
                    let c = go(d, c, true);
                    let _ = d.insert(m, c, None);
                }
            }
            m
        }
        Ok(obj(with(|d| go(d, self.i(), deep))))
    }
    pub fn has_child_nodes(&self) -> bool {
        self.first_child().is_some()
    }
    pub fn contains(&self, other: Option<&Node>) -> bool {
        other.map_or(false, |o| with(|d| d.ancestor(self.i(), o.i())))
    }
    pub fn is_same_node(&self, other: Option<&Node>) -> bool {
        other == Some(self)
    }
    pub fn owner_document(&self) -> Option<Document> {
        if self.i() == DOC {
            None
        } else {
            Some(obj(DOC))
        }
    }
    fn root(&self) -> usize {
        let mut n = self.i();
        while let Some(p) = with(|d| d.n[n].parent) {
            n = p;
        }
        n
    }
    pub fn get_root_node(&self) -> Node {
        obj(self.root())
    }
    /// shadow roots of the model are attached to the document
    pub fn is_connected(&self) -> bool {
        with(|d| d.n[self.root()].kind == Kind::Shadow) || self.root() == DOC
    }
    pub fn node_type(&self) -> u16 {
        match with(|d| d.n[self.i()].kind) {
            Kind::Document => 9,
            Kind::Fragment | Kind::Shadow => 11,
            Kind::Element => 1,
            Kind::Text => 3,
            Kind::Comment => 8,
        }
    }
    pub fn node_name(&self) -> String {
        match with(|d| d.n[self.i()].kind) {
            Kind::Document => "#document".into(),
            Kind::Fragment | Kind::Shadow => "#document-fragment".into(),
            Kind::Text => "#text".into(),
            Kind::Comment => "#comment".into(),
            Kind::Element => with(|d| d.n[self.i()].text.to_ascii_uppercase()),
        }
    }
    pub fn text_content(&self) -> Option<String> {
        if self.i() == DOC {
            return None;
        }
        Some(with(|d| d.text_of(self.i())))
    }
    pub fn set_text_content(&self, t: Option<&str>) {
        let t = t.unwrap_or("");
        with(|d| {
            let n = self.i();
            match d.n[n].kind {
                Kind::Document => {}
                Kind::Text | Kind::Comment => d.n[n].text = t.to_string(),
                _ => {
                    for c in d.n[n].children.clone() {
                        d.detach(c);
                    }
                    if !t.is_empty() {
                        let x = d.add(Kind::Text, t);
                        let _ = d.insert(n, x, None);
                    }
                }
            }
        })
    }
}
macro_rules! parent_node {
    ($($t:ident)*) => {$(
        impl $t {
            pub fn query_selector(&self, s: &str) -> Result<Option<Element>, JsValue> {
                Ok(with(|d| d.find(self.i(), s))?.first().map(|n| obj(*n)))
            }
            pub fn query_selector_all(&self, s: &str) -> Result<NodeList, JsValue> {
                Ok(NodeList(with(|d| d.find(self.i(), s))?))
            }
            pub fn first_element_child(&self) -> Option<Element> {
                with(|d| d.n[self.i()].children.iter().copied().find(|c| d.n[*c].kind == Kind::Element)).map(obj)
            }
            pub fn last_element_child(&self) -> Option<Element> {
                with(|d| d.n[self.i()].children.iter().rev().copied().find(|c| d.n[*c].kind == Kind::Element)).map(obj)
            }
            pub fn append_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
                self.append_child(n).map(|_| ())
            }
            pub fn prepend_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
                self.insert_before(n, self.first_child().as_ref()).map(|_| ())
            }
        }
    )*};
}
parent_node!(Document DocumentFragment Element);
#[derive(Clone, Debug)]
pub struct NodeList(Vec<usize>);
impl NodeList {
    pub fn length(&self) -> u32 {
        self.0.len() as u32
    }
    pub fn item(&self, i: u32) -> Option<Node> {
        self.0.get(i as usize).map(|n| obj(*n))
    }
    pub fn get(&self, i: u32) -> Option<Node> {
        self.item(i)
    }
}
impl From<NodeList> for Vec<JsValue> {
    fn from(l: NodeList) -> Self {
        l.0.into_iter().map(JsValue::Node).collect()
    }
}
impl Document {
    fn child(&self, tag: &str) -> Option<usize> {
        with(|d| {
            let html = *d.n[DOC].children.first()?;
            d.n[html].children.iter().copied().find(|c| d.n[*c].text == tag)
        })
    }
    pub fn head(&self) -> Option<HtmlHeadElement> {
        self.child("head").map(obj)
    }
    pub fn body(&self) -> Option<HtmlElement> {
        self.child("body").map(obj)
    }
    pub fn document_element(&self) -> Option<Element> {
        with(|d| d.n[DOC].children.first().copied()).map(obj)
    }
    pub fn create_element(&self, tag: &str) -> Result<Element, JsValue> {
        if tag.is_empty() || !tag.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'-') {
            return exception("InvalidCharacterError");
        }
        Ok(obj(with(|d| d.add(Kind::Element, &tag.to_ascii_lowercase()))))
    }
    pub fn create_element_ns(&self, ns: Option<&str>, tag: &str) -> Result<Element, JsValue> {
        match ns {
            None | Some("http://www.w3.org/1999/xhtml") => self.create_element(tag),
            _ => panic!("UNSUPPORTED name space"),
        }
    }
    pub fn create_text_node(&self, t: &str) -> Text {
        obj(with(|d| d.add(Kind::Text, t)))
    }
    pub fn create_document_fragment(&self) -> DocumentFragment {
        obj(with(|d| d.add(Kind::Fragment, "")))
    }
    pub fn get_element_by_id(&self, id: &str) -> Option<Element> {
        with(|d| {
            let mut v = vec![];
            d.walk(DOC, &mut v);
            v.into_iter().find(|n| d.attr(*n, "id").map(|s| s.as_str()) == Some(id))
        })
        .map(obj)
    }
}
impl HtmlInputElement {
    pub fn set_checked(&self, _: bool) {
        panic!("UNSUPPORTED form")
    }
    pub fn value(&self) -> String {
        panic!("UNSUPPORTED form")
    }
    pub fn set_value(&self, _: &str) {
        panic!("UNSUPPORTED form")
    }
}
impl HtmlTextAreaElement {
    pub fn value(&self) -> String {
        panic!("UNSUPPORTED form")
    }
    pub fn set_value(&self, _: &str) {
        panic!("UNSUPPORTED form")
    }
    pub fn set_default_value(&self, _: &str) -> Result<(), JsValue> {
        panic!("UNSUPPORTED form")
    }
}
impl HtmlScriptElement {
    pub fn type_(&self) -> String {
        self.get_attribute("type").unwrap_or_default()
    }
    pub fn text(&self) -> Result<String, JsValue> {
        Ok(self.text_content().unwrap_or_default())
    }
}
impl ShadowRoot {
    pub fn host(&self) -> Element {
        panic!("UNSUPPORTED hosts of shadow roots")
    }
}
impl Text {
    pub fn remove(&self) {
        with(|d| d.detach(self.i()))
    }
}
impl Element {
    pub fn namespace_uri(&self) -> Option<String> {
        Some("http://www.w3.org/1999/xhtml".to_string())
    }
    pub fn set_inner_html(&self, t: &str) {
        self.set_text_content(None);
        with(|d| html(d, self.i(), t))
    }
    pub fn inner_html(&self) -> String {
        model::children(self).iter().map(model::dump).collect()
    }
    pub fn outer_html(&self) -> String {
        model::dump(self)
    }
    pub fn tag_name(&self) -> String {
        self.node_name()
    }
    pub fn local_name(&self) -> String {
        with(|d| d.n[self.i()].text.clone())
    }
    pub fn set_attribute(&self, k: &str, v: &str) -> Result<(), JsValue> {
        if k.is_empty() || k.bytes().any(|c| matches!(c, b' ' | b'>' | b'=' | b'/' | b'"')) {
            return exception("InvalidCharacterError");
        }
        let k = k.to_ascii_lowercase();
        with(|d| {
            let a = &mut d.n[self.i()].attrs;
            match a.iter_mut().find(|x| x.0 == k) {
                Some(x) => x.1 = v.to_string(),
                None => a.push((k, v.to_string())),
            }
        });
        Ok(())
    }
    pub fn get_attribute(&self, k: &str) -> Option<String> {
        with(|d| d.attr(self.i(), k).cloned())
    }
    pub fn has_attribute(&self, k: &str) -> bool {
        self.get_attribute(k).is_some()
    }
    pub fn remove_attribute(&self, k: &str) -> Result<(), JsValue> {
        with(|d| d.n[self.i()].attrs.retain(|a| a.0 != k));
        Ok(())
    }
    pub fn id(&self) -> String {
        self.get_attribute("id").unwrap_or_default()
    }
    pub fn set_id(&self, v: &str) {
        let _ = self.set_attribute("id", v);
    }
    pub fn class_name(&self) -> String {
        self.get_attribute("class").unwrap_or_default()
    }
    pub fn set_class_name(&self, v: &str) {
        let _ = self.set_attribute("class", v);
    }
    pub fn matches(&self, s: &str) -> Result<bool, JsValue> {
        match selector(s) {
            Some(s) => Ok(with(|d| d.matches(self.i(), &s))),
            None => exception("SyntaxError"),
        }
    }
    pub fn remove(&self) {
        with(|d| d.detach(self.i()))
    }
    pub fn before_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
        match self.parent_node() {
            Some(p) => p.insert_before(n, Some(self)).map(|_| ()),
            None => Ok(()),
        }
    }
    pub fn after_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
        match self.parent_node() {
            Some(p) => p.insert_before(n, self.next_sibling().as_ref()).map(|_| ()),
            None => Ok(()),
        }
    }
    pub fn insert_adjacent_element(&self, at: &str, n: &Element) -> Result<Option<Element>, JsValue> {
        match at.to_ascii_lowercase().as_str() {
            "beforebegin" => self.before_with_node_1(n)?,
            "afterend" => self.after_with_node_1(n)?,
            "afterbegin" => self.prepend_with_node_1(n)?,
            "beforeend" => self.append_with_node_1(n)?,
            _ => return exception("SyntaxError"),
        }
        Ok(Some(n.clone()))
    }
}

/// Well-formed markup as renderers write it: elements, quoted attributes, comments, text.
fn html(d: &mut Dom, root: usize, t: &str) {
    fn decode(t: &str) -> String {
        let mut o = String::new();
        let mut i = 0;
        'next: while i < t.len() {
            for (e, c) in [("&amp;", '&'), ("&lt;", '<'), ("&gt;", '>'), ("&quot;", '"'), ("&#x27;", '\''), ("&#39;", '\''), ("&#x2F;", '/')] {
                if t.as_bytes()[i..].starts_with(e.as_bytes()) {
                    o.push(c);
                    i += e.len();
                    continue 'next;
                }
            }
            let mut j = i + 1;
            while j < t.len() && t.as_bytes()[j] & 0xc0 == 0x80 {
                j += 1;
            }
            o.push_str(&t[i..j]);
            i = j;
        }
        o
    }
    fn find(t: &[u8], from: usize, what: &[u8]) -> usize {
        let mut i = from;
        while i + what.len() <= t.len() {
            if &t[i..i + what.len()] == what {
                return i;
            }
            i += 1;
        }
        t.len()
    }
    let b = t.as_bytes();
    let mut at = root;
    let mut i = 0;
    while i < b.len() {
        if b[i..].starts_with(b"<!--") {
            let e = find(b, i + 4, b"-->");
            let c = d.add(Kind::Comment, &t[i + 4..e]);
            let _ = d.insert(at, c, None);
            i = e + 3;
        } else if b[i..].starts_with(b"</") {
            let e = find(b, i, b">");
            if d.n[at].text != t[i + 2..e] || at == root {
                panic!("UNSUPPORTED markup {t:?}: end tag at {i}");
            }
            at = d.n[at].parent.unwrap();
            i = e + 1;
        } else if b[i] == b'<' {
            i += 1;
            let s = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'-') {
                i += 1;
            }
            let x = d.add(Kind::Element, &t[s..i]);
            let _ = d.insert(at, x, None);
            loop {
                while i < b.len() && matches!(b[i], b' ' | b'\n') {
                    i += 1;
                }
                if i >= b.len() {
                    panic!("UNSUPPORTED markup {t:?}: open tag");
                }
                if b[i] == b'>' {
                    i += 1;
                    break;
                }
                let s = i;
                while i < b.len() && !matches!(b[i], b'=' | b'>' | b' ') {
                    i += 1;
                }
                let k = t[s..i].to_string();
                let mut v = String::new();
                if i + 1 < b.len() && b[i] == b'=' {
                    if b[i + 1] != b'"' {
                        panic!("UNSUPPORTED markup {t:?}: attribute");
                    }
                    let e = find(b, i + 2, b"\"");
                    v = decode(&t[i + 2..e]);
                    i = e + 1;
                }
                d.n[x].attrs.push((k, v));
            }
            let tag = d.n[x].text.clone();
            if tag == "style" || tag == "script" {
                let e = find(b, i, format!("</{tag}>").as_bytes());
                if e > i {
                    let c = d.add(Kind::Text, &t[i..e]);
                    let _ = d.insert(x, c, None);
                }
                i = e + tag.len() + 3;
            } else if !matches!(tag.as_str(), "br" | "hr" | "img" | "input" | "link" | "meta") {
                at = x;
            }
        } else {
            let s = i;
            while i < b.len() && b[i] != b'<' {
                i += 1;
            }
            let c = d.add(Kind::Text, &decode(&t[s..i]));
            let _ = d.insert(at, c, None);
        }
    }
    if at != root {
        panic!("UNSUPPORTED markup {t:?}: unclosed element");
    }
}

/// Set-up of the model, and a look at it.
pub mod model {
    use super::*;
    /// A page with an empty head and body.
    pub fn page(window: bool) {
        let old = with(|d| std::mem::take(&mut d.listeners));
        drop(old);
        with(|d| {
            d.n.clear();
            d.media.clear();
            d.lists.clear();
            d.window = window;
            d.add(Kind::Document, "");
            let html = d.add(Kind::Element, "html");
            d.n[DOC].children.push(html);
            d.n[html].parent = Some(DOC);
            for t in ["head", "body"] {
                let x = d.add(Kind::Element, t);
                let _ = d.insert(html, x, None);
            }
        })
    }
    /// a shadow root attached to some element
    pub fn shadow() -> Node {
        obj(with(|d| d.add(Kind::Shadow, "")))
    }
    /// the document and each shadow root, as text
    pub fn dump(n: &Node) -> String {
        fn go(d: &Dom, n: usize, s: &mut String) {
            let x = &d.n[n];
            match x.kind {
                Kind::Text => s.push_str(&x.text),
                Kind::Comment => {
                    s.push_str("<!--");
                    s.push_str(&x.text);
                    s.push_str("-->");
                }
                Kind::Element => {
                    s.push('<');
                    s.push_str(&x.text);
                    for (k, v) in &x.attrs {
                        s.push(' ');
                        s.push_str(k);
                        s.push_str("=\"");
                        s.push_str(v);
                        s.push('"');
                    }
                    s.push('>');
                    for c in &x.children {
                        go(d, *c, s);
                    }
                    s.push_str("</");
                    s.push_str(&x.text);
                    s.push('>');
                }
                _ => {
                    for c in &x.children {
                        go(d, *c, s);
                    }
                }
            }
        }
        let mut s = String::new();
        with(|d| go(d, n.i(), &mut s));
        s
    }
    pub fn document() -> Document {
        obj(DOC)
    }
    /// a node that is none
    pub fn trap() -> Node {
        obj(usize::MAX)
    }
    pub fn prop(o: &JsValue, k: &str) -> Option<u32> {
        match o {
            JsValue::Node(n) => with(|d| d.n[*n].props.iter().find(|p| p.0 == k).map(|p| p.1)),
            _ => panic!("UNSUPPORTED property of an object"),
        }
    }
    pub fn set_prop(o: &JsValue, k: &'static str, v: u32) {
        match o {
            JsValue::Node(n) => with(|d| {
                let p = &mut d.n[*n].props;
                match p.iter_mut().find(|p| p.0 == k) {
                    Some(p) => p.1 = v,
                    None => p.push((k, v)),
                }
            }),
            _ => panic!("UNSUPPORTED property of an object"),
        }
    }
    pub fn reflect_set(_: &JsValue, _: &JsValue, _: &JsValue) -> Result<bool, JsValue> {
        panic!("UNSUPPORTED properties of elements")
    }
    pub fn listen(target: &EventTarget, kind: &str, once: bool, f: Box<dyn FnMut(&Event)>) -> usize {
        let mut f = f;
        let f: Handler = Rc::new(RefCell::new(move |e: &Event| f(e)));
        with(|d| {
            d.listeners.push(Some(Listening { target: AsRef::<JsValue>::as_ref(target).clone(), kind: kind.to_string(), once, f }));
            d.listeners.len() - 1
        })
    }
    pub fn unlisten(id: usize) {
        let old = with(|d| d.listeners.get_mut(id).and_then(|l| l.take()));
        drop(old);
    }
    /// how many listeners there are
    pub fn listening() -> usize {
        with(|d| d.listeners.iter().flatten().count())
    }
    /// Calls the listeners there are now, as long as they stay, in order.
    pub fn dispatch(target: &JsValue, kind: &str) {
        let e = Event::unchecked_from_js(JsValue::Object("Event", 0));
        let ids: Vec<usize> = with(|d| {
            (0..d.listeners.len()).filter(|i| d.listeners[*i].as_ref().is_some_and(|l| l.target == *target && l.kind == kind)).collect()
        });
        for i in ids {
            let f = with(|d| d.listeners[i].as_ref().map(|l| (l.once, l.f.clone())));
            if let Some((once, f)) = f {
                if once {
                    unlisten(i);
                }
                (f.borrow_mut())(&e);
            }
        }
    }
    /// The first state of a media query.
    pub fn media(q: &str, on: bool) {
        with(|d| d.media.push((q.to_string(), on)))
    }
    pub fn media_now(q: &str) -> bool {
        with(|d| d.media.iter().any(|m| m.0 == q && m.1))
    }
    /// Changes what media queries match, then tells the listeners of every list whose state changed.
    pub fn set_media(to: &[(&str, bool)]) {
        let mut changed = vec![];
        with(|d| {
            for (q, on) in to {
                for m in d.media.iter_mut().filter(|m| m.0 == *q) {
                    if m.1 != *on {
                        m.1 = *on;
                        changed.push(q.to_string());
                    }
                }
            }
        });
        for i in 0..with(|d| d.lists.len()) {
            if changed.contains(&with(|d| d.lists[i].clone())) {
                dispatch(&JsValue::Object("MediaQueryList", i), "change");
            }
        }
    }
    pub fn children(n: &Node) -> Vec<Node> {
        with(|d| d.n[n.i()].children.clone()).into_iter().map(obj).collect()
    }
}
