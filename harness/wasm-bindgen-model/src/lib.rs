//! A model of `wasm_bindgen`: values of a JavaScript engine, as far as the DOM
//! model (`../web-sys-model`) needs them.

#[derive(Clone, Debug, PartialEq, Default)]
pub enum JsValue {
    #[default]
    Undefined,
    Null,
    Bool(bool),
    Str(String),
    /// a node of the DOM model
    Node(usize),
    /// an exception, by name
    Exception(&'static str),
    /// another object, by kind and number
    Object(&'static str, usize),
}
impl JsValue {
    pub const NULL: JsValue = JsValue::Null;
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const TRUE: JsValue = JsValue::Bool(true);
    pub const FALSE: JsValue = JsValue::Bool(false);
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> JsValue {
        JsValue::Str(s.to_string())
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue::Bool(b)
    }
    pub fn undefined() -> JsValue {
        JsValue::Undefined
    }
    pub fn null() -> JsValue {
        JsValue::Null
    }
    pub fn is_undefined(&self) -> bool {
        *self == JsValue::Undefined
    }
    pub fn is_null(&self) -> bool {
        *self == JsValue::Null
    }
    pub fn as_string(&self) -> Option<String> {
        match self {
            JsValue::Str(s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self {
            JsValue::Bool(s) => Some(*s),
            _ => None,
        }
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> JsValue {
        JsValue::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> JsValue {
        JsValue::Str(s)
    }
}
impl From<bool> for JsValue {
    fn from(s: bool) -> JsValue {
        JsValue::Bool(s)
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}
/// Casts between the types of JavaScript objects.
pub trait JsCast: AsRef<JsValue> + Into<JsValue> {
    fn instanceof(val: &JsValue) -> bool;
    fn unchecked_from_js(val: JsValue) -> Self;
    fn unchecked_from_js_ref(val: &JsValue) -> &Self;
    fn is_type_of(val: &JsValue) -> bool {
        Self::instanceof(val)
    }
    fn has_type<T: JsCast>(&self) -> bool {
        T::is_type_of(self.as_ref())
    }
    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        if self.has_type::<T>() {
            Ok(self.unchecked_into())
        } else {
            Err(self)
        }
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        if self.has_type::<T>() {
            Some(self.unchecked_ref())
        } else {
            None
        }
    }
    fn unchecked_into<T: JsCast>(self) -> T {
        T::unchecked_from_js(self.into())
    }
    fn unchecked_ref<T: JsCast>(&self) -> &T {
        T::unchecked_from_js_ref(self.as_ref())
    }
}
impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool {
        true
    }
    fn unchecked_from_js(val: JsValue) -> Self {
        val
    }
    fn unchecked_from_js_ref(val: &JsValue) -> &Self {
        val
    }
}
pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}
/// strings are not cached
pub fn intern(s: &str) -> &str {
    s
}
pub mod prelude {
    pub use crate::{JsCast, JsValue, UnwrapThrowExt};
}
