//! Values of an emulated JavaScript host, with the names the real crate has.

use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Object {
    pub class: &'static str,
    /// name, value, enumerable
    pub properties: Vec<(String, JsValue, bool)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum JsValue {
    Undefined,
    Null,
    Bool(bool),
    Number(f64),
    Text(String),
    Array(Rc<RefCell<Vec<JsValue>>>),
    Object(Rc<RefCell<Object>>),
}

#[allow(non_upper_case_globals)]
impl JsValue {
    pub const NULL: JsValue = JsValue::Null;
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const TRUE: JsValue = JsValue::Bool(true);
    pub const FALSE: JsValue = JsValue::Bool(false);
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> JsValue {
        JsValue::Text(s.to_string())
    }
    pub fn from_f64(n: f64) -> JsValue {
        JsValue::Number(n)
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue::Bool(b)
    }
    pub fn null() -> JsValue {
        JsValue::Null
    }
    pub fn undefined() -> JsValue {
        JsValue::Undefined
    }
    pub fn object(class: &'static str) -> JsValue {
        JsValue::Object(Rc::new(RefCell::new(Object { class, properties: vec![] })))
    }
    pub fn as_string(&self) -> Option<String> {
        match self {
            JsValue::Text(t) => Some(t.clone()),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self {
            JsValue::Number(n) => Some(*n),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self {
            JsValue::Bool(b) => Some(*b),
            _ => None,
        }
    }
    pub fn is_undefined(&self) -> bool {
        *self == JsValue::Undefined
    }
    pub fn is_null(&self) -> bool {
        *self == JsValue::Null
    }
    pub fn is_string(&self) -> bool {
        matches!(self, JsValue::Text(_))
    }
    pub fn is_object(&self) -> bool {
        matches!(self, JsValue::Object(_) | JsValue::Array(_))
    }
    pub fn is_truthy(&self) -> bool {
        match self {
            JsValue::Undefined | JsValue::Null => false,
            JsValue::Bool(b) => *b,
            JsValue::Number(n) => *n != 0.0 && !n.is_nan(),
            JsValue::Text(t) => !t.is_empty(),
            _ => true,
        }
    }
    /// Assigns a property; an existing one keeps its attributes, as assignment does.
    pub fn assign(&self, name: &str, value: JsValue, enumerable: bool) -> bool {
        let JsValue::Object(o) = self else { return false };
        let mut o = o.borrow_mut();
        match o.properties.iter_mut().find(|p| p.0 == name) {
            Some(p) => p.1 = value,
            None => o.properties.push((name.to_string(), value, enumerable)),
        }
        true
    }
    pub fn property(&self, name: &str) -> Option<JsValue> {
        let JsValue::Object(o) = self else { return None };
        o.borrow().properties.iter().find(|p| p.0 == name).map(|p| p.1.clone())
    }
}

impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        JsValue::Text(s.to_string())
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        JsValue::Text(s)
    }
}
impl From<&String> for JsValue {
    fn from(s: &String) -> Self {
        JsValue::Text(s.clone())
    }
}
impl From<bool> for JsValue {
    fn from(b: bool) -> Self {
        JsValue::Bool(b)
    }
}
macro_rules! number {
    ($($t:ty),*) => { $(impl From<$t> for JsValue {
        fn from(n: $t) -> Self { JsValue::Number(n as f64) }
    })* };
}
number!(f64, f32, u8, i8, u16, i16, u32, i32, usize);
impl<T: Into<JsValue>> From<Option<T>> for JsValue {
    fn from(o: Option<T>) -> Self {
        o.map_or(JsValue::Undefined, Into::into)
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}

#[derive(Clone, Debug)]
pub struct JsError(JsValue);

impl JsError {
    pub fn new(message: &str) -> JsError {
        let o = JsValue::object("Error");
        o.assign("message", message.into(), false);
        JsError(o)
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> Self {
        e.0
    }
}
impl<E: std::error::Error> From<E> for JsError {
    fn from(e: E) -> Self {
        JsError::new(&e.to_string())
    }
}

pub trait JsCast: AsRef<JsValue> + Into<JsValue> {}
impl JsCast for JsValue {}

pub trait UnwrapThrowExt<T> {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}

pub fn throw_str(s: &str) -> ! {
    panic!("thrown: {s}")
}

pub mod prelude {
    pub use crate::{JsCast, JsError, JsValue, UnwrapThrowExt};
    pub use emulated_bindgen_macro::wasm_bindgen;
}
