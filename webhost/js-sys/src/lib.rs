//! The part of the JavaScript standard library the bindings may use, emulated.

use std::cell::RefCell;
use std::rc::Rc;
use wasm_bindgen::JsValue;

macro_rules! class {
    ($name:ident) => {
        #[derive(Clone, Debug, PartialEq)]
        pub struct $name(JsValue);
        impl From<$name> for JsValue {
            fn from(v: $name) -> JsValue {
                v.0
            }
        }
        impl From<JsValue> for $name {
            fn from(v: JsValue) -> $name {
                $name(v)
            }
        }
        impl AsRef<JsValue> for $name {
            fn as_ref(&self) -> &JsValue {
                &self.0
            }
        }
        impl std::ops::Deref for $name {
            type Target = JsValue;
            fn deref(&self) -> &JsValue {
                &self.0
            }
        }
    };
}

macro_rules! errors {
    ($($name:ident),*) => { $(
        class!($name);
        impl $name {
            pub fn new(message: &str) -> $name {
                let o = JsValue::object(stringify!($name));
                // own, but not enumerable
                o.assign("message", message.into(), false);
                $name(o)
            }
            pub fn set_name(&self, name: &str) {
                self.0.assign("name", name.into(), true);
            }
            pub fn set_message(&self, message: &str) {
                self.0.assign("message", message.into(), false);
            }
        }
    )* };
}
errors!(Error, TypeError, RangeError);

class!(JsString);
class!(Object);
class!(Array);

impl Default for Object {
    fn default() -> Self {
        Object::new()
    }
}
impl Object {
    pub fn new() -> Object {
        Object(JsValue::object("Object"))
    }
}
impl Default for Array {
    fn default() -> Self {
        Array::new()
    }
}
impl Array {
    pub fn new() -> Array {
        Array(JsValue::Array(Rc::new(RefCell::new(vec![]))))
    }
    pub fn push(&self, v: &JsValue) -> u32 {
        match &self.0 {
            JsValue::Array(a) => {
                a.borrow_mut().push(v.clone());
                a.borrow().len() as u32
            }
            _ => 0,
        }
    }
}

pub struct Reflect;
impl Reflect {
    pub fn set(target: &JsValue, key: &JsValue, value: &JsValue) -> Result<bool, JsValue> {
        let name = key.as_string().ok_or(JsValue::Undefined)?;
        Ok(target.assign(&name, value.clone(), true))
    }
    pub fn get(target: &JsValue, key: &JsValue) -> Result<JsValue, JsValue> {
        let name = key.as_string().ok_or(JsValue::Undefined)?;
        Ok(target.property(&name).unwrap_or(JsValue::Undefined))
    }
    pub fn has(target: &JsValue, key: &JsValue) -> Result<bool, JsValue> {
        let name = key.as_string().ok_or(JsValue::Undefined)?;
        Ok(target.property(&name).is_some())
    }
}

fn quoted(s: &str) -> String {
    let mut t = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => t.push_str("\\\""),
            '\\' => t.push_str("\\\\"),
            '\n' => t.push_str("\\n"),
            '\r' => t.push_str("\\r"),
            '\t' => t.push_str("\\t"),
            c if (c as u32) < 32 => t.push_str(&format!("\\u{:04x}", c as u32)),
            c => t.push(c),
        }
    }
    t.push('"');
    t
}

/// JSON.stringify: enumerable properties only, undefined ones left out.
pub fn stringify(v: &JsValue) -> Option<String> {
    Some(match v {
        JsValue::Undefined => return None,
        JsValue::Null => "null".into(),
        JsValue::Bool(b) => b.to_string(),
        JsValue::Number(n) if n.is_finite() => n.to_string(),
        JsValue::Number(_) => "null".into(),
        JsValue::Text(t) => quoted(t),
        JsValue::Array(a) => {
            let parts: Vec<String> = a.borrow().iter().map(|v| stringify(v).unwrap_or_else(|| "null".into())).collect();
            format!("[{}]", parts.join(","))
        }
        JsValue::Object(o) => {
            let parts: Vec<String> =
                o.borrow().properties.iter().filter(|p| p.2).filter_map(|p| Some(format!("{}:{}", quoted(&p.0), stringify(&p.1)?))).collect();
            format!("{{{}}}", parts.join(","))
        }
    })
}

pub struct JSON;
impl JSON {
    pub fn stringify(v: &JsValue) -> Result<JsString, JsValue> {
        Ok(JsString(stringify(v).map_or(JsValue::Undefined, JsValue::Text)))
    }
}
