//! Objects of the emulated host from serializable values.

use serde::Serialize;
use std::cell::RefCell;
use std::rc::Rc;
use wasm_bindgen::JsValue;

#[derive(Debug)]
pub struct Error(String);

impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl From<Error> for JsValue {
    fn from(e: Error) -> JsValue {
        wasm_bindgen::JsError::new(&e.0).into()
    }
}

fn convert(v: &serde_json::Value) -> Result<JsValue, Error> {
    use serde_json::Value as V;
    Ok(match v {
        // the real serializer writes missing values as undefined
        V::Null => JsValue::Undefined,
        V::Bool(b) => JsValue::Bool(*b),
        V::Number(n) => {
            let f = n.as_f64().ok_or_else(|| Error("number".into()))?;
            if !n.is_f64() && f.abs() > 9007199254740991.0 {
                return Err(Error(format!("{n} can't be represented as a JavaScript number")));
            }
            JsValue::Number(f)
        }
        V::String(t) => JsValue::Text(t.clone()),
        V::Array(a) => JsValue::Array(Rc::new(RefCell::new(a.iter().map(convert).collect::<Result<_, _>>()?))),
        V::Object(o) => {
            let r = JsValue::object("Object");
            for (k, v) in o {
                r.assign(k, convert(v)?, true);
            }
            r
        }
    })
}

pub fn to_value<T: Serialize + ?Sized>(v: &T) -> Result<JsValue, Error> {
    convert(&serde_json::to_value(v).map_err(|e| Error(e.to_string()))?)
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Serializer;

impl Serializer {
    pub fn new() -> Self {
        Serializer
    }
    pub fn json_compatible() -> Self {
        Serializer
    }
    pub fn serialize_maps_as_objects(self, _v: bool) -> Self {
        self
    }
    pub fn serialize_missing_as_null(self, _v: bool) -> Self {
        self
    }
    pub fn serialize_large_number_types_as_bigints(self, _v: bool) -> Self {
        self
    }
}
