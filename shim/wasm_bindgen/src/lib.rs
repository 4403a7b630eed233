//! Stand-in for wasm-bindgen: a `JsValue` is a JSON text, which is what the
//! real one's `from_serde`/`into_serde` pass through `JSON.parse`/`stringify`.
extern crate serde;
extern crate serde_json;
extern crate wasm_bindgen_macro;

pub mod prelude {
    pub use wasm_bindgen_macro::wasm_bindgen;
    pub use JsValue;
}

#[derive(Clone, Debug, PartialEq)]
pub struct JsValue {
    json: String,
}

impl JsValue {
    pub fn from_json(json: String) -> JsValue { JsValue { json: json } }
    pub fn as_json(&self) -> &str { &self.json }

    pub fn from_serde<T: serde::Serialize + ?Sized>(t: &T) -> serde_json::Result<JsValue> {
        Ok(JsValue { json: serde_json::to_string(t)? })
    }
    pub fn into_serde<T: for<'a> serde::Deserialize<'a>>(&self) -> serde_json::Result<T> {
        serde_json::from_str(&self.json)
    }
    pub fn null() -> JsValue { JsValue { json: "null".into() } }
    pub fn undefined() -> JsValue { JsValue { json: "null".into() } }
    pub fn from_bool(b: bool) -> JsValue { b.into() }
    pub fn from_f64(b: f64) -> JsValue { JsValue { json: format!("{}", b) } }
    pub fn from_str(s: &str) -> JsValue { JsValue { json: serde_json::to_string(s).unwrap() } }
}

macro_rules! from_num {
    ($($t:ty),*) => { $( impl From<$t> for JsValue { fn from(x: $t) -> JsValue { JsValue { json: format!("{}", x) } } } )* }
}
from_num!(i8, i16, i32, i64, u8, u16, u32, u64, isize, usize, bool);

impl<'a> From<&'a str> for JsValue { fn from(s: &'a str) -> JsValue { JsValue::from_str(s) } }
impl From<String> for JsValue { fn from(s: String) -> JsValue { JsValue::from_str(&s) } }
