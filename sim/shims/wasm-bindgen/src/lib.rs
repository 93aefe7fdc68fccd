//! JavaScript values without a JavaScript host.
use std::cell::RefCell;
use std::rc::Rc;

pub use wasm_bindgen_macro::wasm_bindgen;

pub mod prelude {
	pub use crate::{wasm_bindgen, JsValue};
}

#[derive(Clone, Debug)]
pub enum JsValue {
	Undefined,
	Null,
	Text(String),
	Error(String),
	/// A typed array, or a buffer over the same memory.
	Bytes(Rc<RefCell<Vec<u8>>>),
}

impl JsValue {
	pub const UNDEFINED: JsValue = JsValue::Undefined;
	pub const NULL: JsValue = JsValue::Null;

	pub fn undefined() -> JsValue { JsValue::Undefined }
	pub fn null() -> JsValue { JsValue::Null }
	pub fn is_undefined(&self) -> bool { matches!(self, JsValue::Undefined) }
	pub fn is_null(&self) -> bool { matches!(self, JsValue::Null) }
	pub fn as_string(&self) -> Option<String> {
		match self {
			JsValue::Text(s) => Some(s.clone()),
			_ => None,
		}
	}
	pub fn from_str(s: &str) -> JsValue { JsValue::Text(s.to_string()) }
}

impl From<&str> for JsValue {
	fn from(s: &str) -> Self { JsValue::Text(s.to_string()) }
}
impl From<String> for JsValue {
	fn from(s: String) -> Self { JsValue::Text(s) }
}
impl From<&JsValue> for JsValue {
	fn from(s: &JsValue) -> Self { s.clone() }
}
impl AsRef<JsValue> for JsValue {
	fn as_ref(&self) -> &JsValue { self }
}

/// A function of the host that is imported: constructors from one value give that value.
pub fn call(name: &str, args: &[JsValue]) -> JsValue {
	match (name, args) {
		("from", [v]) => v.clone(),
		_ => {
			simrt::log(format!("console {name} {args:?}"));
			JsValue::Undefined
		}
	}
}
