//! The JavaScript built-ins that the module uses.
use std::cell::RefCell;
use std::ops::Deref;
use std::rc::Rc;
use wasm_bindgen::JsValue;

#[derive(Clone, Debug)]
pub struct Uint8Array(JsValue);

impl Uint8Array {
	/// From a length, or as a copy of other bytes.
	pub fn new(from: &JsValue) -> Self {
		let bytes = match from {
			JsValue::Bytes(b) => b.borrow().clone(),
			_ => vec![],
		};
		Uint8Array(JsValue::Bytes(Rc::new(RefCell::new(bytes))))
	}
	pub fn new_with_length(n: u32) -> Self { Uint8Array(JsValue::Bytes(Rc::new(RefCell::new(vec![0; n as usize])))) }
	fn bytes(&self) -> &Rc<RefCell<Vec<u8>>> {
		match &self.0 {
			JsValue::Bytes(b) => b,
			_ => unreachable!(),
		}
	}
	pub fn length(&self) -> u32 { self.bytes().borrow().len() as u32 }
	pub fn set_index(&self, i: u32, v: u8) { self.bytes().borrow_mut()[i as usize] = v }
	pub fn get_index(&self, i: u32) -> u8 { self.bytes().borrow()[i as usize] }
	pub fn byte_length(&self) -> u32 { self.length() }
	pub fn to_vec(&self) -> Vec<u8> { self.bytes().borrow().clone() }
	/// Both must have the same length.
	pub fn copy_from(&self, src: &[u8]) { self.bytes().borrow_mut().copy_from_slice(src) }
	pub fn copy_to(&self, dst: &mut [u8]) { dst.copy_from_slice(&self.bytes().borrow()) }
}
impl From<&[u8]> for Uint8Array {
	fn from(b: &[u8]) -> Self { Uint8Array(JsValue::Bytes(Rc::new(RefCell::new(b.to_vec())))) }
}
impl Deref for Uint8Array {
	type Target = JsValue;
	fn deref(&self) -> &JsValue { &self.0 }
}
impl From<Uint8Array> for JsValue {
	fn from(a: Uint8Array) -> JsValue { a.0 }
}
impl From<&Uint8Array> for JsValue {
	fn from(a: &Uint8Array) -> JsValue { a.0.clone() }
}

#[derive(Clone)]
pub struct Function(pub Rc<dyn Fn(&JsValue) -> Result<JsValue, JsValue>>);

impl Function {
	pub fn call0(&self, _this: &JsValue) -> Result<JsValue, JsValue> { (self.0)(&JsValue::Undefined) }
	pub fn call2(&self, _this: &JsValue, arg: &JsValue, _: &JsValue) -> Result<JsValue, JsValue> { (self.0)(arg) }
	pub fn call1(&self, _this: &JsValue, arg: &JsValue) -> Result<JsValue, JsValue> { (self.0)(arg) }
}

pub struct Error(JsValue);
impl Error {
	pub fn new(text: &str) -> Self { Error(JsValue::Error(text.to_string())) }
}
impl From<Error> for JsValue {
	fn from(e: Error) -> JsValue { e.0 }
}
