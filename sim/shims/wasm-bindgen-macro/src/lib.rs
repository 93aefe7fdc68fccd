//! `#[wasm_bindgen]` without a JavaScript host: items stay what they are, and imported ones become stand-ins.
use proc_macro::TokenStream;
use quote::{quote, ToTokens};
use syn::{FnArg, ForeignItem, Item};

#[proc_macro_attribute]
pub fn wasm_bindgen(_args: TokenStream, input: TokenStream) -> TokenStream {
	let copy = input.clone();
	let Ok(item) = syn::parse::<Item>(input) else { return copy };
	let Item::ForeignMod(m) = item else { return copy };
	let mut out = quote! {};
	for i in m.items {
		match i {
			ForeignItem::Type(t) => {
				let (vis, name, attrs) = (t.vis, t.ident, t.attrs.into_iter().filter(|a| a.path.is_ident("doc")));
				out.extend(quote! {
					#(#attrs)*
					#[derive(Clone, Debug)]
					#vis struct #name(::wasm_bindgen::JsValue);
					impl ::core::ops::Deref for #name {
						type Target = ::wasm_bindgen::JsValue;
						fn deref(&self) -> &::wasm_bindgen::JsValue { &self.0 }
					}
					impl From<::wasm_bindgen::JsValue> for #name {
						fn from(v: ::wasm_bindgen::JsValue) -> Self { #name(v) }
					}
				});
			}
			ForeignItem::Fn(f) => {
				let (vis, sig) = (f.vis, f.sig);
				let name = sig.ident.to_string();
				let args: Vec<_> = sig.inputs.iter().filter_map(|a| if let FnArg::Typed(p) = a { Some(&p.pat) } else { None }).collect();
				let of = f.attrs.iter().find_map(|a| {
					let t = a.tokens.to_string();
					t.split("static_method_of =").nth(1).map(|r| syn::Ident::new(r.trim().trim_end_matches(')').split(',').next().unwrap().trim(), sig.ident.span()))
				});
				let out_ty = &sig.output;
				let body = match out_ty {
					syn::ReturnType::Default => quote! { ::wasm_bindgen::call(#name, &[#(::wasm_bindgen::JsValue::from(#args)),*]); },
					syn::ReturnType::Type(..) => quote! { ::wasm_bindgen::call(#name, &[#(::wasm_bindgen::JsValue::from(#args)),*]).into() },
				};
				let f = quote! { #vis #sig { #body } };
				out.extend(match of {
					Some(t) => quote! { impl #t { #f } },
					None => f,
				});
			}
			other => out.extend(other.to_token_stream()),
		}
	}
	out.into()
}
