use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, ItemFn};

fn wrap(input: ItemFn, test: bool) -> TokenStream {
	let ItemFn { attrs, vis, mut sig, block } = input;
	sig.asyncness = None;
	let t = if test { quote! { #[::core::prelude::v1::test] } } else { quote! {} };
	quote! {
		#t
		#(#attrs)*
		#vis #sig {
			::tokio::__sim::run_main(async #block)
		}
	}
	.into()
}
#[proc_macro_attribute]
pub fn main(_: TokenStream, i: TokenStream) -> TokenStream { wrap(parse_macro_input!(i as ItemFn), false) }
#[proc_macro_attribute]
pub fn test(_: TokenStream, i: TokenStream) -> TokenStream { wrap(parse_macro_input!(i as ItemFn), true) }
