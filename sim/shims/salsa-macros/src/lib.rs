use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Fields, FnArg, Item, ItemFn, ItemStruct, Pat, ReturnType};

#[proc_macro_attribute]
pub fn db(args: TokenStream, input: TokenStream) -> TokenStream {
	let jars = parse_macro_input!(args with syn::punctuated::Punctuated::<syn::Path, syn::Token![,]>::parse_terminated);
	let item = parse_macro_input!(input as ItemStruct);
	let name = &item.ident;
	let jars: Vec<_> = jars.into_iter().collect();
	quote! {
		#item
		impl ::salsa::HasStore for #name {
			fn store(&self) -> &::salsa::Store { self.storage.store() }
		}
		#(impl ::salsa::DbWithJar<#jars> for #name {})*
	}
	.into()
}

#[proc_macro_attribute]
pub fn jar(_args: TokenStream, input: TokenStream) -> TokenStream {
	let item = parse_macro_input!(input as ItemStruct);
	let (name, vis) = (&item.ident, &item.vis);
	quote! { #vis struct #name; }.into()
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
	Input,
	Tracked,
	Interned,
}

fn data_struct(kind: Kind, item: ItemStruct) -> TokenStream {
	let (name, vis) = (&item.ident, &item.vis);
	let attrs: Vec<_> = item.attrs.iter().filter(|a| a.path.is_ident("doc")).collect();
	let fields = match &item.fields {
		Fields::Named(f) => f.named.iter().cloned().collect::<Vec<_>>(),
		_ => panic!("named fields expected"),
	};
	let idents: Vec<_> = fields.iter().map(|f| f.ident.clone().unwrap()).collect();
	let types: Vec<_> = fields.iter().map(|f| f.ty.clone()).collect();
	let create = match kind {
		Kind::Interned => quote! { store.intern::<#name, (#(#types,)*)>((#(#idents,)*)) },
		_ => quote! { store.create::<(#(#types,)*)>((#(#idents,)*)) },
	};
	let mut methods = Vec::new();
	for (i, f) in fields.iter().enumerate() {
		let idx = syn::Index::from(i);
		let (id, ty, fvis) = (f.ident.as_ref().unwrap(), &f.ty, &f.vis);
		let by_ref = f.attrs.iter().any(|a| a.path.is_ident("return_ref"));
		if by_ref {
			methods.push(quote! {
				#fvis fn #id<'db, DB: ?Sized + ::salsa::HasStore>(self, db: &'db DB) -> &'db #ty {
					&::salsa::HasStore::store(db).fields::<(#(#types,)*)>(self.0).#idx
				}
			});
		} else {
			methods.push(quote! {
				#fvis fn #id<DB: ?Sized + ::salsa::HasStore>(self, db: &DB) -> #ty {
					::core::clone::Clone::clone(&::salsa::HasStore::store(db).fields::<(#(#types,)*)>(self.0).#idx)
				}
			});
		}
		if kind == Kind::Input {
			let set = format_ident!("set_{}", id);
			methods.push(quote! {
				#fvis fn #set<'db, DB: ?Sized + ::salsa::HasStore>(self, db: &'db mut DB) -> ::salsa::Setter<'db, (#(#types,)*), #ty> {
					::salsa::Setter::new(::salsa::HasStore::store(db), self.0, |f, v| ::core::mem::replace(&mut f.#idx, v))
				}
			});
		}
	}
	quote! {
		#(#attrs)*
		#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
		#vis struct #name(u32);
		impl ::core::fmt::Debug for #name {
			fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
				::salsa::fmt_id(::core::stringify!(#name), self.0, f)
			}
		}
		impl ::salsa::AsId for #name {
			fn as_id(&self) -> u32 { self.0 }
		}
		#[allow(dead_code, clippy::all)]
		impl #name {
			pub fn new<DB: ?Sized + ::salsa::HasStore>(db: &DB, #(#idents: #types),*) -> Self {
				let store = ::salsa::HasStore::store(db);
				#name(#create)
			}
			#(#methods)*
		}
	}
	.into()
}

#[proc_macro_attribute]
pub fn input(_args: TokenStream, input: TokenStream) -> TokenStream {
	data_struct(Kind::Input, parse_macro_input!(input as ItemStruct))
}

#[proc_macro_attribute]
pub fn interned(_args: TokenStream, input: TokenStream) -> TokenStream {
	data_struct(Kind::Interned, parse_macro_input!(input as ItemStruct))
}

#[proc_macro_attribute]
pub fn accumulator(_args: TokenStream, input: TokenStream) -> TokenStream {
	let item = parse_macro_input!(input as ItemStruct);
	let (name, vis) = (&item.ident, &item.vis);
	let ty = match &item.fields {
		Fields::Unnamed(f) => f.unnamed[0].ty.clone(),
		_ => panic!("a tuple struct is expected"),
	};
	quote! {
		#vis struct #name;
		impl ::salsa::Accumulator for #name { type Data = #ty; }
		impl #name {
			pub fn push<DB: ?Sized + ::salsa::HasStore>(db: &DB, value: #ty) {
				::salsa::HasStore::store(db).push::<#name>(value)
			}
		}
	}
	.into()
}

#[proc_macro_attribute]
pub fn tracked(args: TokenStream, input: TokenStream) -> TokenStream {
	let item = parse_macro_input!(input as Item);
	match item {
		Item::Struct(s) => data_struct(Kind::Tracked, s),
		Item::Fn(f) => tracked_fn(args.to_string().contains("return_ref"), f),
		_ => panic!("a struct or a function is expected"),
	}
}

fn tracked_fn(return_ref: bool, f: ItemFn) -> TokenStream {
	let (vis, sig, block) = (&f.vis, &f.sig, &f.block);
	let name = &sig.ident;
	let attrs: Vec<_> = f.attrs.iter().filter(|a| a.path.is_ident("doc")).collect();
	let ret = match &sig.output {
		ReturnType::Type(_, t) => quote! { #t },
		ReturnType::Default => quote! { () },
	};
	let mut inputs = sig.inputs.iter();
	let db_ty = match inputs.next() {
		Some(FnArg::Typed(t)) => match &*t.ty {
			syn::Type::Reference(r) => (*r.elem).clone(),
			_ => panic!("the database is passed by reference"),
		},
		_ => panic!("the first argument is the database"),
	};
	let (mut names, mut types) = (Vec::new(), Vec::new());
	for a in inputs {
		match a {
			FnArg::Typed(t) => {
				names.push(match &*t.pat {
					Pat::Ident(i) => i.ident.clone(),
					_ => panic!("a plain argument name is expected"),
				});
				types.push((*t.ty).clone());
			}
			_ => panic!("unexpected receiver"),
		}
	}
	let mut inner = sig.clone();
	inner.ident = format_ident!("__{}_inner", name);
	let inner_name = &inner.ident;
	let (out, conv) = if return_ref {
		(quote! { &'db #ret }, quote! { value })
	} else {
		(quote! { #ret }, quote! { ::core::clone::Clone::clone(value) })
	};
	quote! {
		#(#attrs)*
		#vis fn #name<'db>(db: &'db #db_ty, #(#names: #types),*) -> #out {
			#inner #block
			let value: &#ret = ::salsa::HasStore::store(db)
				.memoised::<#name::Marker, #ret>(::std::vec![#(::salsa::AsId::as_id(&#names)),*], || #inner_name(db, #(#names),*));
			#conv
		}
		#[doc(hidden)]
		#vis mod #name {
			#[allow(unused_imports)]
			use super::*;
			pub struct Marker;
			#[allow(dead_code)]
			pub fn accumulated<ACC: ::salsa::Accumulator + 'static>(db: &#db_ty, #(#names: #types),*) -> ::std::vec::Vec<ACC::Data> {
				let _ = super::#name(db, #(#names),*);
				::salsa::HasStore::store(db).accumulated::<Marker, ACC>(::std::vec![#(::salsa::AsId::as_id(&#names)),*])
			}
		}
	}
	.into()
}
