use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::parse::{Parse, ParseStream};
use syn::{Attribute, Ident, LitStr, Token, Type};

struct Flag {
	kind: String,
	short: Option<char>,
	long: String,
	value: Option<(Ident, Type)>,
}
struct Cmd {
	name: String,
	default: bool,
	flags: Vec<Flag>,
	subs: Vec<Cmd>,
}

fn dashed(i: ParseStream) -> syn::Result<String> {
	use syn::ext::IdentExt;
	let mut s = Ident::parse_any(i)?.to_string();
	while i.peek(Token![-]) {
		i.parse::<Token![-]>()?;
		s += "-";
		s += &Ident::parse_any(i)?.to_string();
	}
	Ok(s)
}

impl Parse for Cmd {
	fn parse(i: ParseStream) -> syn::Result<Cmd> {
		i.call(Attribute::parse_outer)?;
		let mut word: Ident = i.call(syn::ext::IdentExt::parse_any)?;
		let mut default = false;
		if word == "default" {
			default = true;
			word = i.call(syn::ext::IdentExt::parse_any)?;
		}
		if word != "cmd" {
			return Err(i.error("cmd expected"));
		}
		let mut c = Cmd { name: dashed(i)?, default, flags: vec![], subs: vec![] };
		let b;
		syn::braced!(b in i);
		while !b.is_empty() {
			let f = b.fork();
			f.call(Attribute::parse_outer)?;
			let w: Ident = f.call(syn::ext::IdentExt::parse_any)?;
			if w == "cmd" || w == "default" {
				c.subs.push(b.parse()?);
				continue;
			}
			b.call(Attribute::parse_outer)?;
			let kind: Ident = b.parse()?;
			let mut short = None;
			b.parse::<Token![-]>()?;
			if !b.peek(Token![-]) {
				let s: Ident = b.call(syn::ext::IdentExt::parse_any)?;
				short = s.to_string().chars().next();
				b.parse::<Token![,]>()?;
				b.parse::<Token![-]>()?;
			}
			b.parse::<Token![-]>()?;
			let long = dashed(&b)?;
			let value = if b.peek(Ident) && b.peek2(Token![:]) {
				let n: Ident = b.parse()?;
				b.parse::<Token![:]>()?;
				Some((n, b.parse()?))
			} else {
				None
			};
			c.flags.push(Flag { kind: kind.to_string(), short, long, value });
		}
		Ok(c)
	}
}
struct Top(Cmd);
impl Parse for Top {
	fn parse(i: ParseStream) -> syn::Result<Top> {
		if i.peek(Ident) && i.fork().parse::<Ident>()? == "src" {
			i.parse::<Ident>()?;
			i.parse::<LitStr>()?;
		}
		Ok(Top(i.parse()?))
	}
}
fn camel(s: &str) -> String {
	s.split('-')
		.map(|w| {
			let mut c = w.chars();
			c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
		})
		.collect()
}
fn fields(c: &Cmd, n: usize) -> Vec<proc_macro2::TokenStream> {
	c.flags
		.iter()
		.map(|f| {
			let id = format_ident!("{}", f.long.replace('-', "_"));
			let l = &f.long;
			match (&f.value, f.kind.as_str()) {
				(None, _) => quote! { #id: p.switch(#n, #l) },
				(Some((_, t)), "required") => quote! { #id: p.req::<#t>(#n, #l)? },
				(Some((_, t)), "repeated") => quote! { #id: p.all::<#t>(#n, #l)? },
				(Some((_, t)), _) => quote! { #id: p.opt::<#t>(#n, #l)? },
			}
		})
		.collect()
}

#[proc_macro]
pub fn xflags(i: TokenStream) -> TokenStream {
	let Top(c) = syn::parse_macro_input!(i as Top);
	let name = format_ident!("{}", camel(&c.name));
	let mut specs = vec![];
	let mut add = |c: &Cmd, n: usize| {
		for f in &c.flags {
			let (l, v, r, m) = (&f.long, f.value.is_some(), f.kind == "required", f.kind == "repeated");
			let s = match f.short {
				Some(x) => quote! { ::core::option::Option::Some(#x) },
				None => quote! { ::core::option::Option::None },
			};
			specs.push(quote! { ::xflags::rt::Flag { cmd: #n, long: #l, short: #s, value: #v, required: #r, repeated: #m } });
		}
	};
	add(&c, 0);
	for (k, s) in c.subs.iter().enumerate() {
		add(s, k + 1);
	}
	let subs = c.subs.iter().map(|s| {
		let (n, d) = (&s.name, s.default);
		quote! { (#n, #d) }
	});
	let own = fields(&c, 0);
	let sub = if c.subs.is_empty() {
		quote! {}
	} else {
		let en = format_ident!("{}Cmd", camel(&c.name));
		let arms = c.subs.iter().enumerate().map(|(k, s)| {
			let sn = format_ident!("{}", camel(&s.name));
			let ff = fields(s, k + 1);
			quote! { ::core::option::Option::Some(#k) => #en::#sn(#sn { #(#ff),* }) }
		});
		quote! { subcommand: match p.sub { #(#arms,)* _ => ::core::unreachable!() }, }
	};
	quote! {
		#[allow(dead_code)]
		impl #name {
			fn from_env_or_exit_() -> Self {
				match Self::from_env_() {
					Ok(x) => x,
					Err(e) => { ::std::eprintln!("{}", e); ::std::process::exit(2) }
				}
			}
			fn from_env_() -> ::xflags::Result<Self> { Self::from_vec_(::xflags::rt::env_args()) }
			fn from_vec_(args: ::std::vec::Vec<::std::ffi::OsString>) -> ::xflags::Result<Self> {
				let spec = ::xflags::rt::Spec { flags: ::std::vec![#(#specs),*], subs: ::std::vec![#(#subs),*] };
				#[allow(unused_mut)]
				let mut p = ::xflags::rt::parse(&spec, args)?;
				::core::result::Result::Ok(Self { #sub #(#own),* })
			}
		}
	}
	.into()
}
