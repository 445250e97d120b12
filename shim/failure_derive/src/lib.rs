//! `#[derive(Fail)]` with `#[fail(display = "...", args)]`.
use proc_macro::TokenStream;
use proc_macro2::TokenStream as T2;
use quote::{format_ident, quote};
use syn::{Attribute, Data, DeriveInput, Fields, Meta};

fn display(attrs: &[Attribute]) -> Option<T2> {
    for a in attrs {
        if !a.path().is_ident("fail") {
            continue;
        }
        if let Meta::List(l) = &a.meta {
            let mut it = l.tokens.clone().into_iter();
            match it.next() {
                Some(t) if t.to_string() == "display" => {}
                _ => continue,
            }
            it.next();
            return Some(it.collect());
        }
    }
    None
}
fn arm(path: T2, name: String, fields: &Fields, attrs: &[Attribute]) -> T2 {
    let d = display(attrs).unwrap_or_else(|| quote!(#name));
    match fields {
        Fields::Unit => quote!(#path => write!(f, #d),),
        Fields::Named(n) => {
            let ids: Vec<_> = n.named.iter().map(|f| f.ident.clone().unwrap()).collect();
            quote!(#path { #(#ids),* } => write!(f, #d),)
        }
        Fields::Unnamed(n) => {
            let ids: Vec<_> = (0..n.unnamed.len()).map(|i| format_ident!("_{}", i)).collect();
            quote!(#path ( #(#ids),* ) => write!(f, #d),)
        }
    }
}
#[proc_macro_derive(Fail, attributes(fail, cause))]
pub fn derive(input: TokenStream) -> TokenStream {
    let i: DeriveInput = syn::parse(input).unwrap();
    let n = &i.ident;
    let arms: Vec<T2> = match &i.data {
        Data::Enum(e) => e
            .variants
            .iter()
            .map(|v| {
                let id = &v.ident;
                arm(quote!(#n::#id), id.to_string(), &v.fields, &v.attrs)
            })
            .collect(),
        Data::Struct(s) => vec![arm(quote!(#n), n.to_string(), &s.fields, &i.attrs)],
        _ => panic!("union"),
    };
    quote! {
        #[allow(unused_variables)]
        impl ::std::fmt::Display for #n {
            fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
                match self { #(#arms)* }
            }
        }
        impl ::failure::Fail for #n {
            fn __any(&self) -> &dyn ::std::any::Any { self }
            fn __into_any(self: Box<Self>) -> Box<dyn ::std::any::Any> { self }
        }
    }
    .into()
}
