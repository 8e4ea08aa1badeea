//! `#[derive(Dump)]`: what a struct looks like when the derives run, as text.
use proc_macro::TokenStream;
use quote::{quote, ToTokens};

fn one(t: impl ToTokens) -> String {
    t.to_token_stream().to_string()
}

#[proc_macro_derive(Dump, attributes(account, instruction))]
pub fn dump(item: TokenStream) -> TokenStream {
    let i = syn::parse_macro_input!(item as syn::ItemStruct);
    let name = &i.ident;
    let (ig, tg, wc) = i.generics.split_for_impl();
    let attrs: Vec<String> = i.attrs.iter().map(one).collect();
    let generics = one(&i.generics);
    let fields: Vec<_> = i
        .fields
        .iter()
        .map(|f| {
            let n = f.ident.as_ref().map(|x| x.to_string()).unwrap_or_default();
            let t = one(&f.ty);
            let a: Vec<String> = f.attrs.iter().map(one).collect();
            let v = one(&f.vis);
            quote! { (#n, #t, #v, &[#(#a),*]) }
        })
        .collect();
    quote! {
        impl #ig #name #tg #wc {
            pub const DUMP: (&'static str, &'static [&'static str], &'static [(&'static str, &'static str, &'static str, &'static [&'static str])]) =
                (#generics, &[#(#attrs),*], &[#(#fields),*]);
        }
    }
    .into()
}
