use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, DeriveInput, Expr, Lit, Meta};

#[proc_macro_derive(RustEmbed, attributes(folder, prefix, include, exclude))]
pub fn derive(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let (mut folder, mut prefix) = (String::new(), String::new());
    for a in &d.attrs {
        if let Meta::NameValue(nv) = &a.meta {
            if let Expr::Lit(l) = &nv.value {
                if let Lit::Str(s) = &l.lit {
                    if nv.path.is_ident("folder") {
                        folder = s.value();
                    } else if nv.path.is_ident("prefix") {
                        prefix = s.value();
                    }
                }
            }
        }
    }
    let n = &d.ident;
    quote! {
        impl #n {
            pub fn get(path: &str) -> Option<::rust_embed::EmbeddedFile> {
                ::rust_embed::load(concat!(env!("CARGO_MANIFEST_DIR"), "/", #folder), #prefix, path)
            }
        }
    }
    .into()
}
