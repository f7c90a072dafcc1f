//! `#[derive(Validate)]` with `custom(function = "...")` only.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, LitStr, Path};

#[proc_macro_derive(Validate, attributes(validate))]
pub fn validate(i: TokenStream) -> TokenStream {
    let item = parse_macro_input!(i as DeriveInput);
    let n = &item.ident;
    let Data::Struct(s) = &item.data else { panic!("structs only") };
    let mut checks = vec![];
    for f in &s.fields {
        let id = f.ident.as_ref().expect("named fields");
        let name = id.to_string();
        for a in f.attrs.iter().filter(|a| a.path().is_ident("validate")) {
            a.parse_nested_meta(|m| {
                if m.path.is_ident("custom") {
                    m.parse_nested_meta(|m| {
                        let v = m.value()?;
                        let p: Path = if v.peek(LitStr) { v.parse::<LitStr>()?.parse()? } else { v.parse()? };
                        checks.push(quote!(if let Err(e) = #p(&self.#id) { errors.add(#name, e); }));
                        Ok(())
                    })
                } else {
                    Err(m.error("unsupported validation"))
                }
            })
            .expect("validate attribute");
        }
    }
    quote! {
        impl ::validator::Validate for #n {
            fn validate(&self) -> Result<(), ::validator::ValidationErrors> {
                let mut errors = ::validator::ValidationErrors::new();
                #(#checks)*
                if errors.is_empty() { Ok(()) } else { Err(errors) }
            }
        }
    }
    .into()
}
