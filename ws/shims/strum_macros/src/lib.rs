//! Derives of the `strum` crate that the repository uses.
use heck::{ToKebabCase, ToLowerCamelCase, ToShoutySnakeCase, ToSnakeCase, ToTitleCase};
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields, Ident, LitStr};

struct Var {
    id: Ident,
    names: Vec<String>,
    fields: Fields,
}
fn vars(item: &DeriveInput) -> Vec<Var> {
    let mut style = None;
    for a in item.attrs.iter().filter(|a| a.path().is_ident("strum")) {
        let _ = a.parse_nested_meta(|m| {
            if m.path.is_ident("serialize_all") {
                let s: LitStr = m.value()?.parse()?;
                style = Some(s.value());
            }
            Ok(())
        });
    }
    let Data::Enum(e) = &item.data else { panic!("enums only") };
    e.variants
        .iter()
        .map(|v| {
            let mut names = vec![];
            for a in v.attrs.iter().filter(|a| a.path().is_ident("strum")) {
                let _ = a.parse_nested_meta(|m| {
                    if m.path.is_ident("serialize") || m.path.is_ident("to_string") {
                        let s: LitStr = m.value()?.parse()?;
                        names.push(s.value());
                    }
                    Ok(())
                });
            }
            if names.is_empty() {
                let n = v.ident.to_string();
                names.push(match style.as_deref() {
                    None => n,
                    Some("snake_case") => n.to_snake_case(),
                    Some("kebab-case") | Some("kebab_case") => n.to_kebab_case(),
                    Some("lowercase") => n.to_lowercase(),
                    Some("UPPERCASE") => n.to_uppercase(),
                    Some("camelCase") => n.to_lower_camel_case(),
                    Some("SCREAMING_SNAKE_CASE") => n.to_shouty_snake_case(),
                    Some("title_case") => n.to_title_case(),
                    Some(x) => panic!("unsupported style {x}"),
                });
            }
            Var {
                id: v.ident.clone(),
                names,
                fields: v.fields.clone(),
            }
        })
        .collect()
}
fn pat(f: &Fields) -> proc_macro2::TokenStream {
    match f {
        Fields::Unit => quote!(),
        Fields::Unnamed(_) => quote!((..)),
        Fields::Named(_) => quote!({ .. }),
    }
}
fn default_fields(f: &Fields) -> proc_macro2::TokenStream {
    match f {
        Fields::Unit => quote!(),
        Fields::Unnamed(u) => {
            let d = u.unnamed.iter().map(|_| quote!(Default::default()));
            quote!((#(#d),*))
        }
        Fields::Named(n) => {
            let d = n.named.iter().map(|f| {
                let i = &f.ident;
                quote!(#i: Default::default())
            });
            quote!({ #(#d),* })
        }
    }
}

#[proc_macro_derive(Display, attributes(strum))]
pub fn display(i: TokenStream) -> TokenStream {
    let item = parse_macro_input!(i as DeriveInput);
    let n = &item.ident;
    let v = vars(&item);
    let ids = v.iter().map(|v| &v.id);
    let pats = v.iter().map(|v| pat(&v.fields));
    let names = v.iter().map(|v| v.names.iter().max_by_key(|s| s.len()).unwrap());
    quote! {
        impl ::core::fmt::Display for #n {
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                f.pad(match self { #( #n::#ids #pats => #names, )* })
            }
        }
    }
    .into()
}
#[proc_macro_derive(AsRefStr, attributes(strum))]
pub fn as_ref_str(i: TokenStream) -> TokenStream {
    let item = parse_macro_input!(i as DeriveInput);
    let n = &item.ident;
    let v = vars(&item);
    let ids = v.iter().map(|v| &v.id);
    let pats = v.iter().map(|v| pat(&v.fields));
    let names = v.iter().map(|v| v.names.iter().max_by_key(|s| s.len()).unwrap());
    quote! {
        impl ::core::convert::AsRef<str> for #n {
            fn as_ref(&self) -> &str { match self { #( #n::#ids #pats => #names, )* } }
        }
    }
    .into()
}
#[proc_macro_derive(IntoStaticStr, attributes(strum))]
pub fn into_static(i: TokenStream) -> TokenStream {
    let item = parse_macro_input!(i as DeriveInput);
    let n = &item.ident;
    let v = vars(&item);
    let ids: Vec<_> = v.iter().map(|v| &v.id).collect();
    let pats: Vec<_> = v.iter().map(|v| pat(&v.fields)).collect();
    let names: Vec<_> = v.iter().map(|v| v.names.iter().max_by_key(|s| s.len()).unwrap()).collect();
    quote! {
        impl From<#n> for &'static str {
            fn from(x: #n) -> &'static str { match x { #( #n::#ids #pats => #names, )* } }
        }
        impl<'a> From<&'a #n> for &'static str {
            fn from(x: &'a #n) -> &'static str { match x { #( #n::#ids #pats => #names, )* } }
        }
    }
    .into()
}
#[proc_macro_derive(EnumString, attributes(strum))]
pub fn enum_string(i: TokenStream) -> TokenStream {
    let item = parse_macro_input!(i as DeriveInput);
    let n = &item.ident;
    let v = vars(&item);
    let arms = v.iter().map(|v| {
        let id = &v.id;
        let names = &v.names;
        let d = default_fields(&v.fields);
        quote!(#( #names )|* => Ok(#n::#id #d),)
    });
    quote! {
        impl ::core::str::FromStr for #n {
            type Err = ::strum::ParseError;
            fn from_str(s: &str) -> ::core::result::Result<Self, Self::Err> {
                match s { #(#arms)* _ => Err(::strum::ParseError::VariantNotFound) }
            }
        }
        impl ::core::convert::TryFrom<&str> for #n {
            type Error = ::strum::ParseError;
            fn try_from(s: &str) -> ::core::result::Result<Self, Self::Error> { s.parse() }
        }
    }
    .into()
}
#[proc_macro_derive(EnumIter, attributes(strum))]
pub fn enum_iter(i: TokenStream) -> TokenStream {
    let item = parse_macro_input!(i as DeriveInput);
    let n = &item.ident;
    let v = vars(&item);
    let items = v.iter().map(|v| {
        let id = &v.id;
        let d = default_fields(&v.fields);
        quote!(#n::#id #d)
    });
    quote! {
        impl ::strum::IntoEnumIterator for #n where #n: Clone {
            type Iterator = std::vec::IntoIter<#n>;
            fn iter() -> Self::Iterator { vec![#(#items),*].into_iter() }
        }
    }
    .into()
}
#[proc_macro_derive(VariantNames, attributes(strum))]
pub fn variant_names(i: TokenStream) -> TokenStream {
    let item = parse_macro_input!(i as DeriveInput);
    let n = &item.ident;
    let v = vars(&item);
    let names = v.iter().map(|v| &v.names[0]);
    quote! { impl ::strum::VariantNames for #n { const VARIANTS: &'static [&'static str] = &[#(#names),*]; } }.into()
}
#[proc_macro_derive(EnumVariantNames, attributes(strum))]
pub fn enum_variant_names(i: TokenStream) -> TokenStream {
    variant_names(i)
}
#[proc_macro_derive(EnumCount, attributes(strum))]
pub fn enum_count(i: TokenStream) -> TokenStream {
    let item = parse_macro_input!(i as DeriveInput);
    let n = &item.ident;
    let c = vars(&item).len();
    quote! { impl ::strum::EnumCount for #n { const COUNT: usize = #c; } }.into()
}
