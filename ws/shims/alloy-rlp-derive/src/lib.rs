use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Attribute, Data, DeriveInput, Fields, Index};

fn has(attrs: &[Attribute], key: &str) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("rlp")
            && a.meta
                .require_list()
                .map(|l| l.tokens.to_string().contains(key))
                .unwrap_or(false)
    })
}

fn fields(input: &DeriveInput) -> Vec<(syn::Member, syn::Field)> {
    let Data::Struct(s) = &input.data else {
        panic!("only structs are supported")
    };
    match &s.fields {
        Fields::Named(n) => n
            .named
            .iter()
            .map(|f| (syn::Member::Named(f.ident.clone().unwrap()), f.clone()))
            .collect(),
        Fields::Unnamed(n) => n
            .unnamed
            .iter()
            .enumerate()
            .map(|(i, f)| (syn::Member::Unnamed(Index::from(i)), f.clone()))
            .collect(),
        Fields::Unit => vec![],
    }
}

fn bounded(input: &DeriveInput, tr: proc_macro2::TokenStream) -> syn::Generics {
    let mut g = input.generics.clone();
    for p in g.type_params_mut() {
        let b: syn::TypeParamBound = syn::parse2(tr.clone()).unwrap();
        p.bounds.push(b);
    }
    g
}

#[proc_macro_derive(RlpEncodable, attributes(rlp))]
pub fn encodable(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let trailing = has(&input.attrs, "trailing");
    let fs: Vec<_> = fields(&input)
        .into_iter()
        .filter(|(_, f)| !has(&f.attrs, "skip"))
        .collect();
    assert!(!trailing, "trailing fields are not supported");
    let m: Vec<_> = fs.iter().map(|(m, _)| m).collect();
    let g = bounded(&input, quote!(::alloy_rlp::Encodable));
    let (ig, tg, wc) = g.split_for_impl();
    quote! {
        const _: () = {
            impl #ig #name #tg #wc {
                fn __rlp_payload_length(&self) -> usize {
                    0usize #( + ::alloy_rlp::Encodable::length(&self.#m) )*
                }
            }
            impl #ig ::alloy_rlp::Encodable for #name #tg #wc {
                fn length(&self) -> usize {
                    let p = self.__rlp_payload_length();
                    p + ::alloy_rlp::length_of_length(p)
                }
                fn encode(&self, out: &mut dyn ::alloy_rlp::BufMut) {
                    ::alloy_rlp::Header { list: true, payload_length: self.__rlp_payload_length() }.encode(out);
                    #( ::alloy_rlp::Encodable::encode(&self.#m, out); )*
                }
            }
        };
    }
    .into()
}

#[proc_macro_derive(RlpDecodable, attributes(rlp))]
pub fn decodable(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let parts: Vec<_> = fields(&input)
        .into_iter()
        .map(|(m, f)| {
            if has(&f.attrs, "skip") || has(&f.attrs, "default") {
                quote!(#m: ::core::default::Default::default())
            } else {
                quote!(#m: ::alloy_rlp::Decodable::decode(b)?)
            }
        })
        .collect();
    let g = bounded(&input, quote!(::alloy_rlp::Decodable));
    let (ig, tg, wc) = g.split_for_impl();
    quote! {
        const _: () = {
            impl #ig ::alloy_rlp::Decodable for #name #tg #wc {
                fn decode(b: &mut &[u8]) -> ::alloy_rlp::Result<Self> {
                    let ::alloy_rlp::Header { list, payload_length } = ::alloy_rlp::Header::decode(b)?;
                    if !list {
                        return Err(::alloy_rlp::Error::UnexpectedString);
                    }
                    let started_len = b.len();
                    if started_len < payload_length {
                        return Err(::alloy_rlp::Error::InputTooShort);
                    }
                    let this = Self { #(#parts),* };
                    let consumed = started_len - b.len();
                    if consumed != payload_length {
                        return Err(::alloy_rlp::Error::ListLengthMismatch { expected: payload_length, got: consumed });
                    }
                    Ok(this)
                }
            }
        };
    }
    .into()
}

#[proc_macro_derive(RlpEncodableWrapper, attributes(rlp))]
pub fn encodable_wrapper(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let m = fields(&input).remove(0).0;
    let g = bounded(&input, quote!(::alloy_rlp::Encodable));
    let (ig, tg, wc) = g.split_for_impl();
    quote! {
        const _: () = {
            impl #ig ::alloy_rlp::Encodable for #name #tg #wc {
                fn length(&self) -> usize { ::alloy_rlp::Encodable::length(&self.#m) }
                fn encode(&self, out: &mut dyn ::alloy_rlp::BufMut) { ::alloy_rlp::Encodable::encode(&self.#m, out) }
            }
        };
    }
    .into()
}

#[proc_macro_derive(RlpDecodableWrapper, attributes(rlp))]
pub fn decodable_wrapper(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let m = fields(&input).remove(0).0;
    let g = bounded(&input, quote!(::alloy_rlp::Decodable));
    let (ig, tg, wc) = g.split_for_impl();
    quote! {
        const _: () = {
            impl #ig ::alloy_rlp::Decodable for #name #tg #wc {
                fn decode(b: &mut &[u8]) -> ::alloy_rlp::Result<Self> {
                    ::alloy_rlp::Decodable::decode(b).map(|x| Self { #m: x })
                }
            }
        };
    }
    .into()
}
