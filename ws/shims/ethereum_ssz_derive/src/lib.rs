//! `Encode` and `Decode` derives with the interface of `ethereum_ssz_derive`.
use proc_macro::TokenStream;
use proc_macro2::TokenStream as Ts;
use quote::quote;
use syn::{parse_macro_input, Attribute, Data, DataEnum, DataStruct, DeriveInput, Field, Ident, LitStr, Type};

#[derive(Default)]
struct ItemOpts {
    behaviour: Option<String>,
}
#[derive(Default)]
struct FieldOpts {
    with: Option<Ident>,
    skip_ser: bool,
    skip_de: bool,
}

fn item_opts(attrs: &[Attribute]) -> ItemOpts {
    let mut o = ItemOpts::default();
    for a in attrs.iter().filter(|a| a.path().is_ident("ssz")) {
        a.parse_nested_meta(|m| {
            if m.path.is_ident("enum_behaviour") || m.path.is_ident("struct_behaviour") {
                let s: LitStr = m.value()?.parse()?;
                o.behaviour = Some(s.value());
                Ok(())
            } else {
                Err(m.error("unsupported ssz attribute"))
            }
        })
        .expect("ssz attribute");
    }
    o
}
fn field_opts(f: &Field) -> FieldOpts {
    let mut o = FieldOpts::default();
    for a in f.attrs.iter().filter(|a| a.path().is_ident("ssz")) {
        a.parse_nested_meta(|m| {
            if m.path.is_ident("with") {
                let s: LitStr = m.value()?.parse()?;
                o.with = Some(s.parse()?);
            } else if m.path.is_ident("skip_serializing") {
                o.skip_ser = true;
            } else if m.path.is_ident("skip_deserializing") {
                o.skip_de = true;
            } else {
                return Err(m.error("unsupported ssz field attribute"));
            }
            Ok(())
        })
        .expect("ssz field attribute");
    }
    o
}

fn member(f: &Field, i: usize) -> Ts {
    match &f.ident {
        Some(id) => quote!(#id),
        None => {
            let i = syn::Index::from(i);
            quote!(#i)
        }
    }
}

#[proc_macro_derive(Encode, attributes(ssz))]
pub fn encode(input: TokenStream) -> TokenStream {
    let item = parse_macro_input!(input as DeriveInput);
    let o = item_opts(&item.attrs);
    match &item.data {
        Data::Struct(s) => match o.behaviour.as_deref() {
            Some("transparent") => enc_struct_transparent(&item, s),
            None | Some("container") => enc_struct(&item, s),
            Some(x) => panic!("unknown behaviour {x}"),
        },
        Data::Enum(e) => match o.behaviour.as_deref() {
            Some("transparent") => enc_enum(&item, e, false),
            Some("union") => enc_enum(&item, e, true),
            Some("tag") => enc_tag(&item, e),
            x => panic!("unknown behaviour {x:?}"),
        },
        _ => panic!("ssz_derive supports structs and enums"),
    }
    .into()
}

fn enc_struct(item: &DeriveInput, s: &DataStruct) -> Ts {
    let name = &item.ident;
    let (ig, tg, wc) = item.generics.split_for_impl();
    let (mut fixed, mut flen, mut blen, mut app) = (vec![], vec![], vec![], vec![]);
    for (i, f) in s.fields.iter().enumerate() {
        let fo = field_opts(f);
        if fo.skip_ser {
            continue;
        }
        let m = member(f, i);
        let ty = &f.ty;
        if let Some(w) = fo.with {
            fixed.push(quote!(#w::encode::is_ssz_fixed_len()));
            flen.push(quote!(#w::encode::ssz_fixed_len()));
            blen.push(quote!(#w::encode::ssz_bytes_len(&self.#m)));
            app.push(quote!(encoder.append_parameterized(
                #w::encode::is_ssz_fixed_len(),
                |buf| #w::encode::ssz_append(&self.#m, buf)
            )));
        } else {
            fixed.push(quote!(<#ty as ::ssz::Encode>::is_ssz_fixed_len()));
            flen.push(quote!(<#ty as ::ssz::Encode>::ssz_fixed_len()));
            blen.push(quote!(self.#m.ssz_bytes_len()));
            app.push(quote!(encoder.append(&self.#m)));
        }
    }
    quote! {
        impl #ig ::ssz::Encode for #name #tg #wc {
            fn is_ssz_fixed_len() -> bool { true #( && #fixed )* }
            fn ssz_fixed_len() -> usize {
                if <Self as ::ssz::Encode>::is_ssz_fixed_len() {
                    let mut len: usize = 0;
                    #( len = len.checked_add(#flen).expect("encode ssz_fixed_len length overflow"); )*
                    len
                } else {
                    ::ssz::BYTES_PER_LENGTH_OFFSET
                }
            }
            fn ssz_bytes_len(&self) -> usize {
                #[allow(unused_imports)]
                use ::ssz::Encode as _;
                if <Self as ::ssz::Encode>::is_ssz_fixed_len() {
                    <Self as ::ssz::Encode>::ssz_fixed_len()
                } else {
                    let mut len: usize = 0;
                    #(
                        if #fixed {
                            len += #flen;
                        } else {
                            len += ::ssz::BYTES_PER_LENGTH_OFFSET;
                            len += #blen;
                        }
                    )*
                    len
                }
            }
            fn ssz_append(&self, buf: &mut Vec<u8>) {
                let mut offset: usize = 0;
                #( offset += #flen; )*
                let mut encoder = ::ssz::SszEncoder::container(buf, offset);
                #( #app; )*
                encoder.finalize();
            }
        }
    }
}

fn single_field<'a>(s: &'a DataStruct, de: bool) -> (usize, &'a Field) {
    let v: Vec<_> = s
        .fields
        .iter()
        .enumerate()
        .filter(|(_, f)| {
            let o = field_opts(f);
            !(if de { o.skip_de } else { o.skip_ser })
        })
        .collect();
    assert_eq!(v.len(), 1, "transparent structs need exactly one field");
    v[0]
}

fn enc_struct_transparent(item: &DeriveInput, s: &DataStruct) -> Ts {
    let name = &item.ident;
    let (ig, tg, wc) = item.generics.split_for_impl();
    let (i, f) = single_field(s, false);
    let m = member(f, i);
    let ty = &f.ty;
    match field_opts(f).with {
        Some(w) => quote! {
            impl #ig ::ssz::Encode for #name #tg #wc {
                fn is_ssz_fixed_len() -> bool { #w::encode::is_ssz_fixed_len() }
                fn ssz_fixed_len() -> usize { #w::encode::ssz_fixed_len() }
                fn ssz_bytes_len(&self) -> usize { #w::encode::ssz_bytes_len(&self.#m) }
                fn ssz_append(&self, buf: &mut Vec<u8>) { #w::encode::ssz_append(&self.#m, buf) }
            }
        },
        None => quote! {
            impl #ig ::ssz::Encode for #name #tg #wc {
                fn is_ssz_fixed_len() -> bool { <#ty as ::ssz::Encode>::is_ssz_fixed_len() }
                fn ssz_fixed_len() -> usize { <#ty as ::ssz::Encode>::ssz_fixed_len() }
                fn ssz_bytes_len(&self) -> usize { <#ty as ::ssz::Encode>::ssz_bytes_len(&self.#m) }
                fn ssz_append(&self, buf: &mut Vec<u8>) { <#ty as ::ssz::Encode>::ssz_append(&self.#m, buf) }
            }
        },
    }
}

fn variant_types(e: &DataEnum) -> Vec<(Ident, Type)> {
    e.variants
        .iter()
        .map(|v| {
            assert_eq!(v.fields.len(), 1, "variants need exactly one field");
            (v.ident.clone(), v.fields.iter().next().unwrap().ty.clone())
        })
        .collect()
}

fn enc_enum(item: &DeriveInput, e: &DataEnum, union: bool) -> Ts {
    let name = &item.ident;
    let (ig, tg, wc) = item.generics.split_for_impl();
    let vs = variant_types(e);
    let ids: Vec<_> = vs.iter().map(|v| &v.0).collect();
    if union {
        let sel: Vec<u8> = (0..vs.len() as u8).collect();
        quote! {
            impl #ig ::ssz::Encode for #name #tg #wc {
                fn is_ssz_fixed_len() -> bool { false }
                fn ssz_bytes_len(&self) -> usize {
                    match self { #( #name::#ids(inner) => ::ssz::Encode::ssz_bytes_len(inner) + 1, )* }
                }
                fn ssz_append(&self, buf: &mut Vec<u8>) {
                    match self { #( #name::#ids(inner) => { buf.push(#sel); ::ssz::Encode::ssz_append(inner, buf) } )* }
                }
            }
        }
    } else {
        let tys: Vec<_> = vs.iter().map(|v| &v.1).collect();
        quote! {
            impl #ig ::ssz::Encode for #name #tg #wc {
                fn is_ssz_fixed_len() -> bool {
                    let mut all = true;
                    #( all &= <#tys as ::ssz::Encode>::is_ssz_fixed_len(); )*
                    assert!(!all, "not all variants of a transparent enum may be fixed length");
                    false
                }
                fn ssz_bytes_len(&self) -> usize {
                    match self { #( #name::#ids(inner) => ::ssz::Encode::ssz_bytes_len(inner), )* }
                }
                fn ssz_append(&self, buf: &mut Vec<u8>) {
                    match self { #( #name::#ids(inner) => ::ssz::Encode::ssz_append(inner, buf), )* }
                }
            }
        }
    }
}
fn enc_tag(item: &DeriveInput, e: &DataEnum) -> Ts {
    let name = &item.ident;
    let ids: Vec<_> = e.variants.iter().map(|v| &v.ident).collect();
    let sel: Vec<u8> = (0..ids.len() as u8).collect();
    quote! {
        impl ::ssz::Encode for #name {
            fn is_ssz_fixed_len() -> bool { true }
            fn ssz_fixed_len() -> usize { 1 }
            fn ssz_bytes_len(&self) -> usize { 1 }
            fn ssz_append(&self, buf: &mut Vec<u8>) {
                buf.push(match self { #( #name::#ids => #sel, )* });
            }
        }
    }
}

#[proc_macro_derive(Decode, attributes(ssz))]
pub fn decode(input: TokenStream) -> TokenStream {
    let item = parse_macro_input!(input as DeriveInput);
    let o = item_opts(&item.attrs);
    match &item.data {
        Data::Struct(s) => match o.behaviour.as_deref() {
            Some("transparent") => dec_struct_transparent(&item, s),
            None | Some("container") => dec_struct(&item, s),
            Some(x) => panic!("unknown behaviour {x}"),
        },
        Data::Enum(e) => match o.behaviour.as_deref() {
            Some("transparent") => dec_transparent(&item, e),
            Some("union") => dec_union(&item, e),
            Some("tag") => dec_tag(&item, e),
            x => panic!("unknown behaviour {x:?}"),
        },
        _ => panic!("ssz_derive supports structs and enums"),
    }
    .into()
}

fn dec_struct(item: &DeriveInput, s: &DataStruct) -> Ts {
    let name = &item.ident;
    let (ig, tg, wc) = item.generics.split_for_impl();
    let (mut fixed, mut flen, mut reg, mut dec) = (vec![], vec![], vec![], vec![]);
    let (mut offsets_dec, mut names) = (vec![], vec![]);
    let _ = &mut offsets_dec as &mut Vec<Ts>;
    for (i, f) in s.fields.iter().enumerate() {
        let fo = field_opts(f);
        let m = member(f, i);
        names.push(m.clone());
        if fo.skip_de {
            dec.push(quote!(<_>::default()));
            continue;
        }
        let ty = &f.ty;
        if let Some(w) = fo.with {
            fixed.push(quote!(#w::decode::is_ssz_fixed_len()));
            flen.push(quote!(#w::decode::ssz_fixed_len()));
            reg.push(quote!(builder.register_type_parameterized(
                #w::decode::is_ssz_fixed_len(), #w::decode::ssz_fixed_len())?;));
            dec.push(quote!(decoder.decode_next_with(|slice| #w::decode::from_ssz_bytes(slice))?));
        } else {
            fixed.push(quote!(<#ty as ::ssz::Decode>::is_ssz_fixed_len()));
            flen.push(quote!(<#ty as ::ssz::Decode>::ssz_fixed_len()));
            reg.push(quote!(builder.register_type::<#ty>()?;));
            dec.push(quote!(decoder.decode_next::<#ty>()?));
        }
    }
    quote! {
        impl #ig ::ssz::Decode for #name #tg #wc {
            fn is_ssz_fixed_len() -> bool { true #( && #fixed )* }
            fn ssz_fixed_len() -> usize {
                if <Self as ::ssz::Decode>::is_ssz_fixed_len() {
                    let mut len: usize = 0;
                    #( len = len.checked_add(#flen).expect("decode ssz_fixed_len overflow"); )*
                    len
                } else {
                    ::ssz::BYTES_PER_LENGTH_OFFSET
                }
            }
            fn from_ssz_bytes(bytes: &[u8]) -> std::result::Result<Self, ::ssz::DecodeError> {
                if <Self as ::ssz::Decode>::is_ssz_fixed_len()
                    && bytes.len() != <Self as ::ssz::Decode>::ssz_fixed_len()
                {
                    return Err(::ssz::DecodeError::InvalidByteLength {
                        len: bytes.len(),
                        expected: <Self as ::ssz::Decode>::ssz_fixed_len(),
                    });
                }
                let mut builder = ::ssz::SszDecoderBuilder::new(bytes);
                #( #reg )*
                #[allow(unused_mut)]
                let mut decoder = builder.build()?;
                Ok(Self { #( #names: #dec, )* })
            }
        }
    }
}
fn dec_struct_transparent(item: &DeriveInput, s: &DataStruct) -> Ts {
    let name = &item.ident;
    let (ig, tg, wc) = item.generics.split_for_impl();
    let (i, f) = single_field(s, true);
    let m = member(f, i);
    let ty = &f.ty;
    let skipped: Vec<_> = s
        .fields
        .iter()
        .enumerate()
        .filter(|(j, _)| *j != i)
        .map(|(j, f)| member(f, j))
        .collect();
    let (a, b, c) = match field_opts(f).with {
        Some(w) => (
            quote!(#w::decode::is_ssz_fixed_len()),
            quote!(#w::decode::ssz_fixed_len()),
            quote!(#w::decode::from_ssz_bytes(bytes)?),
        ),
        None => (
            quote!(<#ty as ::ssz::Decode>::is_ssz_fixed_len()),
            quote!(<#ty as ::ssz::Decode>::ssz_fixed_len()),
            quote!(<#ty as ::ssz::Decode>::from_ssz_bytes(bytes)?),
        ),
    };
    quote! {
        impl #ig ::ssz::Decode for #name #tg #wc {
            fn is_ssz_fixed_len() -> bool { #a }
            fn ssz_fixed_len() -> usize { #b }
            fn from_ssz_bytes(bytes: &[u8]) -> std::result::Result<Self, ::ssz::DecodeError> {
                Ok(Self { #m: #c, #( #skipped: <_>::default(), )* })
            }
        }
    }
}
fn dec_union(item: &DeriveInput, e: &DataEnum) -> Ts {
    let name = &item.ident;
    let (ig, tg, wc) = item.generics.split_for_impl();
    let vs = variant_types(e);
    let ids: Vec<_> = vs.iter().map(|v| &v.0).collect();
    let tys: Vec<_> = vs.iter().map(|v| &v.1).collect();
    let sel: Vec<u8> = (0..vs.len() as u8).collect();
    quote! {
        impl #ig ::ssz::Decode for #name #tg #wc {
            fn is_ssz_fixed_len() -> bool { false }
            fn from_ssz_bytes(bytes: &[u8]) -> std::result::Result<Self, ::ssz::DecodeError> {
                let (selector, body) = ::ssz::split_union_bytes(bytes)?;
                match selector.into() {
                    #( #sel => <#tys as ::ssz::Decode>::from_ssz_bytes(body).map(#name::#ids), )*
                    other => Err(::ssz::DecodeError::UnionSelectorInvalid(other)),
                }
            }
        }
    }
}
fn dec_transparent(item: &DeriveInput, e: &DataEnum) -> Ts {
    let name = &item.ident;
    let (ig, tg, wc) = item.generics.split_for_impl();
    let vs = variant_types(e);
    let ids: Vec<_> = vs.iter().map(|v| &v.0).collect();
    let tys: Vec<_> = vs.iter().map(|v| &v.1).collect();
    quote! {
        impl #ig ::ssz::Decode for #name #tg #wc {
            fn is_ssz_fixed_len() -> bool { false }
            fn from_ssz_bytes(bytes: &[u8]) -> std::result::Result<Self, ::ssz::DecodeError> {
                #( if let Ok(v) = <#tys as ::ssz::Decode>::from_ssz_bytes(bytes) { return Ok(#name::#ids(v)); } )*
                Err(::ssz::DecodeError::NoMatchingVariant)
            }
        }
    }
}
fn dec_tag(item: &DeriveInput, e: &DataEnum) -> Ts {
    let name = &item.ident;
    let ids: Vec<_> = e.variants.iter().map(|v| &v.ident).collect();
    let sel: Vec<u8> = (0..ids.len() as u8).collect();
    quote! {
        impl ::ssz::Decode for #name {
            fn is_ssz_fixed_len() -> bool { true }
            fn ssz_fixed_len() -> usize { 1 }
            fn from_ssz_bytes(bytes: &[u8]) -> std::result::Result<Self, ::ssz::DecodeError> {
                let b = bytes.first().copied().ok_or(::ssz::DecodeError::OutOfBoundsByte { i: 0 })?;
                match b {
                    #( #sel => Ok(#name::#ids), )*
                    other => Err(::ssz::DecodeError::UnionSelectorInvalid(other)),
                }
            }
        }
    }
}
