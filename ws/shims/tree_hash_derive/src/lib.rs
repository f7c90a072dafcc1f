//! `TreeHash` derive with the interface of `tree_hash_derive`.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, LitStr};

#[proc_macro_derive(TreeHash, attributes(tree_hash))]
pub fn tree_hash(input: TokenStream) -> TokenStream {
    let item = parse_macro_input!(input as DeriveInput);
    let name = &item.ident;
    let (ig, tg, wc) = item.generics.split_for_impl();
    let mut behaviour = None;
    for a in item.attrs.iter().filter(|a| a.path().is_ident("tree_hash")) {
        a.parse_nested_meta(|m| {
            let s: LitStr = m.value()?.parse()?;
            behaviour = Some(s.value());
            Ok(())
        })
        .expect("tree_hash attribute");
    }
    match &item.data {
        Data::Struct(s) => {
            assert!(behaviour.is_none(), "only the container behaviour is supported");
            let mut fields = vec![];
            for (i, f) in s.fields.iter().enumerate() {
                let skip = f.attrs.iter().any(|a| a.path().is_ident("tree_hash"));
                if skip {
                    continue;
                }
                fields.push(match &f.ident {
                    Some(id) => quote!(#id),
                    None => {
                        let i = syn::Index::from(i);
                        quote!(#i)
                    }
                });
            }
            let n = fields.len();
            quote! {
                impl #ig ::tree_hash::TreeHash for #name #tg #wc {
                    fn tree_hash_type() -> ::tree_hash::TreeHashType { ::tree_hash::TreeHashType::Container }
                    fn tree_hash_packed_encoding(&self) -> ::tree_hash::PackedEncoding {
                        unreachable!("Struct should never be packed.")
                    }
                    fn tree_hash_packing_factor() -> usize {
                        unreachable!("Struct should never be packed.")
                    }
                    fn tree_hash_root(&self) -> ::tree_hash::Hash256 {
                        let mut hasher = ::tree_hash::MerkleHasher::with_leaves(#n);
                        #(
                            hasher
                                .write(::tree_hash::TreeHash::tree_hash_root(&self.#fields).as_slice())
                                .expect("tree hash derive should not apply too many leaves");
                        )*
                        hasher.finish().expect("tree hash derive should not have a remaining buffer")
                    }
                }
            }
        }
        Data::Enum(e) => {
            let ids: Vec<_> = e.variants.iter().map(|v| &v.ident).collect();
            let tys: Vec<_> = e.variants.iter().map(|v| &v.fields.iter().next().unwrap().ty).collect();
            let root = match behaviour.as_deref() {
                Some("transparent") => quote! {
                    match self { #( #name::#ids(inner) => ::tree_hash::TreeHash::tree_hash_root(inner), )* }
                },
                Some("union") => {
                    let sel: Vec<u8> = (0..ids.len() as u8).collect();
                    quote! {
                        match self { #( #name::#ids(inner) => ::tree_hash::mix_in_selector(
                            &::tree_hash::TreeHash::tree_hash_root(inner), #sel).expect("valid selector"), )* }
                    }
                }
                x => panic!("unknown behaviour {x:?}"),
            };
            let _ = tys;
            quote! {
                impl #ig ::tree_hash::TreeHash for #name #tg #wc {
                    fn tree_hash_type() -> ::tree_hash::TreeHashType { ::tree_hash::TreeHashType::Container }
                    fn tree_hash_packed_encoding(&self) -> ::tree_hash::PackedEncoding {
                        unreachable!("Enum should never be packed")
                    }
                    fn tree_hash_packing_factor() -> usize { unreachable!("Enum should never be packed") }
                    fn tree_hash_root(&self) -> ::tree_hash::Hash256 { #root }
                }
            }
        }
        _ => panic!("unsupported"),
    }
    .into()
}
