//! The `superstruct` attribute macro: one struct per variant, one enum over them, getters.
use proc_macro::TokenStream;
use proc_macro2::TokenStream as Ts;
use quote::{format_ident, quote};
use syn::{
    parse::{Parse, ParseStream},
    parse_macro_input, parenthesized,
    punctuated::Punctuated,
    Attribute, Fields, Ident, ItemStruct, LitStr, Meta, Token,
};

#[derive(Default)]
struct TopOpts {
    variants: Vec<Ident>,
    variant_attributes: Vec<Meta>,
    specific: Vec<(Ident, Vec<Meta>)>,
    ref_attributes: Vec<Meta>,
    ref_mut_attributes: Vec<Meta>,
    no_enum: bool,
}
impl Parse for TopOpts {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        let mut o = TopOpts::default();
        while !input.is_empty() {
            let key: Ident = input.parse()?;
            if input.peek(syn::token::Paren) {
                let content;
                parenthesized!(content in input);
                match key.to_string().as_str() {
                    "variants" => {
                        o.variants = Punctuated::<Ident, Token![,]>::parse_terminated(&content)?
                            .into_iter()
                            .collect()
                    }
                    "variant_attributes" => o.variant_attributes = metas(&content)?,
                    "ref_attributes" => o.ref_attributes = metas(&content)?,
                    "ref_mut_attributes" => o.ref_mut_attributes = metas(&content)?,
                    "specific_variant_attributes" => {
                        while !content.is_empty() {
                            let v: Ident = content.parse()?;
                            let c2;
                            parenthesized!(c2 in content);
                            o.specific.push((v, metas(&c2)?));
                            let _ = content.parse::<Option<Token![,]>>()?;
                        }
                    }
                    "cast_getter_error" | "partial_getter_error" | "enum_variant_attributes"
                    | "map_into" | "map_ref_into" | "map_ref_mut_into" => {
                        let _: Ts = content.parse()?;
                    }
                    other => panic!("unsupported superstruct option {other}"),
                }
            } else if key == "no_enum" {
                o.no_enum = true;
            } else {
                panic!("unsupported superstruct option {key}");
            }
            let _ = input.parse::<Option<Token![,]>>()?;
        }
        Ok(o)
    }
}
fn metas(s: ParseStream) -> syn::Result<Vec<Meta>> {
    Ok(Punctuated::<Meta, Token![,]>::parse_terminated(s)?
        .into_iter()
        .collect())
}

#[derive(Default)]
struct FieldOpts {
    only: Option<Vec<Ident>>,
    getter: Getter,
    partial: Getter,
    no_mut: bool,
}
#[derive(Default, Clone)]
struct Getter {
    copy: bool,
    rename: Option<Ident>,
    no_mut: bool,
}
fn getter(s: ParseStream) -> syn::Result<Getter> {
    let mut g = Getter::default();
    while !s.is_empty() {
        let k: Ident = s.parse()?;
        match k.to_string().as_str() {
            "copy" => g.copy = true,
            "no_mut" => g.no_mut = true,
            "rename" => {
                let _: Token![=] = s.parse()?;
                let l: LitStr = s.parse()?;
                g.rename = Some(l.parse()?);
            }
            other => panic!("unsupported getter option {other}"),
        }
        let _ = s.parse::<Option<Token![,]>>()?;
    }
    Ok(g)
}
impl Parse for FieldOpts {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        let mut o = FieldOpts::default();
        while !input.is_empty() {
            let key: Ident = input.parse()?;
            if input.peek(syn::token::Paren) {
                let content;
                parenthesized!(content in input);
                match key.to_string().as_str() {
                    "only" => {
                        o.only = Some(
                            Punctuated::<Ident, Token![,]>::parse_terminated(&content)?
                                .into_iter()
                                .collect(),
                        )
                    }
                    "getter" => o.getter = getter(&content)?,
                    "partial_getter" => o.partial = getter(&content)?,
                    other => panic!("unsupported superstruct field option {other}"),
                }
            } else {
                match key.to_string().as_str() {
                    "no_mut" => o.no_mut = true,
                    "flatten" => panic!("flatten is not supported"),
                    other => panic!("unsupported superstruct field option {other}"),
                }
            }
            let _ = input.parse::<Option<Token![,]>>()?;
        }
        Ok(o)
    }
}

fn snake(s: &str) -> String {
    let mut out = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_uppercase() {
            if i > 0 {
                out.push('_');
            }
            out.extend(c.to_lowercase());
        } else {
            out.push(c);
        }
    }
    out
}

#[proc_macro_attribute]
pub fn superstruct(args: TokenStream, input: TokenStream) -> TokenStream {
    let o = parse_macro_input!(args as TopOpts);
    let item = parse_macro_input!(input as ItemStruct);
    let name = &item.ident;
    let vis = &item.vis;
    let generics = &item.generics;
    let (ig, tg, wc) = generics.split_for_impl();
    let Fields::Named(named) = &item.fields else {
        panic!("superstruct needs named fields")
    };
    let mut fields = vec![];
    for f in &named.named {
        let mut fo = FieldOpts::default();
        let mut f = f.clone();
        let mut keep: Vec<Attribute> = vec![];
        for a in f.attrs.drain(..) {
            if a.path().is_ident("superstruct") {
                let p: FieldOpts = a.parse_args().expect("superstruct field options");
                if p.only.is_some() {
                    fo.only = p.only;
                }
                fo.getter.copy |= p.getter.copy;
                fo.getter.no_mut |= p.getter.no_mut | p.no_mut;
                if p.getter.rename.is_some() {
                    fo.getter.rename = p.getter.rename;
                }
                fo.partial.copy |= p.partial.copy;
                fo.partial.no_mut |= p.partial.no_mut | p.no_mut;
                if p.partial.rename.is_some() {
                    fo.partial.rename = p.partial.rename;
                }
            } else {
                keep.push(a);
            }
        }
        f.attrs = keep;
        fields.push((f, fo));
    }
    let docs: Vec<_> = item.attrs.iter().filter(|a| a.path().is_ident("doc")).collect();
    let mut out = Ts::new();
    let variants = &o.variants;
    let structs: Vec<Ident> = variants.iter().map(|v| format_ident!("{}{}", name, v)).collect();
    for (v, s) in variants.iter().zip(&structs) {
        let va = &o.variant_attributes;
        let sp: Vec<&Meta> = o
            .specific
            .iter()
            .filter(|(n, _)| n == v)
            .flat_map(|(_, m)| m)
            .collect();
        let fs: Vec<_> = fields
            .iter()
            .filter(|(_, fo)| fo.only.as_ref().is_none_or(|l| l.contains(v)))
            .map(|(f, _)| f)
            .collect();
        out.extend(quote! {
            #(#docs)*
            #( #[#va] )*
            #( #[#sp] )*
            #vis struct #s #generics #wc { #( #fs, )* }
        });
    }
    if o.no_enum {
        return out.into();
    }
    let attrs = &item.attrs;
    out.extend(quote! {
        #(#attrs)*
        #vis enum #name #generics #wc { #( #variants(#structs #tg), )* }
        #( impl #ig From<#structs #tg> for #name #tg #wc {
            fn from(v: #structs #tg) -> Self { Self::#variants(v) }
        } )*
    });
    // Casts and getters.
    let mut methods = Ts::new();
    for (v, s) in variants.iter().zip(&structs) {
        let a = format_ident!("as_{}", snake(&v.to_string()));
        let am = format_ident!("as_{}_mut", snake(&v.to_string()));
        methods.extend(quote! {
            pub fn #a(&self) -> Result<&#s #tg, ()> {
                #[allow(unreachable_patterns)]
                match self { Self::#v(inner) => Ok(inner), _ => Err(()) }
            }
            pub fn #am(&mut self) -> Result<&mut #s #tg, ()> {
                #[allow(unreachable_patterns)]
                match self { Self::#v(inner) => Ok(inner), _ => Err(()) }
            }
        });
    }
    let mut ref_methods = Ts::new();
    let rname = format_ident!("{}Ref", name);
    let mname = format_ident!("{}RefMut", name);
    for (f, fo) in &fields {
        let id = f.ident.as_ref().unwrap();
        let ty = &f.ty;
        match &fo.only {
            None => {
                let g = fo.getter.rename.clone().unwrap_or(id.clone());
                let gm = format_ident!("{}_mut", g);
                if fo.getter.copy {
                    methods.extend(quote! {
                        pub fn #g(&self) -> #ty { match self { #( Self::#variants(inner) => inner.#id, )* } }
                    });
                    ref_methods.extend(quote! {
                        pub fn #g(&self) -> #ty { match self { #( Self::#variants(inner) => inner.#id, )* } }
                    });
                } else {
                    methods.extend(quote! {
                        pub fn #g(&self) -> &#ty { match self { #( Self::#variants(inner) => &inner.#id, )* } }
                    });
                    ref_methods.extend(quote! {
                        pub fn #g(&self) -> &'__ss #ty { match self { #( Self::#variants(inner) => &inner.#id, )* } }
                    });
                }
                if !fo.getter.no_mut {
                    methods.extend(quote! {
                        pub fn #gm(&mut self) -> &mut #ty { match self { #( Self::#variants(inner) => &mut inner.#id, )* } }
                    });
                }
            }
            Some(only) => {
                let g = fo.partial.rename.clone().unwrap_or(id.clone());
                let gm = format_ident!("{}_mut", g);
                let (rt, rrt, val) = if fo.partial.copy {
                    (quote!(#ty), quote!(#ty), quote!(inner.#id))
                } else {
                    (quote!(&#ty), quote!(&'__ss #ty), quote!(&inner.#id))
                };
                methods.extend(quote! {
                    pub fn #g(&self) -> Result<#rt, ()> {
                        #[allow(unreachable_patterns)]
                        match self { #( Self::#only(inner) => Ok(#val), )* _ => Err(()) }
                    }
                });
                ref_methods.extend(quote! {
                    pub fn #g(&self) -> Result<#rrt, ()> {
                        #[allow(unreachable_patterns)]
                        match self { #( Self::#only(inner) => Ok(#val), )* _ => Err(()) }
                    }
                });
                if !fo.partial.no_mut {
                    methods.extend(quote! {
                        pub fn #gm(&mut self) -> Result<&mut #ty, ()> {
                            #[allow(unreachable_patterns)]
                            match self { #( Self::#only(inner) => Ok(&mut inner.#id), )* _ => Err(()) }
                        }
                    });
                }
            }
        }
    }
    let params = &generics.params;
    let args: Vec<_> = generics
        .params
        .iter()
        .map(|p| match p {
            syn::GenericParam::Type(t) => {
                let i = &t.ident;
                quote!(#i)
            }
            syn::GenericParam::Lifetime(l) => {
                let i = &l.lifetime;
                quote!(#i)
            }
            syn::GenericParam::Const(c) => {
                let i = &c.ident;
                quote!(#i)
            }
        })
        .collect();
    let (ra, ma) = (&o.ref_attributes, &o.ref_mut_attributes);
    out.extend(quote! {
        #[allow(clippy::result_unit_err)]
        impl #ig #name #tg #wc {
            pub fn to_ref<'__ss>(&'__ss self) -> #rname<'__ss, #(#args),*> {
                match self { #( Self::#variants(inner) => #rname::#variants(inner), )* }
            }
            pub fn to_mut<'__ss>(&'__ss mut self) -> #mname<'__ss, #(#args),*> {
                match self { #( Self::#variants(inner) => #mname::#variants(inner), )* }
            }
            #methods
        }
        #( #[#ra] )*
        #vis enum #rname<'__ss, #params> #wc { #( #variants(&'__ss #structs #tg), )* }
        impl<'__ss, #params> Clone for #rname<'__ss, #(#args),*> #wc { fn clone(&self) -> Self { *self } }
        impl<'__ss, #params> Copy for #rname<'__ss, #(#args),*> #wc {}
        #[allow(clippy::result_unit_err)]
        impl<'__ss, #params> #rname<'__ss, #(#args),*> #wc { #ref_methods }
        #( #[#ma] )*
        #vis enum #mname<'__ss, #params> #wc { #( #variants(&'__ss mut #structs #tg), )* }
    });
    out.into()
}
