//! `#[async_trait]`: boxes the futures of async trait methods.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{
    parse_macro_input, parse_quote, visit_mut::VisitMut, FnArg, ImplItem, Item, Lifetime, Pat, ReturnType,
    Signature, TraitItem, TypeReference,
};

struct Lifetimes {
    names: Vec<Lifetime>,
}
impl VisitMut for Lifetimes {
    fn visit_type_reference_mut(&mut self, t: &mut TypeReference) {
        if t.lifetime.is_none() || t.lifetime.as_ref().is_some_and(|l| l.ident == "_") {
            let l = Lifetime::new(&format!("'life{}", self.names.len()), proc_macro2::Span::call_site());
            self.names.push(l.clone());
            t.lifetime = Some(l);
        }
        syn::visit_mut::visit_type_reference_mut(self, t);
    }
    fn visit_lifetime_mut(&mut self, l: &mut Lifetime) {
        if l.ident == "_" {
            let n = Lifetime::new(&format!("'life{}", self.names.len()), proc_macro2::Span::call_site());
            self.names.push(n.clone());
            *l = n;
        }
    }
}

fn transform(sig: &mut Signature, body: Option<&mut syn::Block>, is_trait_default: bool, no_send: bool) {
    sig.asyncness = None;
    let ret: syn::Type = match &sig.output {
        ReturnType::Default => parse_quote!(()),
        ReturnType::Type(_, t) => (**t).clone(),
    };
    let mut lt = Lifetimes { names: vec![] };
    let mut rebind = vec![];
    let mut has_self = false;
    for (i, a) in sig.inputs.iter_mut().enumerate() {
        match a {
            FnArg::Receiver(r) => {
                has_self = true;
                if let Some((_, l)) = &mut r.reference {
                    if l.is_none() {
                        let n: Lifetime = parse_quote!('life_self);
                        *l = Some(n.clone());
                        lt.names.push(n);
                        let m = &r.mutability;
                        r.ty = parse_quote!(&'life_self #m Self);
                    }
                }
            }
            FnArg::Typed(t) => {
                lt.visit_type_mut(&mut t.ty);
                if body.is_some() {
                    if !matches!(&*t.pat, Pat::Ident(_)) {
                        let p = t.pat.clone();
                        let id = format_ident!("__arg{}", i);
                        t.pat = parse_quote!(#id);
                        rebind.push(quote!(let #p = #id;));
                    }
                }
            }
        }
    }
    // Strip `mut` from the signature patterns; the body rebinds the arguments.
    for a in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            if let Pat::Ident(p) = &mut *t.pat {
                if body.is_none() {
                    p.mutability = None;
                } else {
                    let id = &p.ident;
                    let m = p.mutability.take();
                    rebind.push(quote!(let #m #id = #id;));
                }
            }
        }
    }
    let declared: Vec<Lifetime> = sig.generics.lifetimes().map(|l| l.lifetime.clone()).collect();
    for l in &lt.names {
        sig.generics.params.insert(0, parse_quote!(#l));
    }
    sig.generics.params.insert(0, parse_quote!('async_trait));
    {
        let tys: Vec<_> = sig.generics.type_params().map(|t| t.ident.clone()).collect();
        let wc = sig.generics.make_where_clause();
        for l in lt.names.iter().chain(declared.iter()) {
            wc.predicates.push(parse_quote!(#l: 'async_trait));
        }
        for t in tys {
            wc.predicates.push(parse_quote!(#t: 'async_trait));
        }
        if has_self {
            wc.predicates.push(parse_quote!(Self: 'async_trait));
        }
    }
    sig.output = if no_send {
        parse_quote!(-> ::core::pin::Pin<Box<dyn ::core::future::Future<Output = #ret> + 'async_trait>>)
    } else {
        parse_quote!(-> ::core::pin::Pin<Box<dyn ::core::future::Future<Output = #ret> + ::core::marker::Send + 'async_trait>>)
    };
    if let Some(b) = body {
        let _ = is_trait_default;
        let inner = b.clone();
        let stmts = &inner.stmts;
        *b = parse_quote!({
            Box::pin(async move {
                #(#rebind)*
                if let ::core::option::Option::Some(__ret) = ::core::option::Option::None::<#ret> {
                    #[allow(unreachable_code)]
                    return __ret;
                }
                let __ret: #ret = { #(#stmts)* };
                #[allow(unreachable_code)]
                __ret
            })
        });
    }
}

#[proc_macro_attribute]
pub fn async_trait(args: TokenStream, input: TokenStream) -> TokenStream {
    let no_send = args.to_string().contains("Send");
    let mut item = parse_macro_input!(input as Item);
    match &mut item {
        Item::Trait(t) => {
            for i in &mut t.items {
                if let TraitItem::Fn(f) = i {
                    if f.sig.asyncness.is_some() {
                        let has = f.default.is_some();
                        transform(&mut f.sig, f.default.as_mut(), has, no_send);
                        if has {
                            let wc = f.sig.generics.make_where_clause();
                            if !no_send {
                                wc.predicates.push(parse_quote!(Self: ::core::marker::Sync));
                            }
                        }
                        f.attrs.push(parse_quote!(#[allow(clippy::all, unused, elided_named_lifetimes)]));
                    }
                }
            }
        }
        Item::Impl(im) => {
            for i in &mut im.items {
                if let ImplItem::Fn(f) = i {
                    if f.sig.asyncness.is_some() {
                        let mut b = f.block.clone();
                        transform(&mut f.sig, Some(&mut b), false, no_send);
                        f.block = b;
                        f.attrs.push(parse_quote!(#[allow(clippy::all, unused)]));
                    }
                }
            }
        }
        _ => panic!("async_trait needs a trait or an impl"),
    }
    quote!(#item).into()
}
