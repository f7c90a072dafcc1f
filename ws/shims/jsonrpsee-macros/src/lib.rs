//! `#[rpc]`: turns an api trait into a server trait and a client trait.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, FnArg, GenericArgument, ItemTrait, LitStr, Pat, PathArguments, ReturnType, TraitItem, Type};

fn ok_type(t: &ReturnType) -> Type {
    if let ReturnType::Type(_, t) = t {
        if let Type::Path(p) = &**t {
            let last = p.path.segments.last().unwrap();
            if let PathArguments::AngleBracketed(a) = &last.arguments {
                if let Some(GenericArgument::Type(t)) = a.args.first() {
                    return t.clone();
                }
            }
        }
    }
    panic!("rpc methods must return RpcResult<T>")
}

#[proc_macro_attribute]
pub fn rpc(args: TokenStream, input: TokenStream) -> TokenStream {
    let mut namespace = String::new();
    let parser = syn::meta::parser(|m| {
        if m.path.is_ident("namespace") {
            namespace = m.value()?.parse::<LitStr>()?.value();
        }
        Ok(())
    });
    parse_macro_input!(args with parser);
    let t = parse_macro_input!(input as ItemTrait);
    let server = format_ident!("{}Server", t.ident);
    let client = format_ident!("{}Client", t.ident);
    let (mut sm, mut cm, mut reg) = (vec![], vec![], vec![]);
    for i in &t.items {
        let TraitItem::Fn(f) = i else { panic!("only methods") };
        let mut name = String::new();
        for a in &f.attrs {
            if a.path().is_ident("method") {
                a.parse_nested_meta(|m| {
                    if m.path.is_ident("name") {
                        name = m.value()?.parse::<LitStr>()?.value();
                    }
                    Ok(())
                })
                .unwrap();
            }
        }
        let full = format!("{namespace}_{name}");
        let sig = &f.sig;
        let id = &sig.ident;
        sm.push(quote!(#sig;));
        let ok = ok_type(&sig.output);
        let params: Vec<_> = sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                FnArg::Typed(p) => Some((p.pat.clone(), p.ty.clone())),
                _ => None,
            })
            .collect();
        let names: Vec<_> = params
            .iter()
            .map(|(p, _)| match &**p {
                Pat::Ident(i) => i.ident.clone(),
                _ => panic!("plain parameters only"),
            })
            .collect();
        let tys: Vec<_> = params.iter().map(|(_, t)| t.clone()).collect();
        let idx = 0..names.len();
        cm.push(quote! {
            fn #id(&self, #(#names: #tys),*) -> jsonrpsee::BoxFuture<'_, Result<#ok, jsonrpsee::core::client::Error>> {
                let params = vec![#(jsonrpsee::private::value(&#names)),*];
                Box::pin(async move { jsonrpsee::private::parse::<#ok>(self.call_value(#full, params).await?) })
            }
        });
        reg.push(quote! {
            module.add(#full, |ctx, params| Box::pin(async move {
                let r = ctx.#id(#(jsonrpsee::private::param::<#tys>(&params, #idx)?),*).await?;
                let _ = &params;
                Ok(jsonrpsee::private::value::<#ok>(&r))
            }));
        });
    }
    let vis = &t.vis;
    quote! {
        #[jsonrpsee::private::async_trait]
        #vis trait #server: Sized + Send + Sync + 'static {
            #(#sm)*
            fn into_rpc(self) -> jsonrpsee::RpcModule<Self> {
                let mut module = jsonrpsee::RpcModule::new(self);
                #(#reg)*
                module
            }
        }
        #vis trait #client: jsonrpsee::ClientT {
            #(#cm)*
        }
        impl<T: jsonrpsee::ClientT> #client for T {}
    }
    .into()
}
