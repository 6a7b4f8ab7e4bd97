//! The server half of jsonrpsee's `rpc`, for methods with parameters in a sequence.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{FnArg, ItemTrait, LitStr, Pat, TraitItem, Type};

#[proc_macro_attribute]
pub fn rpc(_: TokenStream, item: TokenStream) -> TokenStream {
    let t: ItemTrait = syn::parse(item).expect("a trait");
    let name = format_ident!("{}Server", t.ident);
    let (mut methods, mut regs) = (vec![], vec![]);
    for i in t.items {
        let TraitItem::Fn(f) = i else { panic!("a method") };
        let mut rpc_name: Option<LitStr> = None;
        for a in &f.attrs {
            if a.path().is_ident("method") {
                a.parse_nested_meta(|m| {
                    if m.path.is_ident("name") { rpc_name = Some(m.value()?.parse()?) } else if m.input.peek(syn::Token![=]) { let _: syn::Expr = m.value()?.parse()?; }
                    Ok(())
                }).expect("name");
            }
        }
        let rpc_name = rpc_name.expect("a name");
        let (sig, method) = (&f.sig, &f.sig.ident);
        let (mut reads, mut args) = (vec![], vec![]);
        for x in &sig.inputs {
            let FnArg::Typed(p) = x else { continue };
            let Pat::Ident(id) = &*p.pat else { panic!("a name") };
            let (id, ty) = (&id.ident, &p.ty);
            let optional = matches!(&**ty, Type::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "Option"));
            let next = if optional { quote!(optional_next) } else { quote!(next) };
            reads.push(quote! { let #id: #ty = match seq.#next() { Ok(v) => v, Err(e) => return Err(e) }; });
            args.push(id.clone());
        }
        let seq = if args.is_empty() { quote!() } else { quote! { let mut seq = params.sequence(); } };
        regs.push(if sig.asyncness.is_some() {
            quote! { let _ = rpc.register_async_method(#rpc_name, |params, ctx| async move { #seq #(#reads)* Self::#method(ctx.as_ref(), #(#args),*).await }); }
        } else {
            quote! { let _ = rpc.register_method(#rpc_name, |params, ctx| { #seq #(#reads)* Self::#method(ctx, #(#args),*) }); }
        });
        methods.push(quote! { #sig; });
    }
    let vis = t.vis;
    quote! {
        #[::jsonrpsee::async_trait]
        #vis trait #name: Sized + Send + Sync + 'static {
            #(#methods)*
            #[allow(unused)]
            fn into_rpc(self) -> ::jsonrpsee::server::RpcModule<Self> {
                let mut rpc = ::jsonrpsee::server::RpcModule::new(self);
                #(#regs)*
                rpc
            }
        }
    }.into()
}
