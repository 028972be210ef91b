//! `#[wasm_bindgen]` for extern blocks: every imported type becomes a transparent wrapper around
//! `JsValue`, every imported function becomes a call into the simulated host by its JS name.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, ForeignItem, Item, ReturnType};

fn js_name(attrs: &[syn::Attribute], ident: &str) -> (String, bool, bool) {
    let mut name = ident.to_string();
    let mut getter = false;
    let mut method = false;
    for a in attrs {
        if !a.path().is_ident("wasm_bindgen") {
            continue;
        }
        let toks: Vec<String> = match &a.meta {
            syn::Meta::List(l) => l.tokens.clone().into_iter().map(|t| t.to_string()).collect(),
            _ => vec![],
        };
        for (i, t) in toks.iter().enumerate() {
            if t == "getter" {
                getter = true;
            }
            if t == "method" {
                method = true;
            }
            if t == "js_name" && i + 2 < toks.len() {
                name = toks[i + 2].trim_matches('"').to_string();
            }
        }
    }
    (name, getter, method)
}

#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let item = parse_macro_input!(item as Item);
    let fm = match item {
        Item::ForeignMod(f) => f,
        other => return quote!(#other).into(),
    };
    let mut out = quote!();
    for it in fm.items {
        match it {
            ForeignItem::Type(t) => {
                let (vis, id) = (t.vis, t.ident);
                let attrs: Vec<_> = t.attrs.into_iter().filter(|a| !a.path().is_ident("wasm_bindgen")).collect();
                out.extend(quote! {
                    #(#attrs)*
                    #[repr(transparent)]
                    #[derive(Clone, Debug)]
                    #vis struct #id { obj: ::wasm_bindgen::JsValue }
                    unsafe impl ::wasm_bindgen::Transparent for #id {}
                    impl ::wasm_bindgen::JsCast for #id {}
                    impl ::wasm_bindgen::__host::FromHost for #id {
                        fn from_host(v: ::wasm_bindgen::JsValue) -> Self { #id { obj: v } }
                    }
                    impl ::std::convert::AsRef<::wasm_bindgen::JsValue> for #id {
                        fn as_ref(&self) -> &::wasm_bindgen::JsValue { &self.obj }
                    }
                    impl ::std::convert::From<#id> for ::wasm_bindgen::JsValue {
                        fn from(v: #id) -> Self { v.obj }
                    }
                });
            }
            ForeignItem::Fn(f) => {
                let (name, _g, method) = js_name(&f.attrs, &f.sig.ident.to_string());
                let attrs: Vec<_> = f.attrs.into_iter().filter(|a| !a.path().is_ident("wasm_bindgen")).collect();
                let vis = f.vis;
                let mut sig = f.sig;
                let mut this_ty = None;
                if method {
                    let ins = std::mem::take(&mut sig.inputs);
                    for (i, a) in ins.into_iter().enumerate() {
                        if i == 0 {
                            if let syn::FnArg::Typed(p) = a {
                                if let syn::Type::Reference(r) = *p.ty {
                                    this_ty = Some(*r.elem);
                                }
                            }
                            sig.inputs.push(syn::parse_quote!(&self));
                        } else {
                            sig.inputs.push(a);
                        }
                    }
                }
                let mut args = vec![];
                for a in &sig.inputs {
                    if let syn::FnArg::Typed(p) = a {
                        let pat = &p.pat;
                        args.push(quote!(#pat));
                    }
                }
                let conv = match &sig.output {
                    ReturnType::Default => quote!({ let _ = r; }),
                    ReturnType::Type(_, t) => quote!(<#t as ::wasm_bindgen::__host::FromHost>::from_host(r)),
                };
                let def = quote! {
                    #(#attrs)*
                    #[allow(unused_variables)]
                    #vis #sig {
                        let r = ::wasm_bindgen::__host::call(#name, &[#(::wasm_bindgen::__host::ToHost::to_host(&#args)),*]);
                        #conv
                    }
                };
                match this_ty {
                    Some(t) => out.extend(quote!(impl #t { #def })),
                    None => out.extend(def),
                }
            }
            _ => {}
        }
    }
    out.into()
}
