//! Offline stand-in for the FRAME procedural macros: just enough of their meaning to run the
//! pallets of /repo under a monitor. Metadata, benchmarking and try-runtime output is left out.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, spanned::Spanned, DeriveInput, ItemFn, ItemMod};

mod construct;
mod pallet;

#[proc_macro_attribute]
pub fn pallet(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let m = parse_macro_input!(item as ItemMod);
    pallet::expand(m).unwrap_or_else(|e| e.to_compile_error()).into()
}

#[proc_macro]
pub fn construct_runtime(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as construct::Runtime);
    construct::expand(d).into()
}

/// Run the body in a storage transaction that is rolled back on `Err`.
#[proc_macro_attribute]
pub fn transactional(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let ItemFn { attrs, vis, sig, block } = parse_macro_input!(item as ItemFn);
    quote! {
        #(#attrs)*
        #vis #sig {
            ::frame_support::storage::transactional::with_transaction(|| {
                let r = (|| { #block })();
                if r.is_ok() {
                    ::frame_support::__private::TransactionOutcome::Commit(r)
                } else {
                    ::frame_support::__private::TransactionOutcome::Rollback(r)
                }
            })
        }
    }
    .into()
}

#[proc_macro_attribute]
pub fn require_transactional(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let ItemFn { attrs, vis, sig, block } = parse_macro_input!(item as ItemFn);
    quote! {
        #(#attrs)*
        #vis #sig {
            if !::frame_support::storage::transactional::is_transactional() {
                return Err(::frame_support::__private::TransactionalError::NoLayer.into());
            }
            #block
        }
    }
    .into()
}

fn fields_of(f: &syn::Fields) -> (Vec<syn::Member>, Vec<syn::Ident>) {
    let mut members = vec![];
    let mut idents = vec![];
    for (i, x) in f.iter().enumerate() {
        match &x.ident {
            Some(n) => {
                members.push(syn::Member::Named(n.clone()));
            }
            None => members.push(syn::Member::Unnamed(syn::Index { index: i as u32, span: x.span() })),
        }
        idents.push(format_ident!("_f{}", i));
    }
    (members, idents)
}

fn variants(d: &DeriveInput) -> Vec<(proc_macro2::TokenStream, syn::Fields, String)> {
    match &d.data {
        syn::Data::Struct(s) => vec![(quote!(Self), s.fields.clone(), d.ident.to_string())],
        syn::Data::Enum(e) => e
            .variants
            .iter()
            .map(|v| {
                let i = &v.ident;
                (quote!(Self::#i), v.fields.clone(), i.to_string())
            })
            .collect(),
        _ => vec![],
    }
}

#[proc_macro_derive(CloneNoBound)]
pub fn clone_no_bound(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let (ig, tg, wc) = d.generics.split_for_impl();
    let name = &d.ident;
    let arms = variants(&d).into_iter().map(|(p, f, _)| {
        let (m, i) = fields_of(&f);
        quote!(#p { #(#m: #i),* } => #p { #(#m: ::core::clone::Clone::clone(#i)),* },)
    });
    let body = if is_empty_enum(&d) { quote!(match *self {}) } else { quote!(match self { #(#arms)* }) };
    quote! {
        const _: () = { impl #ig ::core::clone::Clone for #name #tg #wc {
            fn clone(&self) -> Self { #body }
        } };
    }
    .into()
}

fn is_empty_enum(d: &DeriveInput) -> bool {
    matches!(&d.data, syn::Data::Enum(e) if e.variants.is_empty())
}

#[proc_macro_derive(PartialEqNoBound)]
pub fn partial_eq_no_bound(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let (ig, tg, wc) = d.generics.split_for_impl();
    let name = &d.ident;
    let vs = variants(&d);
    let many = vs.len() > 1;
    let arms = vs.into_iter().map(|(p, f, _)| {
        let (m, i) = fields_of(&f);
        let j: Vec<_> = i.iter().map(|x| format_ident!("o{}", x)).collect();
        quote!((#p { #(#m: #i),* }, #p { #(#m: #j),* }) => true #( && #i == #j )*,)
    });
    let rest = if many { quote!(_ => false,) } else { quote!() };
    let body =
        if is_empty_enum(&d) { quote!(match *self {}) } else { quote!(match (self, other) { #(#arms)* #rest }) };
    quote! {
        const _: () = { impl #ig ::core::cmp::PartialEq for #name #tg #wc {
            fn eq(&self, other: &Self) -> bool { #body }
        } };
    }
    .into()
}

#[proc_macro_derive(EqNoBound)]
pub fn eq_no_bound(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let (ig, tg, wc) = d.generics.split_for_impl();
    let name = &d.ident;
    quote!(const _: () = { impl #ig ::core::cmp::Eq for #name #tg #wc {} };).into()
}

#[proc_macro_derive(DebugNoBound)]
pub fn debug_no_bound(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let (ig, tg, wc) = d.generics.split_for_impl();
    let name = &d.ident;
    let arms = variants(&d).into_iter().map(|(p, f, n)| {
        let (m, i) = fields_of(&f);
        match &f {
            syn::Fields::Named(x) => {
                let names: Vec<String> = x.named.iter().map(|y| y.ident.as_ref().unwrap().to_string()).collect();
                quote!(#p { #(#m: #i),* } => fmt.debug_struct(#n)#(.field(#names, #i))*.finish(),)
            }
            syn::Fields::Unnamed(_) => {
                quote!(#p { #(#m: #i),* } => fmt.debug_tuple(#n)#(.field(#i))*.finish(),)
            }
            syn::Fields::Unit => quote!(#p => fmt.write_str(#n),),
        }
    });
    let body = if is_empty_enum(&d) { quote!(match *self {}) } else { quote!(match self { #(#arms)* }) };
    quote! {
        const _: () = { impl #ig ::core::fmt::Debug for #name #tg #wc {
            fn fmt(&self, fmt: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { #body }
        } };
    }
    .into()
}

#[proc_macro_derive(RuntimeDebugNoBound)]
pub fn runtime_debug_no_bound(input: TokenStream) -> TokenStream {
    debug_no_bound(input)
}

#[proc_macro_derive(DefaultNoBound, attributes(default))]
pub fn default_no_bound(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let (ig, tg, wc) = d.generics.split_for_impl();
    let name = &d.ident;
    let body = match &d.data {
        syn::Data::Struct(s) => {
            let (m, _) = fields_of(&s.fields);
            quote!(Self { #(#m: ::core::default::Default::default()),* })
        }
        syn::Data::Enum(e) => {
            let v = e.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default"))).unwrap();
            let (m, _) = fields_of(&v.fields);
            let i = &v.ident;
            quote!(Self::#i { #(#m: ::core::default::Default::default()),* })
        }
        _ => quote!(),
    };
    quote! {
        const _: () = { impl #ig ::core::default::Default for #name #tg #wc {
            fn default() -> Self { #body }
        } };
    }
    .into()
}

/// `type X<T: Config> = StorageValue<Pallet<T>, V>` or `<Prefix, V>`
#[proc_macro_attribute]
pub fn storage_alias(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let t = parse_macro_input!(item as syn::ItemType);
    let pre = format_ident!("{}_Storage_Instance", t.ident);
    let name = t.ident.to_string();
    let vis = &t.vis;
    let mut ty = (*t.ty).clone();
    let syn::Type::Path(tp) = &mut ty else { panic!("storage_alias") };
    let last = tp.path.segments.last_mut().unwrap();
    let syn::PathArguments::AngleBracketed(a) = &mut last.arguments else { panic!("storage_alias") };
    // the prefix may be `Pallet<T>` (prefix from PalletInfo), or an identifier
    let first = a.args.first().unwrap().clone();
    let firsts = quote!(#first).to_string();
    let mut generics = t.generics.clone();
    for p in generics.type_params_mut() {
        p.default = None;
    }
    let params: Vec<_> = generics.type_params().map(|p| p.ident.clone()).collect();
    let (ig, tg, wc) = generics.split_for_impl();
    let pallet_prefix = if firsts.contains('<') {
        quote!(<#first as ::frame_support::traits::PalletInfoAccess>::name())
    } else {
        quote!(#firsts)
    };
    let bare: Vec<_> = params.iter().map(|p| quote!(#p)).collect();
    *a.args.first_mut().unwrap() = syn::parse_quote!(#pre #tg);
    let ident = &t.ident;
    let tgens = &t.generics;
    let attrs = &t.attrs;
    quote! {
        #(#attrs)*
        #[allow(type_alias_bounds)]
        #vis type #ident #tgens = #ty;
        #[doc(hidden)] #[allow(non_camel_case_types)]
        #vis struct #pre<#(#bare),*>(::core::marker::PhantomData<(#(#bare,)*)>);
        impl #ig ::frame_support::traits::StorageInstance for #pre #tg #wc {
            fn pallet_prefix() -> &'static str { #pallet_prefix }
            const STORAGE_PREFIX: &'static str = #name;
        }
    }
    .into()
}
