use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use syn::{parse::Parse, spanned::Spanned, visit_mut::VisitMut, *};

fn err<T>(s: impl ToTokens, m: &str) -> Result<T> {
    Err(Error::new(s.span(), m))
}

/// The `pallet::X` attribute of an item: its name and tokens, removed from the list.
fn take(attrs: &mut Vec<Attribute>) -> Vec<(String, Attribute)> {
    let mut out = vec![];
    attrs.retain(|a| {
        let s = &a.path().segments;
        if s.len() == 2 && s[0].ident == "pallet" {
            out.push((s[1].ident.to_string(), a.clone()));
            false
        } else {
            true
        }
    });
    out
}

fn attrs_of(i: &mut Item) -> Option<&mut Vec<Attribute>> {
    Some(match i {
        Item::Const(x) => &mut x.attrs,
        Item::Enum(x) => &mut x.attrs,
        Item::Fn(x) => &mut x.attrs,
        Item::Impl(x) => &mut x.attrs,
        Item::Struct(x) => &mut x.attrs,
        Item::Trait(x) => &mut x.attrs,
        Item::Type(x) => &mut x.attrs,
        _ => return None,
    })
}

fn no_defaults(g: &Generics) -> Generics {
    let mut g = g.clone();
    for p in g.type_params_mut() {
        p.default = None;
        p.eq_token = None;
    }
    g
}

fn idents(g: &Generics) -> Vec<Ident> {
    g.type_params().map(|p| p.ident.clone()).collect()
}

struct StripPallet;
impl VisitMut for StripPallet {
    fn visit_trait_item_type_mut(&mut self, i: &mut TraitItemType) {
        take(&mut i.attrs);
    }
}

struct GetterDef(Visibility, Ident);
impl Parse for GetterDef {
    fn parse(i: parse::ParseStream) -> Result<Self> {
        let v = i.parse()?;
        i.parse::<Token![fn]>()?;
        Ok(GetterDef(v, i.parse()?))
    }
}

fn is_cfg(a: &Attribute) -> bool {
    a.path().is_ident("cfg")
}

fn lit_of(e: &Attribute) -> Option<Lit> {
    e.parse_args::<Lit>().ok()
}

pub fn expand(mut m: ItemMod) -> Result<TokenStream> {
    let fs = quote!(::frame_support);
    let pv = quote!(::frame_support::__private);
    let sysp = quote!(::frame_system);
    let (brace, items) = m.content.take().ok_or_else(|| Error::new(Span::call_site(), "inline module"))?;
    let _ = brace;

    // ---- does the pallet take an instance?
    let mut has_i = false;
    for i in &items {
        if let Item::Trait(t) = i {
            if t.ident == "Config" {
                has_i = t.generics.type_params().count() > 0;
            }
        }
    }
    let (ig, ug, cfg): (TokenStream, TokenStream, TokenStream) = if has_i {
        (quote!(T: Config<I>, I: 'static), quote!(T, I), quote!(Config<I>))
    } else {
        (quote!(T: Config), quote!(T), quote!(Config))
    };
    let struct_bounds: TokenStream = if has_i { quote!(T, I) } else { quote!(T) };
    let marker = quote!(::core::marker::PhantomData<(#ug)>);

    let mut out: Vec<TokenStream> = vec![];
    let mut saw_hooks = false;
    let mut saw_call = false;
    let mut saw_genesis = None;
    let mut storage_version = quote!(#fs::traits::StorageVersion::new(0));

    for mut item in items {
        let Some(at) = attrs_of(&mut item) else {
            out.push(item.to_token_stream());
            continue;
        };
        let pa = take(at);
        let kind = pa.iter().map(|x| x.0.as_str()).find(|k| {
            matches!(
                *k,
                "config" | "pallet" | "event" | "error" | "storage" | "type_value" | "call" | "hooks" | "genesis_config"
                    | "genesis_build" | "validate_unsigned" | "origin" | "inherent" | "extra_constants" | "composite_enum"
            )
        });
        match (kind, item) {
            (Some("config"), Item::Trait(mut t)) => {
                StripPallet.visit_item_trait_mut(&mut t);
                out.push(t.to_token_stream());
            }
            (Some("pallet"), Item::Struct(mut s)) => {
                for (n, a) in &pa {
                    if n == "storage_version" {
                        let e: Expr = a.parse_args()?;
                        storage_version = quote!(#e);
                    }
                }
                s.fields = Fields::Unnamed(parse_quote!((#[doc(hidden)] pub(crate) #marker)));
                out.push(quote! {
                    #[derive(#fs::CloneNoBound, #fs::EqNoBound, #fs::PartialEqNoBound, #fs::DebugNoBound)]
                    #s
                });
            }
            (Some("event"), Item::Enum(mut e)) => {
                let ids = idents(&e.generics);
                let g = no_defaults(&e.generics);
                let wc = e.generics.where_clause.clone();
                let gp = &g.params;
                if !ids.is_empty() {
                    let pd: Variant = parse_quote!(#[doc(hidden)] #[codec(skip)] __Ignore(
                        ::core::marker::PhantomData<(#(#ids,)*)>, #fs::Never));
                    e.variants.push(pd);
                }
                let name = &e.ident;
                let targs = if ids.is_empty() { quote!() } else { quote!(<#(#ids),*>) };
                for (n, a) in &pa {
                    if n == "generate_deposit" {
                        let GetterDef(v, f) = a.parse_args()?;
                        out.push(quote! {
                            impl<#ig> Pallet<#ug> {
                                #v fn #f(event: #name #targs) {
                                    let event = <<T as #cfg>::RuntimeEvent as From<#name #targs>>::from(event);
                                    let event = <<T as #cfg>::RuntimeEvent as Into<
                                        <T as #sysp::Config>::RuntimeEvent>>::into(event);
                                    <#sysp::Pallet<T>>::deposit_event(event)
                                }
                            }
                        });
                    }
                }
                out.push(quote! {
                    #[derive(#fs::CloneNoBound, #fs::EqNoBound, #fs::PartialEqNoBound, #fs::DebugNoBound,
                        #pv::codec::Encode, #pv::codec::Decode)]
                    #[codec(crate = #pv::codec)]
                    #[codec(encode_bound())]
                    #[codec(decode_bound())]
                    #[allow(deprecated)]
                    #e
                    impl<#gp> From<#name #targs> for () #wc { fn from(_: #name #targs) {} }
                });
            }
            (Some("error"), Item::Enum(mut e)) => {
                let name = e.ident.clone();
                let mut arms = vec![];
                let mut idx = vec![];
                for (k, v) in e.variants.iter().enumerate() {
                    let i = &v.ident;
                    let s = i.to_string();
                    let cf: Vec<_> = v.attrs.iter().filter(|a| is_cfg(a)).collect();
                    let pat = match &v.fields {
                        Fields::Unit => quote!(),
                        Fields::Named(_) => quote!({ .. }),
                        Fields::Unnamed(_) => quote!((..)),
                    };
                    let k = k as u8;
                    arms.push(quote!(#(#cf)* Self::#i #pat => #s,));
                    idx.push(quote!(#(#cf)* Self::#i #pat => #k,));
                }
                let _ = idx;
                e.variants.insert(0, parse_quote!(#[doc(hidden)] #[codec(skip)] __Ignore(#marker, #fs::Never)));
                out.push(quote! {
                    #[derive(#pv::codec::Encode, #pv::codec::Decode)]
                    #[codec(crate = #pv::codec)]
                    #[codec(encode_bound())]
                    #[codec(decode_bound())]
                    #e
                    impl<#struct_bounds> ::core::fmt::Debug for #name<#ug> {
                        fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                            f.write_str(self.as_str())
                        }
                    }
                    impl<#struct_bounds> #name<#ug> {
                        #[doc(hidden)]
                        pub fn as_str(&self) -> &'static str {
                            match self {
                                Self::__Ignore(..) => unreachable!(),
                                #(#arms)*
                            }
                        }
                    }
                    impl<#struct_bounds> From<#name<#ug>> for &'static str {
                        fn from(e: #name<#ug>) -> &'static str { e.as_str() }
                    }
                    impl<#ig> From<#name<#ug>> for #pv::sp_runtime::DispatchError {
                        fn from(e: #name<#ug>) -> Self {
                            use #pv::codec::Encode;
                            let index = <<T as #sysp::Config>::PalletInfo as #fs::traits::PalletInfo>
                                ::index::<Pallet<#ug>>().expect("every active pallet has an index") as u8;
                            let mut enc = e.encode();
                            enc.resize(#pv::sp_runtime::MAX_MODULE_ERROR_ENCODED_SIZE, 0);
                            #pv::sp_runtime::DispatchError::Module(#pv::sp_runtime::ModuleError {
                                index,
                                error: ::core::convert::TryInto::try_into(enc).expect("resized"),
                                message: Some(e.as_str()),
                            })
                        }
                    }
                });
            }
            (Some("storage"), Item::Type(mut t)) => {
                let mut prefix_name = t.ident.to_string();
                let mut getter = None;
                for (n, a) in &pa {
                    match n.as_str() {
                        "getter" => getter = Some(a.parse_args::<GetterDef>()?.1),
                        "storage_prefix" => {
                            if let Meta::NameValue(nv) = &a.meta {
                                if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                                    prefix_name = s.value();
                                }
                            }
                        }
                        _ => {}
                    }
                }
                let pre = format_ident!("_GeneratedPrefixForStorage{}", t.ident);
                let mut g = no_defaults(&t.generics);
                for p in g.type_params_mut() {
                    if p.bounds.is_empty() {
                        p.bounds = if p.ident == "I" { parse_quote!('static) } else { parse_quote!(#cfg) };
                    }
                }
                let ids = idents(&g);
                let (sig, stg, swc) = g.split_for_impl();
                let Type::Path(tp) = &mut *t.ty else { return err(&t.ty, "storage type") };
                let last = tp.path.segments.last_mut().unwrap();
                let kind = last.ident.to_string();
                let PathArguments::AngleBracketed(args) = &mut last.arguments else {
                    return err(&last.ident, "storage generics");
                };
                // StorageX<_, ..>; named generics are put in their positions
                let mut pos: Vec<GenericArgument> = vec![];
                let names: &[&str] = match kind.as_str() {
                    "StorageValue" => &["Value", "QueryKind", "OnEmpty"],
                    "StorageMap" | "CountedStorageMap" => &["Hasher", "Key", "Value", "QueryKind", "OnEmpty", "MaxValues"],
                    "StorageDoubleMap" => {
                        &["Hasher1", "Key1", "Hasher2", "Key2", "Value", "QueryKind", "OnEmpty", "MaxValues"]
                    }
                    "StorageNMap" => &["Key", "Value", "QueryKind", "OnEmpty", "MaxValues"],
                    _ => return err(&last.ident, "storage kind"),
                };
                let named = args.args.iter().any(|a| matches!(a, GenericArgument::AssocType(_)));
                if named {
                    for n in names {
                        let f = args.args.iter().find_map(|a| match a {
                            GenericArgument::AssocType(x) if x.ident == n => Some(GenericArgument::Type(x.ty.clone())),
                            _ => None,
                        });
                        match f {
                            Some(x) => pos.push(x),
                            None if *n == "QueryKind" => pos.push(parse_quote!(#fs::storage::types::OptionQuery)),
                            None if *n == "OnEmpty" => pos.push(parse_quote!(#fs::traits::GetDefault)),
                            None => {}
                        }
                    }
                } else {
                    pos = args.args.iter().skip(1).cloned().collect();
                }
                let vi = names.iter().position(|x| *x == "Value").unwrap();
                let value = pos[vi].clone();
                let query = pos.get(vi + 1).cloned();
                // a default given as `X` for a type_value is used as written
                let mut new: syn::punctuated::Punctuated<GenericArgument, Token![,]> = Default::default();
                new.push(parse_quote!(#pre #stg));
                new.extend(pos.clone());
                args.args = new;
                let vis = &t.vis;
                let id = &t.ident;
                let cf: Vec<Attribute> = t.attrs.iter().filter(|a| is_cfg(a)).cloned().collect();
                let inst = if has_i { quote!(I) } else { quote!() };
                let _ = inst;
                let name = Lit::new(proc_macro2::Literal::string(&prefix_name));
                let tgens = &t.generics;
                let ty = &t.ty;
                let attrs = &t.attrs;
                out.push(quote! {
                    #(#attrs)*
                    #[allow(type_alias_bounds)]
                    #vis type #id #tgens = #ty;
                    #(#cf)* #[doc(hidden)]
                    #vis struct #pre<#(#ids),*>(::core::marker::PhantomData<(#(#ids,)*)>);
                    #(#cf)*
                    impl #sig #fs::traits::StorageInstance for #pre #stg #swc {
                        fn pallet_prefix() -> &'static str {
                            <<T as #sysp::Config>::PalletInfo as #fs::traits::PalletInfo>
                                ::name::<Pallet<#ug>>().expect("every active pallet has a name")
                        }
                        const STORAGE_PREFIX: &'static str = #name;
                    }
                });
                if let Some(f) = getter {
                    let ret = match &query {
                        Some(q) => {
                            let s = q.to_token_stream().to_string().replace(' ', "");
                            if s.starts_with("ValueQuery") {
                                quote!(#value)
                            } else if s.starts_with("ResultQuery") {
                                let e = s.trim_start_matches("ResultQuery<").trim_end_matches('>');
                                let e: TokenStream = e.rsplit_once("::").unwrap().0.parse().unwrap();
                                quote!(Result<#value, #e>)
                            } else {
                                quote!(Option<#value>)
                            }
                        }
                        None => quote!(Option<#value>),
                    };
                    let (pg, body) = match kind.as_str() {
                        "StorageValue" => (quote!(fn #f() -> #ret), quote!(#id::#stg::get())),
                        "StorageMap" | "CountedStorageMap" => {
                            let k = &pos[1];
                            (
                                quote!(fn #f<KArg>(k: KArg) -> #ret where KArg: #pv::codec::EncodeLike<#k>),
                                quote!(#id::#stg::get(k)),
                            )
                        }
                        "StorageDoubleMap" => {
                            let (k1, k2) = (&pos[1], &pos[3]);
                            (
                                quote!(fn #f<KArg1, KArg2>(k1: KArg1, k2: KArg2) -> #ret
                                    where KArg1: #pv::codec::EncodeLike<#k1>, KArg2: #pv::codec::EncodeLike<#k2>),
                                quote!(#id::#stg::get(k1, k2)),
                            )
                        }
                        _ => return err(id, "getter"),
                    };
                    out.push(quote! { #(#cf)* impl<#ig> Pallet<#ug> { pub #pg { #body } } });
                }
            }
            (Some("type_value"), Item::Fn(f)) => {
                let g = no_defaults(&f.sig.generics);
                let ids = idents(&g);
                let (sig, stg, swc) = g.split_for_impl();
                let vis = &f.vis;
                let id = &f.sig.ident;
                let ReturnType::Type(_, ret) = &f.sig.output else { return err(id, "type_value") };
                let block = &f.block;
                let st = if ids.is_empty() {
                    quote!(#vis struct #id;)
                } else {
                    quote!(#vis struct #id<#(#ids),*>(::core::marker::PhantomData<(#(#ids,)*)>);)
                };
                let attrs = &f.attrs;
                out.push(quote! {
                    #(#attrs)* #st
                    impl #sig #fs::traits::Get<#ret> for #id #stg #swc {
                        fn get() -> #ret #block
                    }
                });
            }
            (Some("call"), Item::Impl(mut im)) => {
                saw_call = true;
                out.push(call(&mut im, has_i)?);
                out.push(im.to_token_stream());
            }
            (Some("hooks"), Item::Impl(im)) => {
                saw_hooks = true;
                out.push(im.to_token_stream());
            }
            (Some("genesis_config"), Item::Struct(mut s)) => {
                saw_genesis = Some((s.ident.clone(), idents(&s.generics)));
                for f in s.fields.iter_mut() {
                    f.attrs.retain(|a| !a.path().is_ident("serde"));
                }
                s.attrs.retain(|a| !a.path().is_ident("serde"));
                out.push(s.to_token_stream());
            }
            (Some("genesis_build"), Item::Impl(im)) => {
                let ty = &im.self_ty;
                let g = no_defaults(&im.generics);
                let (sig, _, swc) = g.split_for_impl();
                out.push(quote! {
                    #im
                    impl #sig #pv::sp_runtime::BuildStorage for #ty #swc {
                        fn assimilate_storage(&self, storage: &mut #pv::sp_runtime::Storage) -> Result<(), String> {
                            #pv::BasicExternalities::execute_with_storage(storage, || {
                                #fs::traits::BuildGenesisConfig::build(self);
                                Ok(())
                            })
                        }
                    }
                });
            }
            (Some("origin"), i) | (Some("validate_unsigned"), i) => out.push(i.to_token_stream()),
            (Some("extra_constants"), _) => {}
            (Some(k), i) => return err(&i, &format!("unsupported pallet item {k}")),
            (None, i) => out.push(i.to_token_stream()),
        }
    }
    let _ = saw_genesis;

    if !saw_hooks {
        out.push(quote! {
            impl<#ig> #fs::traits::Hooks<#sysp::pallet_prelude::BlockNumberFor<T>> for Pallet<#ug> {}
        });
    }
    if !saw_call {
        let mut im: ItemImpl = parse_quote!(impl<#ig> Pallet<#ug> {});
        out.push(call(&mut im, has_i)?);
    }
    let n = quote!(#sysp::pallet_prelude::BlockNumberFor<T>);
    out.push(quote! {
        impl<#ig> #fs::traits::OnInitialize<#n> for Pallet<#ug> {
            fn on_initialize(n: #n) -> #fs::weights::Weight { <Self as #fs::traits::Hooks<#n>>::on_initialize(n) }
        }
        impl<#ig> #fs::traits::OnFinalize<#n> for Pallet<#ug> {
            fn on_finalize(n: #n) { <Self as #fs::traits::Hooks<#n>>::on_finalize(n) }
        }
        impl<#ig> #fs::traits::OnIdle<#n> for Pallet<#ug> {
            fn on_idle(n: #n, w: #fs::weights::Weight) -> #fs::weights::Weight {
                <Self as #fs::traits::Hooks<#n>>::on_idle(n, w)
            }
        }
        impl<#ig> #fs::traits::OnRuntimeUpgrade for Pallet<#ug> {
            fn on_runtime_upgrade() -> #fs::weights::Weight { <Self as #fs::traits::Hooks<#n>>::on_runtime_upgrade() }
        }
        impl<#ig> #fs::traits::OffchainWorker<#n> for Pallet<#ug> {
            fn offchain_worker(n: #n) { <Self as #fs::traits::Hooks<#n>>::offchain_worker(n) }
        }
        impl<#ig> #fs::traits::IntegrityTest for Pallet<#ug> {
            fn integrity_test() { <Self as #fs::traits::Hooks<#n>>::integrity_test() }
        }
        impl<#ig> #fs::traits::PalletInfoAccess for Pallet<#ug> {
            fn index() -> usize {
                <<T as #sysp::Config>::PalletInfo as #fs::traits::PalletInfo>::index::<Self>().expect("active")
            }
            fn name() -> &'static str {
                <<T as #sysp::Config>::PalletInfo as #fs::traits::PalletInfo>::name::<Self>().expect("active")
            }
        }
        impl<#ig> #fs::traits::GetStorageVersion for Pallet<#ug> {
            fn current_storage_version() -> #fs::traits::StorageVersion { #storage_version }
            fn on_chain_storage_version() -> #fs::traits::StorageVersion {
                #fs::traits::StorageVersion::get::<Self>()
            }
        }
    });
    if has_i {
        out.push(quote! {
            #[doc(hidden)] pub use #fs::instances::{Instance1, Instance2, Instance3, Instance4};
        });
    }

    let ItemMod { attrs, vis, ident, .. } = &m;
    Ok(quote! { #(#attrs)* #vis mod #ident { #(#out)* } })
}

fn call(im: &mut ItemImpl, has_i: bool) -> Result<TokenStream> {
    let fs = quote!(::frame_support);
    let pv = quote!(::frame_support::__private);
    let sysp = quote!(::frame_system);
    let (ug, decl): (TokenStream, TokenStream) = if has_i {
        (quote!(T, I), quote!(T: Config<I>, I: 'static = ()))
    } else {
        (quote!(T), quote!(T: Config))
    };
    let ig: TokenStream = if has_i { quote!(T: Config<I>, I: 'static) } else { quote!(T: Config) };
    let wc = im.generics.where_clause.clone();
    let mut vars = vec![];
    let mut disp = vec![];
    let mut weights = vec![];
    let mut names = vec![];
    let mut name_arms = vec![];
    let mut next = 0u8;
    for it in &mut im.items {
        let ImplItem::Fn(f) = it else { continue };
        let pa = take(&mut f.attrs);
        let mut index = None;
        let mut weight: Option<TokenStream> = None;
        for (n, a) in &pa {
            if n == "call_index" {
                if let Some(Lit::Int(l)) = lit_of(a) {
                    index = Some(l.base10_parse::<u8>()?);
                }
            } else if n == "weight" {
                let e: Expr = a.parse_args()?;
                weight = Some(e.to_token_stream());
            }
        }
        let index = index.unwrap_or(next);
        next = index + 1;
        let id = f.sig.ident.clone();
        let mut an = vec![];
        let mut binds = vec![];
        let mut fields = vec![];
        let mut first = true;
        for a in f.sig.inputs.iter_mut() {
            let FnArg::Typed(p) = a else { continue };
            if first {
                first = false;
                continue;
            }
            let pp = take(&mut p.attrs);
            let compact = pp.iter().any(|x| x.0 == "compact");
            let Pat::Ident(pi) = &*p.pat else { return err(&p.pat, "argument name") };
            let n = &pi.ident;
            let ty = &p.ty;
            // the call's field has the argument's name without a leading underscore
            let field = Ident::new(n.to_string().trim_start_matches('_'), n.span());
            if compact {
                fields.push(quote!(#[codec(compact)] #field: #ty));
            } else {
                fields.push(quote!(#field: #ty));
            }
            binds.push(quote!(#field: #n));
            an.push(n.clone());
        }
        let block = f.block.clone();
        // the closure's return type must be known
        let ReturnType::Type(_, ret) = &f.sig.output else { return err(&f.sig, "return type") };
        f.block = parse_quote! {{ #fs::storage::with_storage_layer(|| -> #ret #block) }};
        let lit = proc_macro2::Literal::u8_suffixed(index);
        vars.push(quote! { #[codec(index = #lit)] #id { #(#fields,)* } });
        disp.push(quote! {
            Self::#id { #(#binds,)* } =>
                <Pallet<#ug>>::#id(origin, #(#an,)*).map(Into::into).map_err(Into::into),
        });
        let w = weight.unwrap_or(quote!(#fs::weights::Weight::zero()));
        weights.push(quote! {
            #[allow(unused_variables)]
            Self::#id { #(#binds,)* } => #fs::dispatch::IntoDispatchInfo::into_info(#w),
        });
        let s = id.to_string();
        names.push(quote!(#s));
        name_arms.push(quote!(Self::#id { .. } => #s,));
    }
    Ok(quote! {
        #[derive(#fs::CloneNoBound, #fs::EqNoBound, #fs::PartialEqNoBound, #fs::DebugNoBound,
            #pv::codec::Encode, #pv::codec::Decode, #pv::scale_info::TypeInfo)]
        #[codec(crate = #pv::codec)]
        #[codec(encode_bound())]
        #[codec(decode_bound())]
        #[scale_info(skip_type_params(#ug), crate = #pv::scale_info)]
        #[allow(non_camel_case_types)]
        pub enum Call<#decl> #wc {
            #[doc(hidden)] #[codec(skip)]
            __Ignore(::core::marker::PhantomData<(#ug,)>, #fs::Never),
            #(#vars,)*
        }
        impl<#ig> #fs::traits::UnfilteredDispatchable for Call<#ug> #wc {
            type RuntimeOrigin = #sysp::pallet_prelude::OriginFor<T>;
            fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin)
                -> #fs::dispatch::DispatchResultWithPostInfo {
                let _ = &origin;
                match self { #(#disp)* Self::__Ignore(..) => unreachable!() }
            }
        }
        impl<#ig> #fs::dispatch::GetDispatchInfo for Call<#ug> #wc {
            fn get_dispatch_info(&self) -> #fs::dispatch::DispatchInfo {
                match self { #(#weights)* Self::__Ignore(..) => unreachable!() }
            }
        }
        impl<#ig> #fs::traits::GetCallName for Call<#ug> #wc {
            fn get_call_name(&self) -> &'static str {
                match self { #(#name_arms)* Self::__Ignore(..) => unreachable!() }
            }
            fn get_call_names() -> &'static [&'static str] { &[#(#names),*] }
        }
        impl<#ig> #fs::dispatch::Callable<T> for Pallet<#ug> #wc {
            type RuntimeCall = Call<#ug>;
        }
    })
}
