use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::{
    parse::{Parse, ParseStream},
    punctuated::Punctuated,
    *,
};

pub struct Part {
    name: Ident,
    generic: bool,
}
impl Parse for Part {
    fn parse(i: ParseStream) -> Result<Self> {
        let name: Ident = i.parse()?;
        let mut generic = false;
        if i.peek(Token![<]) {
            i.parse::<Token![<]>()?;
            let _: Punctuated<Ident, Token![,]> = Punctuated::parse_separated_nonempty(i)?;
            i.parse::<Token![>]>()?;
            generic = true;
        }
        Ok(Part { name, generic })
    }
}

pub struct Pallet {
    name: Ident,
    path: Path,
    instance: Option<Ident>,
    parts: Vec<Part>,
    index: Option<u8>,
}
impl Parse for Pallet {
    fn parse(i: ParseStream) -> Result<Self> {
        let name: Ident = i.parse()?;
        i.parse::<Token![:]>()?;
        let mut path = Path { leading_colon: i.parse()?, segments: Punctuated::new() };
        let mut instance = None;
        let mut parts = None;
        loop {
            if i.peek(token::Brace) {
                let c;
                braced!(c in i);
                let p: Punctuated<Part, Token![,]> = Punctuated::parse_terminated(&c)?;
                parts = Some(p.into_iter().collect::<Vec<_>>());
                break;
            }
            if i.peek(Token![<]) {
                i.parse::<Token![<]>()?;
                instance = Some(i.parse()?);
                i.parse::<Token![>]>()?;
            } else {
                let id: Ident = i.call(ext::IdentExt::parse_any)?;
                path.segments.push(PathSegment { ident: id, arguments: PathArguments::None });
            }
            if i.peek(Token![::]) {
                i.parse::<Token![::]>()?;
            } else {
                break;
            }
        }
        let index = if i.peek(Token![=]) {
            i.parse::<Token![=]>()?;
            let l: LitInt = i.parse()?;
            Some(l.base10_parse()?)
        } else {
            None
        };
        let last = path.segments.last().unwrap().ident.to_string();
        let parts = parts.unwrap_or_else(|| {
            // the parts of the pallets the mocks list without them
            let s: &[(&str, bool)] = match last.as_str() {
                "pallet_utility" => &[("Pallet", false), ("Call", false), ("Event", false)],
                "pallet_proxy" | "pallet_preimage" => &[("Pallet", false), ("Call", false), ("Event", true)],
                _ => &[("Pallet", false), ("Call", false), ("Config", true), ("Event", true)],
            };
            s.iter().map(|(n, g)| Part { name: format_ident!("{}", n), generic: *g }).collect()
        });
        Ok(Pallet { name, path, instance, parts, index })
    }
}

pub struct Runtime {
    vis: Visibility,
    name: Ident,
    pallets: Vec<Pallet>,
}
impl Parse for Runtime {
    fn parse(i: ParseStream) -> Result<Self> {
        let vis = i.parse()?;
        if i.peek(Token![enum]) {
            i.parse::<Token![enum]>()?;
        } else {
            i.parse::<Token![struct]>()?;
        }
        let name = i.parse()?;
        if i.peek(Token![where]) {
            i.parse::<Token![where]>()?;
            while !i.peek(token::Brace) {
                i.parse::<proc_macro2::TokenTree>()?;
            }
        }
        let c;
        braced!(c in i);
        let p: Punctuated<Pallet, Token![,]> = Punctuated::parse_terminated(&c)?;
        Ok(Runtime { vis, name, pallets: p.into_iter().collect() })
    }
}

fn snake(s: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    let mut o = String::new();
    for (i, c) in b.iter().enumerate() {
        if c.is_uppercase() {
            let prev_lower = i > 0 && (b[i - 1].is_lowercase() || b[i - 1].is_numeric());
            let next_lower = i > 0 && i + 1 < b.len() && b[i + 1].is_lowercase() && b[i - 1].is_uppercase();
            if prev_lower || next_lower {
                o.push('_');
            }
            o.extend(c.to_lowercase());
        } else {
            o.push(*c);
        }
    }
    o
}

pub fn expand(d: Runtime) -> TokenStream {
    let fs = quote!(::frame_support);
    let pv = quote!(::frame_support::__private);
    let Runtime { vis, name: rt, pallets } = d;
    let mut next = 0u8;
    let mut aliases = vec![];
    let (mut ev, mut ev_from, mut calls, mut call_from) = (vec![], vec![], vec![], vec![]);
    let (mut ori, mut ori_from) = (vec![], vec![]);
    let (mut c_disp, mut c_info, mut c_meta, mut c_names) = (vec![], vec![], vec![], vec![]);
    let (mut pi_idx, mut pi_name) = (vec![], vec![]);
    let (mut gc, mut gb) = (vec![], vec![]);
    let (mut vu, mut vu_pre) = (vec![], vec![]);
    let mut all = vec![];
    let mut mods = vec![];
    for p in &pallets {
        let n = &p.name;
        let path = &p.path;
        let index = p.index.unwrap_or(next);
        next = index + 1;
        let lit = proc_macro2::Literal::u8_suffixed(index);
        let sname = n.to_string();
        let has = |x: &str| p.parts.iter().find(|q| q.name == x);
        let args = match &p.instance {
            Some(i) => quote!(<#rt, #path::#i>),
            None => quote!(<#rt>),
        };
        aliases.push(quote!(#[allow(dead_code)] #vis type #n = #path::Pallet #args;));
        all.push(n.clone());
        mods.push(sname.clone());
        pi_idx.push(quote! {
            if t == ::core::any::TypeId::of::<#n>() { return Some(#lit as usize); }
        });
        pi_name.push(quote! {
            if t == ::core::any::TypeId::of::<#n>() { return Some(#sname); }
        });
        if let Some(e) = has("Event") {
            let a = if e.generic { args.clone() } else { quote!() };
            ev.push(quote!(#[codec(index = #lit)] #n(#path::Event #a),));
            ev_from.push(quote! {
                impl From<#path::Event #a> for RuntimeEvent { fn from(x: #path::Event #a) -> Self { Self::#n(x) } }
                impl TryInto<#path::Event #a> for RuntimeEvent {
                    type Error = ();
                    fn try_into(self) -> Result<#path::Event #a, ()> {
                        match self { Self::#n(e) => Ok(e), #[allow(unreachable_patterns)] _ => Err(()) }
                    }
                }
            });
        } else if sname == "System" {
            ev.push(quote!(#[codec(index = #lit)] #n(#path::Event #args),));
        }
        if has("Origin").is_some() {
            let g = has("Origin").unwrap().generic;
            let a = if g { args.clone() } else { quote!() };
            ori.push(quote!(#[codec(index = #lit)] #n(#path::Origin #a),));
            ori_from.push(quote! {
                impl From<#path::Origin #a> for OriginCaller { fn from(x: #path::Origin #a) -> Self { Self::#n(x) } }
                impl From<#path::Origin #a> for RuntimeOrigin {
                    fn from(x: #path::Origin #a) -> Self { OriginCaller::from(x).into() }
                }
                impl From<RuntimeOrigin> for Result<#path::Origin #a, RuntimeOrigin> {
                    fn from(o: RuntimeOrigin) -> Self {
                        if let OriginCaller::#n(l) = o.caller { Ok(l) } else { Err(o) }
                    }
                }
            });
        }
        if has("Call").is_some() {
            calls.push(quote!(#[codec(index = #lit)] #n(#path::Call #args),));
            call_from.push(quote! {
                impl From<#path::Call #args> for RuntimeCall { fn from(x: #path::Call #args) -> Self { Self::#n(x) } }
                impl #fs::traits::IsSubType<#path::Call #args> for RuntimeCall {
                    fn is_sub_type(&self) -> Option<&#path::Call #args> {
                        match self { Self::#n(c) => Some(c), #[allow(unreachable_patterns)] _ => None }
                    }
                }
            });
            c_disp.push(quote!(Self::#n(c) => #fs::traits::UnfilteredDispatchable::dispatch_bypass_filter(c, origin),));
            c_info.push(quote!(Self::#n(c) => #fs::dispatch::GetDispatchInfo::get_dispatch_info(c),));
            c_meta.push(quote!(Self::#n(c) => #fs::traits::CallMetadata {
                function_name: #fs::traits::GetCallName::get_call_name(c), pallet_name: #sname },));
            c_names.push(quote!(#sname => <#path::Call #args as #fs::traits::GetCallName>::get_call_names(),));
        }
        if let Some(c) = has("Config") {
            let f = format_ident!("{}", snake(&sname));
            let a = if c.generic { args.clone() } else { quote!() };
            gc.push(quote!(pub #f: #path::GenesisConfig #a,));
            gb.push(quote!(self.#f.assimilate_storage(storage)?;));
        }
        if has("ValidateUnsigned").is_some() {
            vu.push(quote!(RuntimeCall::#n(c) => <#n as #fs::unsigned::ValidateUnsigned>::validate_unsigned(source, c),));
            vu_pre.push(quote!(RuntimeCall::#n(c) => <#n as #fs::unsigned::ValidateUnsigned>::pre_dispatch(c),));
        }
    }
    // right-nested so that any number of pallets implements the hooks
    let mut nested = quote!(());
    for n in all.iter().rev() {
        nested = quote!((#n, #nested));
    }
    let _ = nested;
    quote! {
        #[derive(Clone, Copy, PartialEq, Eq, #pv::sp_runtime::RuntimeDebug, #pv::scale_info::TypeInfo)]
        #[scale_info(crate = #pv::scale_info)]
        #vis struct #rt;
        #(#aliases)*

        #[derive(Clone, PartialEq, Eq, Debug, #pv::codec::Encode, #pv::codec::Decode)]
        #[codec(crate = #pv::codec)]
        #[allow(non_camel_case_types)]
        #vis enum RuntimeEvent { #(#ev)* }
        #(#ev_from)*

        #[derive(Clone, PartialEq, Eq, Debug, #pv::codec::Encode, #pv::codec::Decode)]
        #[codec(crate = #pv::codec)]
        #[allow(non_camel_case_types)]
        #vis enum OriginCaller {
            #[codec(index = 255u8)]
            system(::frame_system::Origin<#rt>),
            #(#ori)*
        }
        impl From<::frame_system::Origin<#rt>> for OriginCaller {
            fn from(x: ::frame_system::Origin<#rt>) -> Self { Self::system(x) }
        }
        impl #fs::traits::CallerTrait<<#rt as ::frame_system::Config>::AccountId> for OriginCaller {
            fn as_system_ref(&self) -> Option<&::frame_system::Origin<#rt>> {
                match self { Self::system(o) => Some(o), #[allow(unreachable_patterns)] _ => None }
            }
        }
        #[derive(Clone)]
        #vis struct RuntimeOrigin {
            caller: OriginCaller,
            filter: ::std::rc::Rc<Box<dyn Fn(&RuntimeCall) -> bool + 'static>>,
        }
        impl ::core::fmt::Debug for RuntimeOrigin {
            fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { self.caller.fmt(f) }
        }
        impl #fs::traits::OriginTrait for RuntimeOrigin {
            type Call = RuntimeCall;
            type PalletsOrigin = OriginCaller;
            type AccountId = <#rt as ::frame_system::Config>::AccountId;
            fn add_filter(&mut self, f: impl Fn(&Self::Call) -> bool + 'static) {
                let old = self.filter.clone();
                self.filter = ::std::rc::Rc::new(Box::new(move |c| old(c) && f(c)));
            }
            fn reset_filter(&mut self) {
                self.filter = ::std::rc::Rc::new(Box::new(
                    <<#rt as ::frame_system::Config>::BaseCallFilter as #fs::traits::Contains<RuntimeCall>>::contains));
            }
            fn set_caller_from(&mut self, other: impl Into<Self>) { self.caller = other.into().caller; }
            fn filter_call(&self, c: &Self::Call) -> bool {
                match self.caller {
                    // Root bypasses all filters
                    OriginCaller::system(::frame_system::Origin::<#rt>::Root) => true,
                    #[allow(unreachable_patterns)]
                    _ => (self.filter)(c),
                }
            }
            fn caller(&self) -> &Self::PalletsOrigin { &self.caller }
            fn into_caller(self) -> Self::PalletsOrigin { self.caller }
            fn try_with_caller<R>(self, f: impl FnOnce(Self::PalletsOrigin) -> Result<R, Self::PalletsOrigin>)
                -> Result<R, Self> {
                match f(self.caller) {
                    Ok(r) => Ok(r),
                    Err(caller) => Err(Self { caller, filter: self.filter }),
                }
            }
            fn none() -> Self { ::frame_system::RawOrigin::None.into() }
            fn root() -> Self { ::frame_system::RawOrigin::Root.into() }
            fn signed(by: Self::AccountId) -> Self { ::frame_system::RawOrigin::Signed(by).into() }
        }
        #[allow(dead_code)]
        impl RuntimeOrigin {
            pub fn none() -> Self { <Self as #fs::traits::OriginTrait>::none() }
            pub fn root() -> Self { <Self as #fs::traits::OriginTrait>::root() }
            pub fn signed(by: <#rt as ::frame_system::Config>::AccountId) -> Self {
                <Self as #fs::traits::OriginTrait>::signed(by)
            }
        }
        impl From<OriginCaller> for RuntimeOrigin {
            fn from(caller: OriginCaller) -> Self {
                let mut o = Self { caller, filter: ::std::rc::Rc::new(Box::new(|_| true)) };
                #fs::traits::OriginTrait::reset_filter(&mut o);
                o
            }
        }
        impl From<::frame_system::Origin<#rt>> for RuntimeOrigin {
            fn from(x: ::frame_system::Origin<#rt>) -> Self {
                let o: OriginCaller = x.into();
                o.into()
            }
        }
        impl From<Option<<#rt as ::frame_system::Config>::AccountId>> for RuntimeOrigin {
            fn from(x: Option<<#rt as ::frame_system::Config>::AccountId>) -> Self {
                <::frame_system::Origin<#rt>>::from(x).into()
            }
        }
        impl From<RuntimeOrigin> for Result<::frame_system::Origin<#rt>, RuntimeOrigin> {
            fn from(o: RuntimeOrigin) -> Self {
                match o.caller {
                    OriginCaller::system(l) => Ok(l),
                    #[allow(unreachable_patterns)]
                    _ => Err(o),
                }
            }
        }
        impl TryFrom<OriginCaller> for ::frame_system::Origin<#rt> {
            type Error = OriginCaller;
            fn try_from(o: OriginCaller) -> Result<Self, OriginCaller> {
                match o { OriginCaller::system(l) => Ok(l), #[allow(unreachable_patterns)] x => Err(x) }
            }
        }
        #(#ori_from)*

        #[derive(Clone, PartialEq, Eq, Debug, #pv::codec::Encode, #pv::codec::Decode, #pv::scale_info::TypeInfo)]
        #[codec(crate = #pv::codec)]
        #[scale_info(crate = #pv::scale_info)]
        #vis enum RuntimeCall { #(#calls)* }
        #(#call_from)*
        impl #fs::traits::UnfilteredDispatchable for RuntimeCall {
            type RuntimeOrigin = RuntimeOrigin;
            fn dispatch_bypass_filter(self, origin: RuntimeOrigin) -> #fs::dispatch::DispatchResultWithPostInfo {
                match self { #(#c_disp)* }
            }
        }
        impl #fs::dispatch::Dispatchable for RuntimeCall {
            type RuntimeOrigin = RuntimeOrigin;
            type Config = RuntimeCall;
            type Info = #fs::dispatch::DispatchInfo;
            type PostInfo = #fs::dispatch::PostDispatchInfo;
            fn dispatch(self, origin: RuntimeOrigin) -> #fs::dispatch::DispatchResultWithPostInfo {
                if !<RuntimeOrigin as #fs::traits::OriginTrait>::filter_call(&origin, &self) {
                    return Err(::frame_system::Error::<#rt>::CallFiltered.into());
                }
                #fs::traits::UnfilteredDispatchable::dispatch_bypass_filter(self, origin)
            }
        }
        impl #fs::dispatch::GetDispatchInfo for RuntimeCall {
            fn get_dispatch_info(&self) -> #fs::dispatch::DispatchInfo { match self { #(#c_info)* } }
        }
        impl #fs::traits::GetCallMetadata for RuntimeCall {
            fn get_module_names() -> &'static [&'static str] { &[#(#mods),*] }
            fn get_call_names(module: &str) -> &'static [&'static str] {
                match module { #(#c_names)* _ => panic!("no such module") }
            }
            fn get_call_metadata(&self) -> #fs::traits::CallMetadata { match self { #(#c_meta)* } }
        }

        #vis struct PalletInfo;
        impl #fs::traits::PalletInfo for PalletInfo {
            fn index<P: 'static>() -> Option<usize> { let t = ::core::any::TypeId::of::<P>(); #(#pi_idx)* None }
            fn name<P: 'static>() -> Option<&'static str> { let t = ::core::any::TypeId::of::<P>(); #(#pi_name)* None }
        }
        #[allow(dead_code)]
        #vis type AllPalletsWithSystem = (#(#all,)*);

        #[derive(Default)]
        #vis struct RuntimeGenesisConfig { #(#gc)* }
        impl #pv::sp_runtime::BuildStorage for RuntimeGenesisConfig {
            fn assimilate_storage(&self, storage: &mut #pv::sp_runtime::Storage) -> Result<(), String> {
                #(#gb)*
                let _ = storage;
                Ok(())
            }
        }
        impl #fs::unsigned::ValidateUnsigned for #rt {
            type Call = RuntimeCall;
            fn pre_dispatch(call: &RuntimeCall) -> Result<(), #fs::unsigned::TransactionValidityError> {
                #[allow(unreachable_patterns)]
                match call { #(#vu_pre)* _ => Err(#fs::unsigned::UnknownTransaction::NoUnsignedValidator.into()) }
            }
            fn validate_unsigned(source: #fs::unsigned::TransactionSource, call: &RuntimeCall)
                -> #fs::unsigned::TransactionValidity {
                let _ = &source;
                #[allow(unreachable_patterns)]
                match call { #(#vu)* _ => #fs::unsigned::UnknownTransaction::NoUnsignedValidator.into() }
            }
        }
    }
}
