//! `#[visibility::make(pub)]`: replace the item's visibility.
use proc_macro::TokenStream;
use quote::ToTokens;
use syn::{parse_macro_input, ImplItemFn, Visibility};
#[proc_macro_attribute]
pub fn make(args: TokenStream, input: TokenStream) -> TokenStream {
    let vis = parse_macro_input!(args as Visibility);
    if let Ok(mut f) = syn::parse::<ImplItemFn>(input.clone()) {
        f.vis = vis;
        return f.into_token_stream().into();
    }
    let mut item = parse_macro_input!(input as syn::Item);
    match &mut item {
        syn::Item::Fn(f) => f.vis = vis,
        syn::Item::Struct(f) => f.vis = vis,
        syn::Item::Enum(f) => f.vis = vis,
        syn::Item::Type(f) => f.vis = vis,
        syn::Item::Trait(f) => f.vis = vis,
        syn::Item::Mod(f) => f.vis = vis,
        syn::Item::Const(f) => f.vis = vis,
        _ => {}
    }
    item.into_token_stream().into()
}
