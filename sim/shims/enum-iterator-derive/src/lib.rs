//! Stand-in for enum-iterator's derive: field-less enums only.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields};
#[proc_macro_derive(Sequence)]
pub fn sequence(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let Data::Enum(e) = &input.data else { panic!("the stand-in derives Sequence for enums only") };
    let vars: Vec<_> = e.variants.iter().map(|v| {
        assert!(matches!(v.fields, Fields::Unit), "the stand-in supports field-less variants only");
        v.ident.clone()
    }).collect();
    let n = vars.len();
    let idx = 0..n;
    let idx2 = 0..n;
    quote! {
        impl ::enum_iterator::Sequence for #name {
            const CARDINALITY: usize = #n;
            fn from_index(i: usize) -> Option<Self> { match i { #( #idx => Some(#name::#vars), )* _ => None } }
            fn index(&self) -> usize { match self { #( #name::#vars => #idx2, )* } }
        }
    }.into()
}
