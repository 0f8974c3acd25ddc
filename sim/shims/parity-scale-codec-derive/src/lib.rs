use proc_macro::TokenStream;
use proc_macro2::{Span, TokenStream as TS};
use quote::{format_ident, quote};
use syn::visit::Visit;
use syn::*;

#[derive(Default)]
struct Attr {
    index: Option<Expr>,
    skip: bool,
    compact: bool,
    encoded_as: Option<Type>,
}
fn attrs(list: &[Attribute]) -> Attr {
    let mut r = Attr::default();
    for a in list.iter().filter(|a| a.path().is_ident("codec")) {
        a.parse_nested_meta(|m| {
            if m.path.is_ident("index") {
                r.index = Some(m.value()?.parse()?);
            } else if m.path.is_ident("skip") {
                r.skip = true;
            } else if m.path.is_ident("compact") {
                r.compact = true;
            } else if m.path.is_ident("encoded_as") {
                let s: LitStr = m.value()?.parse()?;
                r.encoded_as = Some(s.parse()?);
            } else if m.path.is_ident("dumb_trait_bound") {
            } else if m.input.peek(Token![=]) {
                let _: Expr = m.value()?.parse()?;
            } else if m.input.peek(token::Paren) {
                let c;
                parenthesized!(c in m.input);
                let _: TS = c.parse()?;
            }
            Ok(())
        })
        .expect("bad #[codec] attribute");
    }
    r
}
struct Finder<'a> {
    params: &'a [Ident],
    found: bool,
}
impl<'a, 'ast> Visit<'ast> for Finder<'a> {
    fn visit_ident(&mut self, i: &'ast Ident) {
        if self.params.contains(i) {
            self.found = true;
        }
    }
}
fn is_phantom(t: &Type) -> bool {
    matches!(t, Type::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "PhantomData"))
}
fn fields_of(data: &Data) -> Vec<Field> {
    match data {
        Data::Struct(s) => s.fields.iter().cloned().collect(),
        Data::Enum(e) => e.variants.iter().filter(|v| !attrs(&v.attrs).skip).flat_map(|v| v.fields.iter().cloned()).collect(),
        Data::Union(_) => panic!("unions not supported"),
    }
}
fn add_bounds(generics: &mut Generics, data: &Data, name: &Ident, bound: TS, compact_bound: TS) {
    let params: Vec<Ident> = generics.type_params().map(|p| p.ident.clone()).collect();
    if params.is_empty() {
        return;
    }
    let mut preds: Vec<WherePredicate> = vec![];
    for f in fields_of(data) {
        let a = attrs(&f.attrs);
        if a.skip || is_phantom(&f.ty) {
            continue;
        }
        let mut fi = Finder { params: &params, found: false };
        fi.visit_type(&f.ty);
        if !fi.found {
            continue;
        }
        let mut selfref = Finder { params: std::slice::from_ref(name), found: false };
        selfref.visit_type(&f.ty);
        let ty = &f.ty;
        if selfref.found {
            for p in &params {
                preds.push(parse_quote!(#p: #bound));
            }
        } else if a.compact {
            preds.push(parse_quote!(#ty: #compact_bound));
        } else {
            preds.push(parse_quote!(#ty: #bound));
        }
    }
    generics.make_where_clause().predicates.extend(preds);
}
fn enc_field(access: TS, f: &Field) -> TS {
    let a = attrs(&f.attrs);
    let ty = &f.ty;
    if a.skip {
        quote! { let _ = &#access; }
    } else if a.compact {
        quote! { ::parity_scale_codec::Encode::encode_to(&<<#ty as ::parity_scale_codec::HasCompact>::Type as ::parity_scale_codec::EncodeAsRef<'_, #ty>>::RefType::from(#access), dest); }
    } else if let Some(e) = a.encoded_as {
        quote! { ::parity_scale_codec::Encode::encode_to(&<#e as ::parity_scale_codec::EncodeAsRef<'_, #ty>>::RefType::from(#access), dest); }
    } else {
        quote! { ::parity_scale_codec::Encode::encode_to(#access, dest); }
    }
}
fn dec_field(f: &Field) -> TS {
    let a = attrs(&f.attrs);
    let ty = &f.ty;
    if a.skip {
        quote! { ::core::default::Default::default() }
    } else if a.compact {
        quote! { <<#ty as ::parity_scale_codec::HasCompact>::Type as ::parity_scale_codec::Decode>::decode(input)?.into() }
    } else if let Some(e) = a.encoded_as {
        quote! { <#e as ::parity_scale_codec::Decode>::decode(input)?.into() }
    } else {
        quote! { <#ty as ::parity_scale_codec::Decode>::decode(input)? }
    }
}
fn variant_index(v: &Variant, pos: usize) -> TS {
    if let Some(i) = attrs(&v.attrs).index {
        return quote!(((#i) as u8));
    }
    if let Some((_, e)) = &v.discriminant {
        return quote!(((#e) as u8));
    }
    let p = pos as u8;
    quote!(#p)
}
#[proc_macro_derive(Encode, attributes(codec))]
pub fn encode(input: TokenStream) -> TokenStream {
    let mut input: DeriveInput = parse_macro_input!(input);
    let name = input.ident.clone();
    add_bounds(&mut input.generics, &input.data, &name, quote!(::parity_scale_codec::Encode), quote!(::parity_scale_codec::HasCompact));
    let (ig, tg, wc) = input.generics.split_for_impl();
    let body = match &input.data {
        Data::Struct(s) => {
            let parts = s.fields.iter().enumerate().map(|(i, f)| {
                let m = match &f.ident { Some(id) => Member::Named(id.clone()), None => Member::Unnamed(Index::from(i)) };
                enc_field(quote!((&self.#m)), f)
            });
            quote! { #(#parts)* }
        }
        Data::Enum(e) => {
            if e.variants.is_empty() {
                quote! {}
            } else {
                let arms = e.variants.iter().enumerate().map(|(pos, v)| {
                    let vn = &v.ident;
                    if attrs(&v.attrs).skip {
                        return quote! { #name::#vn { .. } => (), };
                    }
                    let idx = variant_index(v, pos);
                    let binds: Vec<Ident> = (0..v.fields.len()).map(|i| format_ident!("f{}__", i)).collect();
                    let pat = match &v.fields {
                        Fields::Named(n) => { let ids = n.named.iter().map(|f| f.ident.as_ref().unwrap()); quote!({ #(#ids: #binds),* }) }
                        Fields::Unnamed(_) => quote!(( #(#binds),* )),
                        Fields::Unit => quote!(),
                    };
                    let parts = v.fields.iter().zip(&binds).map(|(f, b)| enc_field(quote!(#b), f));
                    quote! { #name::#vn #pat => { ::parity_scale_codec::Output::push_byte(dest, #idx); #(#parts)* } }
                });
                quote! { match self { #(#arms)* } }
            }
        }
        Data::Union(_) => panic!(),
    };
    quote! {
        #[automatically_derived]
        #[allow(deprecated, clippy::all)]
        const _: () = {
            impl #ig ::parity_scale_codec::Encode for #name #tg #wc {
                fn encode_to<__CodecOutputEdqy: ::parity_scale_codec::Output + ?::core::marker::Sized>(&self, dest: &mut __CodecOutputEdqy) { let _ = &dest; #body }
            }
            impl #ig ::parity_scale_codec::EncodeLike for #name #tg #wc {}
        };
    }.into()
}
#[proc_macro_derive(Decode, attributes(codec))]
pub fn decode(input: TokenStream) -> TokenStream {
    let mut input: DeriveInput = parse_macro_input!(input);
    let name = input.ident.clone();
    add_bounds(&mut input.generics, &input.data, &name, quote!(::parity_scale_codec::Decode), quote!(::parity_scale_codec::HasCompact));
    let (ig, tg, wc) = input.generics.split_for_impl();
    let build = |path: TS, fields: &Fields| -> TS {
        match fields {
            Fields::Named(n) => { let parts = n.named.iter().map(|f| { let id = &f.ident; let d = dec_field(f); quote!(#id: #d) }); quote!(#path { #(#parts),* }) }
            Fields::Unnamed(u) => { let parts = u.unnamed.iter().map(dec_field); quote!(#path ( #(#parts),* )) }
            Fields::Unit => path,
        }
    };
    let body = match &input.data {
        Data::Struct(s) => { let b = build(quote!(#name), &s.fields); quote!(Ok(#b)) }
        Data::Enum(e) => {
            let arms = e.variants.iter().enumerate().filter(|(_, v)| !attrs(&v.attrs).skip).map(|(pos, v)| {
                let vn = &v.ident;
                let idx = variant_index(v, pos);
                let b = build(quote!(#name::#vn), &v.fields);
                quote! { x__ if x__ == #idx => Ok(#b), }
            });
            let msg = format!("Could not decode `{}`, variant doesn't exist", name);
            let msg2 = format!("Could not decode `{}`, failed to read variant byte", name);
            quote! { match ::parity_scale_codec::Input::read_byte(input).map_err(|e| e.chain(#msg2))? { #(#arms)* _ => Err(<_ as ::core::convert::Into<::parity_scale_codec::Error>>::into(#msg)) } }
        }
        Data::Union(_) => panic!(),
    };
    let _ = Span::call_site();
    quote! {
        #[automatically_derived]
        #[allow(deprecated, clippy::all)]
        const _: () = {
            impl #ig ::parity_scale_codec::Decode for #name #tg #wc {
                fn decode<__CodecInputEdqy: ::parity_scale_codec::Input>(input: &mut __CodecInputEdqy) -> ::core::result::Result<Self, ::parity_scale_codec::Error> { let _ = &input; #body }
            }
        };
    }.into()
}
#[proc_macro_derive(CompactAs, attributes(codec))]
pub fn compact_as(_: TokenStream) -> TokenStream { panic!("CompactAs derive is not implemented in the shim") }
#[proc_macro_derive(MaxEncodedLen, attributes(codec))]
pub fn mel(_: TokenStream) -> TokenStream { TokenStream::new() }
