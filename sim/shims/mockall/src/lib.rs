//! Stand-in for the `mockall` crate (unavailable offline): the mocks are never used by the harnesses, so `mock!`
//! declares the mock's type with methods that panic, and `automock` leaves the trait as it is.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

fn body(ts: TokenStream, make_pub: bool) -> TokenStream {
    let mut out = TokenStream::new();
    let mut in_fn = false;
    for t in ts {
        match &t {
            TokenTree::Ident(i) if i.to_string() == "fn" => {
                in_fn = true;
                if make_pub { out.extend("pub".parse::<TokenStream>().unwrap()); }
            }
            TokenTree::Ident(i) if i.to_string() == "pub" && make_pub => continue,
            TokenTree::Punct(p) if p.as_char() == ';' && in_fn => {
                in_fn = false;
                out.extend("{ unimplemented!() }".parse::<TokenStream>().unwrap());
                continue;
            }
            _ => {}
        }
        out.extend([t]);
    }
    out
}

#[proc_macro]
pub fn mock(input: TokenStream) -> TokenStream {
    let toks: Vec<TokenTree> = input.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    let mut vis = "";
    let mut name = None;
    while i < toks.len() && name.is_none() {
        match &toks[i] {
            TokenTree::Punct(p) if p.as_char() == '#' => i += 1,
            TokenTree::Ident(x) if x.to_string() == "pub" => vis = "pub ",
            TokenTree::Ident(x) => name = Some(x.to_string()),
            _ => {}
        }
        i += 1;
    }
    let name = name.unwrap();
    let mock = format!("Mock{name}");
    out.extend(format!("#[allow(dead_code)] {vis}struct {mock};\n#[allow(dead_code)] impl {mock} {{ #[allow(clippy::new_without_default)] pub fn new() -> Self {{ Self }} }}").parse::<TokenStream>().unwrap());
    if let Some(TokenTree::Group(g)) = toks.get(i) {
        let b = body(g.stream(), true);
        out.extend(format!("#[allow(unused)] impl {mock}").parse::<TokenStream>().unwrap());
        out.extend([TokenTree::Group(Group::new(Delimiter::Brace, b))]);
        i += 1;
    }
    let mut after_for = false;
    if i < toks.len() { out.extend("#[allow(unused)]".parse::<TokenStream>().unwrap()); }
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Ident(x) if x.to_string() == "for" => { after_for = true; out.extend([toks[i].clone()]); }
            TokenTree::Ident(x) if after_for && x.to_string() == name => { after_for = false; out.extend(mock.parse::<TokenStream>().unwrap()); }
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
                out.extend([TokenTree::Group(Group::new(Delimiter::Brace, body(g.stream(), false)))]);
                if i + 1 < toks.len() { out.extend("#[allow(unused)]".parse::<TokenStream>().unwrap()); }
            }
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}
#[proc_macro_attribute]
pub fn automock(_: TokenStream, item: TokenStream) -> TokenStream { item }
