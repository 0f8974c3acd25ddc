//! `#[bitflags]` of the enumflags2 stand-in: one bit per variant, in order.
use proc_macro::{Delimiter, TokenStream, TokenTree};
#[proc_macro_attribute]
pub fn bitflags(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut out = item.clone();
    let (mut name, mut body) = (String::new(), None);
    let mut it = item.into_iter();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Ident(i) if i.to_string() == "enum" => name = it.next().unwrap().to_string(),
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => body = Some(g),
            _ => {}
        }
    }
    let mut vars = Vec::new();
    let mut expect = true;
    let mut b = body.unwrap().stream().into_iter();
    while let Some(t) = b.next() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '#' => { b.next(); }
            TokenTree::Punct(p) if p.as_char() == ',' => expect = true,
            TokenTree::Ident(i) if expect => { vars.push(i.to_string()); expect = false; }
            _ => {}
        }
    }
    let list: String = vars.iter().map(|v| format!("{name}::{v},")).collect();
    out.extend(format!("impl ::enumflags2::BitFlag for {name} {{ const LIST: &'static [Self] = &[{list}]; }}").parse::<TokenStream>().unwrap());
    out
}
