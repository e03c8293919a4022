//! Stand-in for num_enum's FromPrimitive on a repr(u8) enum with explicit discriminants and a default.
use proc_macro::{TokenStream, TokenTree};
#[proc_macro_derive(FromPrimitive, attributes(num_enum))]
pub fn fp(item: TokenStream) -> TokenStream {
    let toks: Vec<TokenTree> = item.into_iter().collect();
    let mut name = String::new();
    let mut vs: Vec<(String, String)> = vec![];
    let mut def = String::new();
    for (i, t) in toks.iter().enumerate() {
        if t.to_string() == "enum" {
            name = toks[i + 1].to_string();
            if let TokenTree::Group(g) = &toks[i + 2] {
                let mut isdef = false;
                let mut cur: Option<String> = None;
                let mut hash = false;
                let mut eq = false;
                for t in g.stream() {
                    match t {
                        TokenTree::Punct(p) if p.as_char() == '#' => hash = true,
                        TokenTree::Punct(p) if p.as_char() == '=' => eq = true,
                        TokenTree::Group(g) if hash => {
                            hash = false;
                            isdef = g.to_string().contains("default");
                        }
                        TokenTree::Ident(v) => {
                            if isdef {
                                def = v.to_string();
                                isdef = false;
                            }
                            cur = Some(v.to_string());
                        }
                        TokenTree::Literal(l) if eq => {
                            eq = false;
                            vs.push((cur.take().unwrap(), l.to_string()));
                        }
                        _ => {}
                    }
                }
            }
        }
    }
    let arms: String = vs.iter().map(|(v, l)| format!("{} => {}::{},", l, name, v)).collect();
    format!("impl ::core::convert::From<u8> for {n} {{ fn from(x: u8) -> Self {{ #[allow(unreachable_patterns)] match x {{ {a} _ => {n}::{d} }} }} }}", n = name, a = arms, d = def).parse().unwrap()
}
