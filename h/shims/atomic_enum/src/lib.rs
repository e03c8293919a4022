//! Stand-in for atomic_enum: the enum plus an AtomicNAME backed by AtomicUsize.
use proc_macro::{TokenStream, TokenTree};
#[proc_macro_attribute]
pub fn atomic_enum(_a: TokenStream, item: TokenStream) -> TokenStream {
    let toks: Vec<TokenTree> = item.clone().into_iter().collect();
    let mut name = String::new();
    let mut vis = String::new();
    let mut variants = vec![];
    for (i, t) in toks.iter().enumerate() {
        if let TokenTree::Ident(id) = t {
            if id.to_string() == "pub" {
                vis = "pub".into();
            }
            if id.to_string() == "enum" {
                name = toks[i + 1].to_string();
                if let TokenTree::Group(g) = &toks[i + 2] {
                    let mut prev_hash = false;
                    let mut cfg = String::new();
                    for t in g.stream() {
                        match t {
                            TokenTree::Punct(p) if p.as_char() == '#' => prev_hash = true,
                            TokenTree::Group(g) if prev_hash => {
                                prev_hash = false;
                                if g.stream().to_string().starts_with("cfg") {
                                    cfg += &format!("#{}", g);
                                }
                            }
                            TokenTree::Ident(v) => {
                                variants.push((cfg.clone(), v.to_string()));
                                cfg.clear();
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
    }
    let arms: String = variants.iter().map(|(c, v)| format!("{} x if x == {}::{} as usize => {}::{},", c, name, v, name, v)).collect();
    let out = format!(
        "#[derive(Clone, Copy, Debug, PartialEq, Eq)] {} {} struct Atomic{n}(::std::sync::atomic::AtomicUsize);
        impl ::std::fmt::Debug for Atomic{n} {{ fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {{ f.write_str(\"atomic\") }} }}
        #[allow(dead_code)]
        impl Atomic{n} {{
            {v} const fn new(x: {n}) -> Self {{ Self(::std::sync::atomic::AtomicUsize::new(x as usize)) }}
            fn cv(x: usize) -> {n} {{ match x {{ {arms} _ => panic!(\"bad enum\") }} }}
            {v} fn load(&self, o: ::std::sync::atomic::Ordering) -> {n} {{ Self::cv(self.0.load(o)) }}
            {v} fn store(&self, x: {n}, o: ::std::sync::atomic::Ordering) {{ self.0.store(x as usize, o) }}
            {v} fn swap(&self, x: {n}, o: ::std::sync::atomic::Ordering) -> {n} {{ Self::cv(self.0.swap(x as usize, o)) }}
        }}",
        item, vis, n = name, v = vis, arms = arms
    );
    out.parse().unwrap()
}
