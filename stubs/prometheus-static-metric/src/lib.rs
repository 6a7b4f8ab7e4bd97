//! The structures that the real macro declares, without their behaviour. Never run.
use proc_macro::{Delimiter, TokenStream, TokenTree};
use std::collections::HashMap;
fn values(g: TokenStream) -> Vec<String> {
    let mut out = vec![];
    let mut fresh = true;
    for t in g {
        match t {
            TokenTree::Ident(i) if fresh => { out.push(i.to_string()); fresh = false; }
            TokenTree::Punct(p) if p.as_char() == ',' => fresh = true,
            _ => {}
        }
    }
    out
}
#[proc_macro]
pub fn make_auto_flush_static_metric(x: TokenStream) -> TokenStream { make_static_metric(x) }
#[proc_macro]
pub fn make_static_metric(x: TokenStream) -> TokenStream {
    let t: Vec<TokenTree> = x.into_iter().collect();
    let mut enums: HashMap<String, Vec<String>> = HashMap::new();
    let mut out = String::new();
    let mut i = 0;
    while i < t.len() {
        match t[i].to_string().as_str() {
            "label_enum" => {
                if let TokenTree::Group(g) = &t[i + 2] { enums.insert(t[i + 1].to_string(), values(g.stream())); }
                i += 3;
            }
            "struct" => {
                let (name, kind) = (t[i + 1].to_string(), t[i + 3].to_string());
                let mut labels = vec![];
                if let TokenTree::Group(g) = &t[i + 4] {
                    let b: Vec<TokenTree> = g.stream().into_iter().collect();
                    for (j, y) in b.iter().enumerate() {
                        if let TokenTree::Literal(_) = y {
                            labels.push(match &b[j + 3] {
                                TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => values(g.stream()),
                                z => enums.get(&z.to_string()).cloned().unwrap_or_default(),
                            });
                        }
                    }
                }
                for (j, l) in labels.iter().enumerate() {
                    let me = if j == 0 { name.clone() } else { format!("{name}{j}") };
                    let inner = if j + 1 == labels.len() { format!("prometheus::{kind}") } else { format!("{name}{}", j + 1) };
                    out += &format!("#[allow(non_snake_case)] pub struct {me} {{ {} }}\n", l.iter().map(|f| format!("pub {f}: {inner},")).collect::<String>());
                }
                i += 5;
            }
            _ => i += 1,
        }
    }
    out.parse().unwrap()
}
#[proc_macro]
pub fn auto_flush_from(_: TokenStream) -> TokenStream { "unimplemented!()".parse().unwrap() }
