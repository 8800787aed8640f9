extern crate proc_macro;
use proc_macro::{TokenStream, TokenTree, Delimiter};
/// `#[tokio::main]`: drop `async`, run the body on the model executor.
#[proc_macro_attribute]
pub fn main(_a: TokenStream, item: TokenStream) -> TokenStream {
    let mut out = TokenStream::new(); let v: Vec<TokenTree> = item.into_iter().collect(); let n = v.len();
    for (i, t) in v.into_iter().enumerate() {
        if let TokenTree::Ident(id) = &t { if id.to_string() == "async" && i + 1 < n { continue; } }
        if i + 1 == n { if let TokenTree::Group(g) = &t { if g.delimiter() == Delimiter::Brace { let b: TokenStream = format!("{{ ::tokio::runtime::block_on(async move {}) }}", g).parse().unwrap(); out.extend(b); continue; } } }
        out.extend(std::iter::once(t));
    }
    out
}
