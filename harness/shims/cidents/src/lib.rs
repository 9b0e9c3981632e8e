//! Stand-in for the removed nightly builtin `concat_idents!`, usable in type position.
use proc_macro::{Ident, Span, TokenStream, TokenTree};
#[proc_macro]
pub fn concat_idents(input: TokenStream) -> TokenStream {
    fn walk(ts: TokenStream, s: &mut String) {
        for t in ts {
            match t {
                TokenTree::Ident(i) => s.push_str(&i.to_string()),
                TokenTree::Group(g) => walk(g.stream(), s),
                _ => {}
            }
        }
    }
    let mut s = String::new();
    walk(input, &mut s);
    TokenTree::Ident(Ident::new(&s, Span::call_site())).into()
}
