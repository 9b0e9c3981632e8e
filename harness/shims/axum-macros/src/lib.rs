//! `#[debug_handler]` only improves error messages; here it passes its item through.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn debug_handler(_a: TokenStream, item: TokenStream) -> TokenStream {
    item
}
