use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn traced_test(_: TokenStream, i: TokenStream) -> TokenStream {
    i
}
