//! The derives the server's configuration uses; no command line is parsed by the checks.
use proc_macro::TokenStream;
#[proc_macro_derive(ValueEnum, attributes(value, clap))]
pub fn value_enum(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
#[proc_macro_derive(Parser, attributes(arg, command, clap))]
pub fn parser(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
