//! `#[derive(GetSize)]`: nothing in the product calls the trait, so the derive expands to nothing.
use proc_macro::TokenStream;
#[proc_macro_derive(GetSize, attributes(get_size))]
pub fn derive(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
