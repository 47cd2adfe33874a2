//! Stand-in for axum-macros: debug_handler only improves error messages.
use proc_macro::TokenStream;

#[proc_macro_attribute]
pub fn debug_handler(_attr: TokenStream, item: TokenStream) -> TokenStream {
    item
}
