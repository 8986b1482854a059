//! `#[instrument]` that leaves the item as it is.
extern crate proc_macro;
use proc_macro::TokenStream;

#[proc_macro_attribute]
pub fn instrument(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}
