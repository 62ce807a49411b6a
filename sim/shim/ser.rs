//! Makes `#[serde(..)]` known to the compiler and generates nothing.
extern crate proc_macro;
use proc_macro::TokenStream;

#[proc_macro_derive(Serialize, attributes(serde))]
pub fn ser(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
