//! Stand-in for the `svgbobdoc` proc macros (they only rewrite documentation). It keeps the
//! monitors' build small; the library's code is compiled unchanged.
use proc_macro::TokenStream;

#[proc_macro]
pub fn transform(_input: TokenStream) -> TokenStream {
    "\"\"".parse().unwrap()
}

#[proc_macro]
pub fn transform_mdstr(input: TokenStream) -> TokenStream {
    input
}

#[proc_macro_attribute]
pub fn transform_attr(_attr: TokenStream, item: TokenStream) -> TokenStream {
    item
}
