//! Stand-in for the profiler_macro git dependency (timing only, no semantics): identity attribute.
use proc_macro::TokenStream;

#[proc_macro_attribute]
pub fn time_profiler(_attr: TokenStream, item: TokenStream) -> TokenStream {
    item
}
