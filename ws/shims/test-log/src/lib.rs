//! `#[test_log::test]` without the logging.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn test(args: TokenStream, item: TokenStream) -> TokenStream {
    let attr = if args.is_empty() {
        "#[::core::prelude::v1::test]".to_string()
    } else {
        format!("#[{args}]")
    };
    let mut out: TokenStream = attr.parse().unwrap();
    out.extend(item);
    out
}
