use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, ItemFn, ReturnType};

#[proc_macro_attribute]
pub fn async_recursion(args: TokenStream, item: TokenStream) -> TokenStream {
    let not_send = args.to_string().contains("Send");
    let mut f = parse_macro_input!(item as ItemFn);
    f.sig.asyncness = None;
    let body = &f.block;
    let out = match &f.sig.output {
        ReturnType::Default => quote!(()),
        ReturnType::Type(_, t) => quote!(#t),
    };
    let bound = if not_send { quote!() } else { quote!(+ ::core::marker::Send) };
    let mut sig = f.sig.clone();
    sig.output = syn::parse_quote!(-> ::core::pin::Pin<::std::boxed::Box<dyn ::core::future::Future<Output = #out> #bound>>);
    let (attrs, vis) = (&f.attrs, &f.vis);
    quote!(#(#attrs)* #vis #sig { ::std::boxed::Box::pin(async move #body) }).into()
}
