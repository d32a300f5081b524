//! Stand-in for `derive_builder` 0.12: `#[derive(Builder)]` with
//! struct attributes `pattern`, `derive(..)`, `name`, `build_fn(validate, name, error, skip)`, `setter(..)`, `default`
//! and field attributes `default`, `default = "expr"`, `setter(custom | skip | into | strip_option)`.
use proc_macro::TokenStream;
use proc_macro2::TokenStream as TS;
use quote::{format_ident, quote};
use syn::{
    parse_macro_input, punctuated::Punctuated, Data, DeriveInput, Expr, Fields, Lit, Meta, Path,
    Token,
};

fn str_of(e: &Expr) -> Option<String> {
    if let Expr::Lit(l) = e {
        if let Lit::Str(s) = &l.lit {
            return Some(s.value());
        }
    }
    None
}

/// A value written as a string literal holding Rust code, or as the code itself.
fn code_of(e: &Expr) -> TS {
    match str_of(e) {
        Some(s) => s.parse().expect("builder attribute holds Rust code"),
        None => quote!(#e),
    }
}

fn metas(attrs: &[syn::Attribute]) -> Vec<Meta> {
    let mut out = vec![];
    for a in attrs.iter().filter(|a| a.path().is_ident("builder")) {
        let m = a
            .parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated)
            .expect("builder(..) attribute");
        out.extend(m);
    }
    out
}

fn inner(m: &Meta) -> Vec<Meta> {
    match m {
        Meta::List(l) => l
            .parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated)
            .expect("nested builder attribute")
            .into_iter()
            .collect(),
        _ => vec![],
    }
}

#[derive(Default, Clone)]
struct Setter {
    custom: bool,
    skip: bool,
    into: bool,
    strip_option: bool,
}

fn setter_opts(m: &Meta, s: &mut Setter) {
    for i in inner(m) {
        if i.path().is_ident("custom") {
            s.custom = true
        } else if i.path().is_ident("skip") {
            s.skip = true
        } else if i.path().is_ident("into") {
            s.into = true
        } else if i.path().is_ident("strip_option") {
            s.strip_option = true
        }
    }
}

#[proc_macro_derive(Builder, attributes(builder))]
pub fn derive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let vis = &input.vis;
    let (ig, tg, wc) = input.generics.split_for_impl();
    let mut owned = false;
    let mut builder = format_ident!("{}Builder", name);
    let mut derives: Vec<Path> = vec![];
    let mut validate: Option<TS> = None;
    let mut build_name = format_ident!("build");
    let mut build_skip = false;
    let mut custom_error: Option<TS> = None;
    let mut struct_default: Option<TS> = None;
    let mut base_setter = Setter::default();
    for m in metas(&input.attrs) {
        if m.path().is_ident("pattern") {
            if let Meta::NameValue(nv) = &m {
                owned = str_of(&nv.value).as_deref() == Some("owned");
            }
        } else if m.path().is_ident("name") {
            if let Meta::NameValue(nv) = &m {
                builder = format_ident!("{}", str_of(&nv.value).unwrap());
            }
        } else if m.path().is_ident("derive") {
            if let Meta::List(l) = &m {
                derives.extend(
                    l.parse_args_with(Punctuated::<Path, Token![,]>::parse_terminated)
                        .unwrap(),
                );
            }
        } else if m.path().is_ident("setter") {
            setter_opts(&m, &mut base_setter);
        } else if m.path().is_ident("default") {
            struct_default = Some(match &m {
                Meta::NameValue(nv) => code_of(&nv.value),
                _ => quote!(::core::default::Default::default()),
            });
        } else if m.path().is_ident("build_fn") {
            for i in inner(&m) {
                if i.path().is_ident("skip") {
                    build_skip = true;
                }
                if let Meta::NameValue(nv) = &i {
                    if i.path().is_ident("validate") {
                        validate = Some(code_of(&nv.value));
                    } else if i.path().is_ident("name") {
                        build_name = format_ident!("{}", str_of(&nv.value).unwrap());
                    } else if i.path().is_ident("error") {
                        custom_error = Some(code_of(&nv.value));
                    }
                }
            }
        }
    }
    let Data::Struct(data) = &input.data else {
        panic!("Builder can only be derived for structs")
    };
    let Fields::Named(fields) = &data.fields else {
        panic!("Builder needs named fields")
    };
    let mut decls = vec![];
    let mut inits = vec![];
    let mut setters = vec![];
    let mut builds = vec![];
    let default_binding = struct_default
        .as_ref()
        .map(|d| quote!(let __default: #name #tg = #d;));
    for f in &fields.named {
        let id = f.ident.as_ref().unwrap();
        let ty = &f.ty;
        let mut default: Option<TS> = None;
        let mut setter = base_setter.clone();
        for m in metas(&f.attrs) {
            if m.path().is_ident("default") {
                default = Some(match &m {
                    Meta::NameValue(nv) => code_of(&nv.value),
                    _ => quote!(::core::default::Default::default()),
                });
            } else if m.path().is_ident("setter") {
                setter_opts(&m, &mut setter);
            }
        }
        let docs = f.attrs.iter().filter(|a| a.path().is_ident("doc"));
        decls.push(quote!(#id: ::core::option::Option<#ty>));
        inits.push(quote!(#id: ::core::option::Option::None));
        if !setter.custom && !setter.skip {
            let (arg, val) = if setter.into {
                (
                    quote!(impl ::core::convert::Into<#ty>),
                    quote!(::core::convert::Into::into(value)),
                )
            } else {
                (quote!(#ty), quote!(value))
            };
            setters.push(if owned {
                quote! {
                    #(#docs)*
                    #[allow(unused_mut)]
                    pub fn #id(self, value: #arg) -> Self {
                        let mut new = self;
                        new.#id = ::core::option::Option::Some(#val);
                        new
                    }
                }
            } else {
                quote! {
                    #(#docs)*
                    #[allow(unused_mut)]
                    pub fn #id(&mut self, value: #arg) -> &mut Self {
                        let new = self;
                        new.#id = ::core::option::Option::Some(#val);
                        new
                    }
                }
            });
        }
        let fname = id.to_string();
        let missing = match (default, &struct_default) {
            (Some(d), _) => quote!({ #d }),
            (None, Some(_)) => quote!(__default.#id),
            (None, None) if setter.skip => quote!(::core::default::Default::default()),
            (None, None) => quote! {
                return ::core::result::Result::Err(__uninitialized(#fname))
            },
        };
        let some = if owned {
            quote!(::core::option::Option::Some(value) => value)
        } else {
            quote!(::core::option::Option::Some(ref value) => ::core::clone::Clone::clone(value))
        };
        builds.push(quote!(#id: match self.#id { #some, ::core::option::Option::None => #missing }));
    }
    let err = format_ident!("{}Error", builder);
    let (err_ty, err_def, uninit) = match custom_error {
        Some(e) => (
            quote!(#e),
            quote!(),
            quote!(panic!("field not initialized: {}", field)),
        ),
        None => (
            quote!(#err),
            quote! {
                #[derive(Debug)]
                #[non_exhaustive]
                #vis enum #err {
                    UninitializedField(&'static str),
                    ValidationError(::std::string::String),
                }
                impl ::core::convert::From<::std::string::String> for #err {
                    fn from(s: ::std::string::String) -> Self { Self::ValidationError(s) }
                }
                impl ::core::fmt::Display for #err {
                    fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                        match self {
                            Self::UninitializedField(x) => write!(f, "`{}` must be initialized", x),
                            Self::ValidationError(x) => write!(f, "{}", x),
                        }
                    }
                }
                impl ::std::error::Error for #err {}
            },
            quote!(),
        ),
    };
    let uninit = if err_def.is_empty() {
        uninit
    } else {
        quote!(#err::UninitializedField(field))
    };
    let validate = validate.map(|v| {
        quote! {
            if let ::core::result::Result::Err(e) = #v(&self) {
                return ::core::result::Result::Err(::core::convert::Into::into(e));
            }
        }
    });
    let self_arg = if owned { quote!(self) } else { quote!(&self) };
    let validate = validate.map(|v| {
        if owned {
            v
        } else {
            // `self` is already a reference here
            let s = v.to_string().replace("(& self)", "(self)").replace("(&self)", "(self)");
            s.parse::<TS>().unwrap()
        }
    });
    let build = if build_skip {
        quote!()
    } else {
        quote! {
            pub fn #build_name(#self_arg) -> ::core::result::Result<#name #tg, #err_ty> {
                #[allow(dead_code)]
                fn __uninitialized(field: &'static str) -> #err_ty { #uninit }
                #validate
                #default_binding
                ::core::result::Result::Ok(#name { #(#builds),* })
            }
        }
    };
    let clone = if owned { quote!() } else { quote!(#[derive(Clone)]) };
    quote! {
        #clone
        #[derive(#(#derives),*)]
        #vis struct #builder #ig #wc { #(#decls),* }
        #[allow(clippy::all, dead_code)]
        impl #ig #builder #tg #wc {
            #(#setters)*
            #build
        }
        impl #ig ::core::default::Default for #builder #tg #wc {
            fn default() -> Self { Self { #(#inits),* } }
        }
        #err_def
    }
    .into()
}
