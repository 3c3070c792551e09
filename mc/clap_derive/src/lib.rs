extern crate proc_macro;
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Attribute, Data, DeriveInput, Fields, Lit, Meta, NestedMeta};

#[derive(Default)]
struct Opt {
    sub: bool,
    short: Option<String>,
    long: Option<String>,
    default: Option<syn::Expr>,
    name: Option<String>,
}
fn text(l: &Lit) -> String {
    match l {
        Lit::Str(s) => s.value(),
        Lit::Char(c) => c.value().to_string(),
        _ => panic!("unsupported literal in a clap attribute"),
    }
}
fn kebab(s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_uppercase() && i > 0 {
            o.push('-');
        }
        o.extend(c.to_lowercase());
    }
    o.replace('_', "-")
}
fn attrs(a: &[Attribute], field: &str) -> Opt {
    let mut o = Opt::default();
    for a in a {
        if !["clap", "structopt", "arg", "command"].iter().any(|n| a.path.is_ident(n)) {
            continue;
        }
        match a.parse_meta() {
            Ok(Meta::List(l)) => {
                for n in l.nested.iter() {
                    match n {
                        NestedMeta::Meta(Meta::Path(p)) if p.is_ident("subcommand") => o.sub = true,
                        NestedMeta::Meta(Meta::Path(p)) if p.is_ident("short") => o.short = Some(field[..1].to_string()),
                        NestedMeta::Meta(Meta::Path(p)) if p.is_ident("long") => o.long = Some(kebab(field)),
                        NestedMeta::Meta(Meta::NameValue(v)) => {
                            let t = &v.lit;
                            if v.path.is_ident("short") {
                                o.short = Some(text(t));
                            } else if v.path.is_ident("long") {
                                o.long = Some(text(t));
                            } else if v.path.is_ident("name") {
                                o.name = Some(text(t));
                            } else if v.path.is_ident("default_value") {
                                let s = text(t);
                                o.default = Some(syn::parse_quote!(#s));
                            }
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    o
}

fn derive(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let n = &d.ident;
    let body = match &d.data {
        Data::Struct(s) => {
            let f: Vec<_> = match &s.fields {
                Fields::Named(f) => f.named.iter().collect(),
                _ => panic!("clap: a struct with named fields is needed"),
            };
            let o: Vec<Opt> = f.iter().map(|f| attrs(&f.attrs, &f.ident.as_ref().unwrap().to_string())).collect();
            let id: Vec<_> = f.iter().map(|f| f.ident.clone().unwrap()).collect();
            if o.iter().any(|o| o.sub) {
                assert!(o.len() == 1, "clap: options next to a subcommand are not supported");
                let i = &id[0];
                quote!(Self { #i: ::clap::Clap::from_args(a) })
            } else {
                let s: Vec<String> = o.iter().map(|o| o.short.clone().unwrap_or_default()).collect();
                let l: Vec<String> = o.iter().map(|o| o.long.clone().unwrap_or_default()).collect();
                let v: Vec<_> = o
                    .iter()
                    .map(|o| match &o.default {
                        Some(d) => quote!(unwrap_or_else(|| #d.to_string())),
                        None => quote!(unwrap_or_else(|| ::clap::usage("missing option"))),
                    })
                    .collect();
                quote! {
                    let mut v = ::clap::options(a, &[#((#s, #l)),*]).into_iter();
                    Self { #(#id: ::std::convert::Into::into(v.next().unwrap().#v)),* }
                }
            }
        }
        Data::Enum(e) => {
            let names: Vec<String> = e.variants.iter().map(|v| attrs(&v.attrs, "x").name.unwrap_or(kebab(&v.ident.to_string()))).collect();
            let arms: Vec<_> = e
                .variants
                .iter()
                .map(|v| {
                    let i = &v.ident;
                    match &v.fields {
                        Fields::Unnamed(_) => quote!(#n::#i(::clap::Clap::from_args(&a[1..]))),
                        _ => panic!("clap: variants with one unnamed field are needed"),
                    }
                })
                .collect();
            quote! {
                match a.get(0).map(|s| s.as_str()) {
                    #(Some(#names) => #arms,)*
                    _ => ::clap::usage("unknown subcommand"),
                }
            }
        }
        _ => panic!("clap: unsupported item"),
    };
    let (ig, tg, wc) = d.generics.split_for_impl();
    quote! {
        impl #ig ::clap::Clap for #n #tg #wc {
            fn from_args(a: &[String]) -> Self { #body }
        }
    }
    .into()
}
#[proc_macro_derive(Clap, attributes(clap, arg, command))]
pub fn clap(input: TokenStream) -> TokenStream {
    derive(input)
}
