use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::punctuated::Punctuated;
use syn::{parse_macro_input, Attribute, Data, DeriveInput, Expr, Fields, Lit, Meta, Token, Type};

/// The items of `#[arg(...)]`, `#[command(...)]`, `#[clap(...)]`: name and value.
fn items(attrs: &[Attribute]) -> Vec<(String, Option<Expr>)> {
    let mut r = vec![];
    for a in attrs {
        let n = a.path().get_ident().map(|i| i.to_string()).unwrap_or_default();
        if !["arg", "command", "clap", "value"].contains(&n.as_str()) {
            continue;
        }
        if let Meta::List(l) = &a.meta {
            // `name`, `name = value` and `name(value)`
            let p = l.parse_args_with(Punctuated::<Expr, Token![,]>::parse_terminated).expect("clap attribute");
            for e in p {
                match e {
                    Expr::Path(p) => r.push((p.path.get_ident().unwrap().to_string(), None)),
                    Expr::Assign(a) => {
                        let Expr::Path(p) = *a.left else { panic!("clap attribute") };
                        r.push((p.path.get_ident().unwrap().to_string(), Some(*a.right)));
                    }
                    Expr::Call(c) => {
                        let Expr::Path(p) = *c.func else { panic!("clap attribute") };
                        r.push((p.path.get_ident().unwrap().to_string(), c.args.into_iter().next()));
                    }
                    _ => panic!("clap attribute"),
                }
            }
        }
    }
    r
}
fn kebab(n: &str) -> String {
    let mut r = String::new();
    for (i, c) in n.trim_start_matches("r#").chars().enumerate() {
        if c == '_' {
            r.push('-');
        } else if c.is_uppercase() {
            if i > 0 {
                r.push('-');
            }
            r.extend(c.to_lowercase());
        } else {
            r.push(c);
        }
    }
    r
}
fn outer<'a>(t: &'a Type, name: &str) -> Option<&'a Type> {
    let Type::Path(p) = t else { return None };
    let s = p.path.segments.last()?;
    if s.ident != name {
        return None;
    }
    let syn::PathArguments::AngleBracketed(a) = &s.arguments else { return None };
    match a.args.first()? {
        syn::GenericArgument::Type(t) => Some(t),
        _ => None,
    }
}
fn is_bool(t: &Type) -> bool {
    matches!(t, Type::Path(p) if p.path.is_ident("bool"))
}

fn args_impl(d: &DeriveInput) -> proc_macro2::TokenStream {
    let name = &d.ident;
    let Data::Struct(s) = &d.data else { panic!("options come from a structure") };
    let (mut specs, mut build, mut has_sub) = (vec![], vec![], quote!(false));
    let Fields::Named(fields) = &s.fields else { panic!("options come from named fields") };
    for f in &fields.named {
        let id = f.ident.as_ref().unwrap();
        let ids = id.to_string();
        let it = items(&f.attrs);
        let get = |n: &str| it.iter().find(|x| x.0 == n);
        let ty = &f.ty;
        if get("subcommand").is_some() {
            has_sub = quote!(true);
            build.push(match outer(ty, "Option") {
                Some(t) => quote!(#id: match &m.sub { Some((n, a)) => Some(<#t as ::clap::Subcommand>::of_sub(n, a)?), None => None }),
                None => quote!(#id: match &m.sub { Some((n, a)) => <#ty as ::clap::Subcommand>::of_sub(n, a)?, None => return Err("a subcommand is required".to_string()) }),
            });
            continue;
        }
        if get("flatten").is_some() {
            specs.push(quote!(r.extend(<#ty as ::clap::Args>::specs());));
            build.push(quote!(#id: <#ty as ::clap::Args>::of(m)?));
            continue;
        }
        if get("skip").is_some() {
            build.push(quote!(#id: Default::default()));
            continue;
        }
        let id_name = match get("id") {
            Some((_, Some(e))) => quote!((#e).to_string()),
            _ => quote!(#ids.to_string()),
        };
        let first = ids.trim_start_matches("r#").chars().next().unwrap();
        let long_name = kebab(&ids);
        let (mut short, mut long) = (quote!(vec![]), quote!(vec![]));
        match get("short") {
            Some((_, Some(e))) => short = quote!(vec![#e]),
            Some((_, None)) => short = quote!(vec![#first]),
            None => {}
        }
        match get("long") {
            Some((_, Some(e))) => long = quote!(vec![(#e).to_string()]),
            Some((_, None)) => long = quote!(vec![#long_name.to_string()]),
            None => {}
        }
        let mut more = vec![];
        for (n, e) in &it {
            let Some(e) = e else { continue };
            match n.as_str() {
                "alias" | "visible_alias" => more.push(quote!(s.long.push((#e).to_string());)),
                "short_alias" | "visible_short_alias" => more.push(quote!(s.short.push(#e);)),
                "conflicts_with" => more.push(quote!(s.conflicts.push((#e).to_string());)),
                "default_missing_value" => more.push(quote!(s.missing = Some((#e).to_string());)),
                "default_value" => more.push(quote!(s.default.push((#e).to_string());)),
                "default_value_t" => more.push(quote!({ let v: #ty = #e; s.default.push(v.to_string()); })),
                "allow_hyphen_values" | "allow_negative_numbers" => more.push(quote!(s.hyphens = #e;)),
                "aliases" | "visible_aliases" | "value_delimiter" | "num_args" | "value_parser" | "default_values" | "env" | "conflicts_with_all"
                | "required_unless_present" | "requires" | "overrides_with" | "default_value_if" | "value_enum" => {
                    panic!("the stand-in for clap does not know {n}")
                }
                _ => {}
            }
        }
        let has_default = it.iter().any(|x| x.0.starts_with("default_value"));
        let (opt, vec) = (outer(ty, "Option"), outer(ty, "Vec"));
        let action = match get("action") {
            Some((_, Some(e))) => quote!(#e),
            _ if is_bool(ty) => quote!(::clap::ArgAction::SetTrue),
            _ if vec.is_some() => quote!(::clap::ArgAction::Append),
            _ => quote!(::clap::ArgAction::Set),
        };
        let required = match get("required") {
            Some((_, Some(e))) => quote!(#e),
            Some((_, None)) => quote!(true),
            None => {
                let r = !has_default && !is_bool(ty) && opt.is_none() && vec.is_none();
                quote!(#r && matches!(action, ::clap::ArgAction::Set | ::clap::ArgAction::Append))
            }
        };
        let inner = opt.or(vec).unwrap_or(ty);
        specs.push(quote! {{
            let action = #action;
            #[allow(unused_mut)]
            let mut s = ::clap::Spec {
                id: #id_name, short: #short, long: #long, action, default: vec![], missing: None,
                required: #required, hyphens: false, conflicts: vec![],
            };
            #(#more)*
            r.push(s);
        }});
        let conv = if is_bool(inner) {
            quote!(::clap::convert::<bool>(#ids, v))
        } else if get("value_enum").is_some() {
            quote!(<#inner as ::clap::ValueEnum>::of_name(v).ok_or(format!("invalid value '{v}' for '{}'", #ids)))
        } else {
            quote!(::clap::convert::<#inner>(#ids, v))
        };
        let values = if opt.is_some() {
            quote!(match m.get(&id).first() { Some(v) => Some(#conv?), None => None })
        } else if vec.is_some() {
            quote!({ let mut r = vec![]; for v in &m.get(&id) { r.push(#conv?); } r })
        } else {
            quote!(match m.get(&id).first() { Some(v) => #conv?, None => return Err(format!("'{}' was not provided", #ids)) })
        };
        let flag = match ty {
            _ if is_bool(ty) => quote!(match #action {
                ::clap::ArgAction::SetTrue => m.count(&id) > 0,
                ::clap::ArgAction::SetFalse => m.count(&id) == 0,
                _ => #values,
            }),
            Type::Path(p) if p.path.is_ident("u8") || p.path.is_ident("usize") => quote!(match #action {
                ::clap::ArgAction::Count => m.count(&id) as #ty,
                _ => #values,
            }),
            _ => values,
        };
        build.push(quote!(#id: { let id = #id_name; #flag }));
    }
    quote! {
        impl ::clap::Args for #name {
            fn specs() -> Vec<::clap::Spec> {
                #[allow(unused_mut)]
                let mut r: Vec<::clap::Spec> = vec![];
                #(#specs)*
                r
            }
            fn has_sub() -> bool { #has_sub }
            #[allow(unused_variables)]
            fn of(m: &::clap::Matches) -> Result<Self, String> {
                Ok(Self { #(#build),* })
            }
        }
    }
}

fn sub_impl(d: &DeriveInput) -> proc_macro2::TokenStream {
    let name = &d.ident;
    let Data::Enum(e) = &d.data else { panic!("subcommands come from an enumeration") };
    let (mut arms, mut types) = (vec![], vec![]);
    for v in &e.variants {
        let it = items(&v.attrs);
        let id = &v.ident;
        let mut names: Vec<proc_macro2::TokenStream> = vec![];
        let kb = kebab(&id.to_string());
        match it.iter().find(|x| x.0 == "name") {
            Some((_, Some(e))) => names.push(quote!((#e).to_string())),
            _ => names.push(quote!(#kb.to_string())),
        }
        for (n, e) in &it {
            if n == "alias" || n == "visible_alias" {
                names.push(quote!((#e).to_string()));
            }
        }
        let body = match &v.fields {
            Fields::Unit => quote!({ ::clap::matches(&[], false, argv)?; Ok(#name::#id) }),
            Fields::Unnamed(f) => {
                let t = &f.unnamed.first().unwrap().ty;
                quote!(Ok(#name::#id(::clap::parse_args::<#t>(argv)?)))
            }
            Fields::Named(f) => {
                let t = format_ident!("__{}{}", name, id);
                let fs = &f.named;
                let ids: Vec<_> = fs.iter().map(|x| x.ident.clone().unwrap()).collect();
                let st: DeriveInput = syn::parse_quote!(#[allow(non_camel_case_types)] struct #t { #fs });
                let im = args_impl(&st);
                let plain: Vec<_> = fs.iter().map(|x| { let (i, t) = (x.ident.clone().unwrap(), &x.ty); quote!(#i: #t) }).collect();
                types.push(quote!(#[allow(non_camel_case_types)] struct #t { #(#plain),* } #im));
                quote!({ let x = ::clap::parse_args::<#t>(argv)?; Ok(#name::#id { #(#ids: x.#ids),* }) })
            }
        };
        arms.push(quote!(if [#(#names),*].iter().any(|n| n == name) { return #body; }));
    }
    quote! {
        #(#types)*
        impl ::clap::Subcommand for #name {
            fn of_sub(name: &str, argv: &[String]) -> Result<Self, String> {
                #(#arms)*
                Err(format!("unrecognized subcommand '{name}'"))
            }
        }
    }
}

#[proc_macro_derive(Args, attributes(arg, command, clap, value, group))]
pub fn args(t: TokenStream) -> TokenStream {
    args_impl(&parse_macro_input!(t as DeriveInput)).into()
}
#[proc_macro_derive(Subcommand, attributes(arg, command, clap, value, group))]
pub fn subcommand(t: TokenStream) -> TokenStream {
    sub_impl(&parse_macro_input!(t as DeriveInput)).into()
}
#[proc_macro_derive(Parser, attributes(arg, command, clap, value, group))]
pub fn parser(t: TokenStream) -> TokenStream {
    let d = parse_macro_input!(t as DeriveInput);
    let name = &d.ident;
    let (im, call) = match &d.data {
        Data::Enum(_) => (
            sub_impl(&d),
            quote!(match argv.first() { Some(n) => <#name as ::clap::Subcommand>::of_sub(n, &argv[1..]), None => Err("a subcommand is required".to_string()) }),
        ),
        _ => (args_impl(&d), quote!(::clap::parse_args::<#name>(argv))),
    };
    quote! {
        #im
        impl ::clap::Parser for #name {
            fn from_argv(argv: &[String]) -> Result<Self, String> { #call }
        }
    }
    .into()
}
#[proc_macro_derive(ValueEnum, attributes(value, clap))]
pub fn value_enum(t: TokenStream) -> TokenStream {
    let d = parse_macro_input!(t as DeriveInput);
    let name = &d.ident;
    let Data::Enum(e) = &d.data else { panic!("values come from an enumeration") };
    let arms = e.variants.iter().map(|v| {
        let id = &v.ident;
        let kb = kebab(&id.to_string());
        let n = match items(&v.attrs).into_iter().find(|x| x.0 == "name") {
            Some((_, Some(Expr::Lit(l)))) => match l.lit {
                Lit::Str(s) => s.value(),
                _ => kb,
            },
            _ => kb,
        };
        quote!(#n => Some(#name::#id))
    });
    quote! {
        impl ::clap::ValueEnum for #name {
            fn of_name(n: &str) -> Option<Self> { match n { #(#arms,)* _ => None } }
        }
    }
    .into()
}
