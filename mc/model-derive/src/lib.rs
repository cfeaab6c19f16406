//! `#[derive(Model)]`: an independent reading of the documented `#[xml(...)]` options, which
//! describes the type to the reference models.

use proc_macro2::TokenStream;
use quote::quote;
use syn::ext::IdentExt;
use syn::parse::{Parse, ParseStream};
use syn::{parse_macro_input, Data, DeriveInput, Expr, Fields, Ident, Lit, LitStr, Path, Token};

#[derive(Default)]
struct Opts {
    attribute: bool,
    direct: bool,
    transparent: bool,
    scalar: bool,
    forward: bool,
    force_prefix: bool,
    rename: Option<LitStr>,
    rename_all: Option<LitStr>,
    ns: Option<TokenStream>,
    prefixes: Vec<(String, TokenStream)>,
}

struct NsList {
    uri: Option<TokenStream>,
    prefixes: Vec<(String, TokenStream)>,
}

fn uri(input: ParseStream<'_>) -> syn::Result<TokenStream> {
    if input.peek(LitStr) {
        let lit: LitStr = input.parse()?;
        Ok(quote!(#lit))
    } else {
        let path: Path = input.parse()?;
        Ok(quote!(#path))
    }
}

impl Parse for NsList {
    fn parse(input: ParseStream<'_>) -> syn::Result<Self> {
        let mut new = NsList { uri: None, prefixes: Vec::new() };
        while !input.is_empty() {
            let fork = input.fork();
            match prefix(&fork) {
                Ok(_) => {
                    let name = prefix(input)?;
                    new.prefixes.push((name, uri(input)?));
                }
                Err(_) => new.uri = Some(uri(input)?),
            }
            if !input.is_empty() {
                input.parse::<Token![,]>()?;
            }
        }
        // The derive keeps prefixes in alphabetical order, one declaration per prefix
        new.prefixes.sort_by(|a, b| a.0.cmp(&b.0));
        Ok(new)
    }
}

/// `a-b.c =`
fn prefix(input: ParseStream<'_>) -> syn::Result<String> {
    let mut name = Ident::parse_any(input)?.to_string();
    loop {
        if input.peek(Token![-]) {
            input.parse::<Token![-]>()?;
            name.push('-');
        } else if input.peek(Token![.]) {
            input.parse::<Token![.]>()?;
            name.push('.');
        } else {
            break;
        }
        if input.peek(Token![-]) || input.peek(Token![.]) {
            continue;
        }
        name.push_str(&Ident::parse_any(input)?.to_string());
    }
    input.parse::<Token![=]>()?;
    Ok(name)
}

impl Opts {
    fn new(attrs: &[syn::Attribute]) -> syn::Result<Self> {
        let mut o = Opts::default();
        for attr in attrs.iter().filter(|a| a.path().is_ident("xml")) {
            attr.parse_nested_meta(|m| {
                let key = m.path.require_ident()?.to_string();
                match key.as_str() {
                    "attribute" => o.attribute = true,
                    "direct" => o.direct = true,
                    "borrow" => {}
                    "transparent" => o.transparent = true,
                    "scalar" => o.scalar = true,
                    "forward" => o.forward = true,
                    "force_prefix" => o.force_prefix = true,
                    "rename" => o.rename = Some(m.value()?.parse()?),
                    "rename_all" => o.rename_all = Some(m.value()?.parse()?),
                    "serialize_with" | "deserialize_with" => {
                        m.value()?.parse::<LitStr>()?;
                    }
                    "ns" => {
                        let content;
                        syn::parenthesized!(content in m.input);
                        let list: NsList = content.parse()?;
                        o.ns = list.uri;
                        o.prefixes = list.prefixes;
                    }
                    _ => return Err(m.error("unknown option")),
                }
                Ok(())
            })?;
        }
        Ok(o)
    }
}

#[proc_macro_derive(Model, attributes(xml))]
pub fn model(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    match derive(&input) {
        Ok(t) => t.into(),
        Err(e) => e.to_compile_error().into(),
    }
}

fn derive(input: &DeriveInput) -> syn::Result<TokenStream> {
    let opts = Opts::new(&input.attrs)?;
    let ident = &input.ident;
    let rust = ident.unraw().to_string();
    let ns = opts.ns.clone().unwrap_or(quote!(""));
    let name = match &opts.rename {
        Some(lit) => lit.value(),
        None => rust.clone(),
    };
    let rule = match &opts.rename_all {
        Some(lit) => lit.value(),
        None => String::new(),
    };
    let prefixes = opts.prefixes.iter().map(|(p, u)| quote!((#p, #u)));
    let force = opts.force_prefix;
    let tag = quote!(::mcore::model::Tag {
        rust: #rust, ns: #ns, name: #name, prefixes: vec![#(#prefixes),*], force_prefix: #force,
    });

    let (ty, to, from) = match &input.data {
        Data::Struct(data) => match &data.fields {
            Fields::Named(fields) => {
                let mut tys = Vec::new();
                let mut to = Vec::new();
                let mut from = Vec::new();
                for (i, f) in fields.named.iter().enumerate() {
                    let fo = Opts::new(&f.attrs)?;
                    let id = f.ident.as_ref().unwrap();
                    let fty = &f.ty;
                    let raw = id.unraw().to_string();
                    let fname = match &fo.rename {
                        Some(lit) => quote!(#lit.to_string()),
                        None => quote!(::mcore::gen::rename_field(#rule, #raw)),
                    };
                    let fns = match (&fo.ns, fo.attribute) {
                        (Some(ns), _) => ns.clone(),
                        (None, true) => quote!(""),
                        (None, false) => ns.clone(),
                    };
                    let pos = match (fo.attribute, fo.direct) {
                        (true, _) => quote!(Attr),
                        (_, true) => quote!(Direct),
                        _ => quote!(Elem),
                    };
                    tys.push(quote!(::mcore::model::Field {
                        rust: #raw, pos: ::mcore::model::Pos::#pos, ns: #fns, name: #fname,
                        ty: ::mcore::model::Link::new(<#fty as ::mcore::model::Model>::ty),
                    }));
                    to.push(quote!(::mcore::model::Model::to_val(&self.#id)));
                    from.push(quote!(#id: ::mcore::model::Model::from_val(&vs[#i])));
                }
                let ty = match opts.transparent {
                    true => quote!(::mcore::model::Ty::Transparent(::mcore::model::TransparentTy {
                        rust: #rust, fields: vec![#(#tys),*],
                    })),
                    false => quote!(::mcore::model::Ty::Struct(::mcore::model::StructTy {
                        tag: #tag, fields: vec![#(#tys),*],
                    })),
                };
                (
                    ty,
                    quote!(::mcore::model::Val::Rec(vec![#(#to),*])),
                    quote!(match val { ::mcore::model::Val::Rec(vs) => Self { #(#from),* }, _ => panic!("bad val") }),
                )
            }
            Fields::Unnamed(fields) => {
                let tys = fields.unnamed.iter().map(|f| {
                    let fty = &f.ty;
                    quote!(::mcore::model::Link::new(<#fty as ::mcore::model::Model>::ty))
                });
                let n = fields.unnamed.len();
                let idx = (0..n).map(syn::Index::from);
                let idx2 = 0..n;
                (
                    quote!(::mcore::model::Ty::Tuple(::mcore::model::TupleTy { tag: #tag, fields: vec![#(#tys),*] })),
                    quote!(::mcore::model::Val::Rec(vec![#(::mcore::model::Model::to_val(&self.#idx)),*])),
                    quote!(match val {
                        ::mcore::model::Val::Rec(vs) => Self(#(::mcore::model::Model::from_val(&vs[#idx2])),*),
                        _ => panic!("bad val"),
                    }),
                )
            }
            Fields::Unit => (
                quote!(::mcore::model::Ty::UnitStruct(#tag)),
                quote!(::mcore::model::Val::Rec(Vec::new())),
                quote!({ let _ = val; Self }),
            ),
        },
        Data::Enum(data) if opts.scalar => {
            let mut texts = Vec::new();
            let mut to = Vec::new();
            let mut from = Vec::new();
            for (i, v) in data.variants.iter().enumerate() {
                let vo = Opts::new(&v.attrs)?;
                let id = &v.ident;
                let raw = id.unraw().to_string();
                let disc = match &v.discriminant {
                    Some((_, Expr::Lit(l))) => match &l.lit {
                        Lit::Str(s) => Some(s.value()),
                        Lit::Int(n) => Some(n.base10_parse::<u128>()?.to_string()),
                        _ => return Err(syn::Error::new_spanned(v, "bad discriminant")),
                    },
                    Some(_) => return Err(syn::Error::new_spanned(v, "bad discriminant")),
                    None => None,
                };
                let text = match (&vo.rename, disc) {
                    (Some(lit), _) => {
                        let s = lit.value();
                        quote!(#s.to_string())
                    }
                    (None, Some(d)) => quote!(#d.to_string()),
                    (None, None) => quote!(::mcore::gen::rename_variant(#rule, #raw)),
                };
                texts.push(text);
                to.push(quote!(Self::#id => ::mcore::model::Val::Enum(#i),));
                from.push(quote!(::mcore::model::Val::Enum(#i) => Self::#id,));
            }
            (
                quote!(::mcore::model::Ty::Enum(::mcore::model::EnumTy { rust: #rust, ns: #ns, variants: vec![#(#texts),*] })),
                quote!(match self { #(#to)* }),
                quote!(match val { #(#from)* _ => panic!("bad val") }),
            )
        }
        Data::Enum(data) if opts.forward => {
            let mut tys = Vec::new();
            let mut to = Vec::new();
            let mut from = Vec::new();
            for (i, v) in data.variants.iter().enumerate() {
                let id = &v.ident;
                let fty = &v.fields.iter().next().unwrap().ty;
                tys.push(quote!(::mcore::model::Link::new(<#fty as ::mcore::model::Model>::ty)));
                to.push(quote!(Self::#id(inner) => ::mcore::model::Val::Var(#i, Box::new(::mcore::model::Model::to_val(inner))),));
                from.push(quote!(::mcore::model::Val::Var(#i, inner) => Self::#id(::mcore::model::Model::from_val(inner)),));
            }
            (
                quote!(::mcore::model::Ty::Forward(::mcore::model::ForwardTy { rust: #rust, variants: vec![#(#tys),*] })),
                quote!(match self { #(#to)* }),
                quote!(match val { #(#from)* _ => panic!("bad val") }),
            )
        }
        _ => return Err(syn::Error::new_spanned(input, "unsupported type")),
    };

    let mut generics = input.generics.clone();
    for p in generics.type_params_mut() {
        p.bounds.push(syn::parse_quote!(::mcore::model::Model));
    }
    let (ig, tg, wc) = generics.split_for_impl();
    Ok(quote!(
        impl #ig ::mcore::model::Model for #ident #tg #wc {
            fn ty() -> &'static ::mcore::model::Ty {
                ::mcore::model::intern(::std::any::type_name::<Self>(), || #ty)
            }
            fn to_val(&self) -> ::mcore::model::Val {
                #to
            }
            fn from_val(val: &::mcore::model::Val) -> Self {
                #from
            }
        }
    ))
}
