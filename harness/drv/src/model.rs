//! Turns generated Rust code into a JSON tree of its items.
use quote::ToTokens;
use serde_json::{json, Value};

fn ts(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string()
}

fn docs(attrs: &[syn::Attribute]) -> Vec<String> {
    attrs
        .iter()
        .filter(|a| a.path().is_ident("doc"))
        .filter_map(|a| match &a.meta {
            syn::Meta::NameValue(nv) => match &nv.value {
                syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => Some(s.value()),
                _ => None,
            },
            _ => None,
        })
        .collect()
}

fn other_attrs(attrs: &[syn::Attribute]) -> Vec<String> {
    attrs
        .iter()
        .filter(|a| !a.path().is_ident("doc") || !matches!(a.meta, syn::Meta::NameValue(_)))
        .map(ts)
        .collect()
}

fn signature(sig: &syn::Signature) -> Value {
    let mut params = Vec::new();
    let mut receiver = Value::Null;
    for input in &sig.inputs {
        match input {
            syn::FnArg::Receiver(r) => receiver = json!(ts(r)),
            syn::FnArg::Typed(p) => params.push(json!([ts(&p.pat), ts(&p.ty)])),
        }
    }
    let ret = match &sig.output {
        syn::ReturnType::Default => String::from("()"),
        syn::ReturnType::Type(_, t) => ts(t),
    };
    json!({"name": sig.ident.to_string(), "receiver": receiver, "params": params, "ret": ret})
}

fn with(mut base: Value, kind: &str, attrs: &[syn::Attribute], vis: Option<&syn::Visibility>) -> Value {
    base["kind"] = json!(kind);
    base["docs"] = json!(docs(attrs));
    base["attrs"] = json!(other_attrs(attrs));
    if let Some(v) = vis {
        base["vis"] = json!(ts(v));
    }
    base
}

fn use_tree(prefix: &[String], tree: &syn::UseTree, out: &mut Vec<Value>) {
    match tree {
        syn::UseTree::Path(p) => {
            let mut prefix = prefix.to_vec();
            prefix.push(p.ident.to_string());
            use_tree(&prefix, &p.tree, out);
        }
        syn::UseTree::Name(n) => {
            let mut path = prefix.to_vec();
            path.push(n.ident.to_string());
            out.push(json!({"path": path, "as": n.ident.to_string()}));
        }
        syn::UseTree::Rename(r) => {
            let mut path = prefix.to_vec();
            path.push(r.ident.to_string());
            out.push(json!({"path": path, "as": r.rename.to_string()}));
        }
        syn::UseTree::Glob(_) => {
            let mut path = prefix.to_vec();
            path.push("*".into());
            out.push(json!({"path": path, "as": "*"}));
        }
        syn::UseTree::Group(g) => g.items.iter().for_each(|t| use_tree(prefix, t, out)),
    }
}

/// All string literals of some code, also inside of macros.
fn literals(tokens: proc_macro2::TokenStream, out: &mut Vec<String>) {
    for t in tokens {
        match t {
            proc_macro2::TokenTree::Group(g) => literals(g.stream(), out),
            proc_macro2::TokenTree::Literal(l) => {
                if let syn::Lit::Str(s) = syn::Lit::new(l) {
                    out.push(s.value());
                }
            }
            _ => {}
        }
    }
}

fn item(i: &syn::Item, bodies: bool) -> Value {
    match i {
        syn::Item::Mod(m) => {
            let items: Vec<Value> = m
                .content
                .iter()
                .flat_map(|(_, items)| items.iter().map(|i| item(i, bodies)))
                .collect();
            with(json!({"name": m.ident.to_string(), "items": items}), "mod", &m.attrs, Some(&m.vis))
        }
        syn::Item::Fn(f) => {
            let mut v = signature(&f.sig);
            if bodies {
                v["body"] = json!(ts(&f.block));
            }
            if f.sig.ident.to_string().starts_with("pyo3_embed") {
                let mut lits = Vec::new();
                literals(f.block.to_token_stream(), &mut lits);
                v["lits"] = json!(lits);
            }
            with(v, "fn", &f.attrs, Some(&f.vis))
        }
        syn::Item::Struct(s) => with(json!({"name": s.ident.to_string(), "fields": ts(&s.fields)}), "struct", &s.attrs, Some(&s.vis)),
        syn::Item::Trait(t) => {
            let items: Vec<Value> = t
                .items
                .iter()
                .map(|i| match i {
                    syn::TraitItem::Fn(f) => with(signature(&f.sig), "fn", &f.attrs, None),
                    other => json!({"kind": "other", "text": ts(other)}),
                })
                .collect();
            with(json!({"name": t.ident.to_string(), "items": items}), "trait", &t.attrs, Some(&t.vis))
        }
        syn::Item::Impl(i) => {
            let items: Vec<Value> = i
                .items
                .iter()
                .map(|i| match i {
                    syn::ImplItem::Fn(f) => {
                        let mut v = signature(&f.sig);
                        if bodies {
                            v["body"] = json!(ts(&f.block));
                        }
                        with(v, "fn", &f.attrs, Some(&f.vis))
                    }
                    other => json!({"kind": "other", "text": ts(other)}),
                })
                .collect();
            with(
                json!({"self": ts(&i.self_ty), "trait": i.trait_.as_ref().map(|(_, p, _)| ts(p)), "items": items}),
                "impl",
                &i.attrs,
                None,
            )
        }
        syn::Item::Use(u) => {
            let mut uses = Vec::new();
            use_tree(&[], &u.tree, &mut uses);
            with(json!({"uses": uses}), "use", &u.attrs, Some(&u.vis))
        }
        syn::Item::Type(t) => with(json!({"name": t.ident.to_string(), "ty": ts(&t.ty)}), "type", &t.attrs, Some(&t.vis)),
        syn::Item::Macro(m) => json!({"kind": "macro", "text": ts(&m.mac)}),
        other => json!({"kind": "other", "text": ts(other)}),
    }
}

pub fn file(f: &syn::File, bodies: bool) -> Value {
    Value::Array(f.items.iter().map(|i| item(i, bodies)).collect())
}
