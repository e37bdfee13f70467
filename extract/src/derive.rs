//! What serde's derive macros generate, in terms of documents: the expansion of `derive(Serialize)` and
//! `derive(Deserialize)` for the representations the repository uses, as serde documents them.
//!
//!   struct            an object with one entry per field; missing entries take the default, if any
//!   unit enum         the variant's name
//!   untagged enum     the content of the first variant that fits
//!   tag and content   an object with the variant's name and its content
use quote::ToTokens;
use syn::punctuated::Punctuated;
use syn::{Attribute, Expr, Fields, Item, Lit, Meta, Token};

type R<T> = Result<T, String>;

#[derive(Default)]
struct Serde { rename: Option<String>, all: Option<String>, default: Option<String>, skip: Option<String>, tag: Option<String>, content: Option<String>, untagged: bool }

fn text(e: &Expr) -> R<String> { match e { Expr::Lit(l) => match &l.lit { Lit::Str(s) => Ok(s.value()), _ => Err("serde attribute".into()) }, _ => Err("serde attribute".into()) } }

fn serde(attrs: &[Attribute]) -> R<Serde> {
    let mut s = Serde::default();
    for a in attrs.iter().filter(|a| a.path().is_ident("serde")) {
        for m in a.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated).map_err(|e| e.to_string())? {
            let k = m.path().to_token_stream().to_string();
            match (&k[..], &m) {
                ("rename", Meta::NameValue(v)) => s.rename = Some(text(&v.value)?),
                ("rename_all", Meta::NameValue(v)) => s.all = Some(text(&v.value)?),
                ("default", Meta::Path(_)) => s.default = Some(String::new()),
                ("default", Meta::NameValue(v)) => s.default = Some(text(&v.value)?),
                ("skip_serializing_if", Meta::NameValue(v)) => s.skip = Some(text(&v.value)?),
                ("tag", Meta::NameValue(v)) => s.tag = Some(text(&v.value)?),
                ("content", Meta::NameValue(v)) => s.content = Some(text(&v.value)?),
                ("untagged", Meta::Path(_)) => s.untagged = true,
                _ => return Err(format!("serde attribute {}", m.to_token_stream())),
            }
        }
    }
    Ok(s)
}

fn derives(attrs: &[Attribute], name: &str) -> bool {
    attrs.iter().filter(|a| a.path().is_ident("derive")).any(|a| a.parse_args_with(Punctuated::<syn::Path, Token![,]>::parse_terminated).map_or(false, |l| l.iter().any(|p| p.segments.last().map_or(false, |s| s.ident == name))))
}

fn words(n: &str) -> Vec<String> {
    if n.contains('_') || !n.chars().any(|c| c.is_uppercase()) { return n.split('_').map(|w| w.to_lowercase()).collect(); }
    let mut v: Vec<String> = vec![];
    for c in n.chars() { if c.is_uppercase() || v.is_empty() { v.push(String::new()); } v.last_mut().unwrap().extend(c.to_lowercase()); }
    v
}
fn cap(w: &str) -> String { let mut c = w.chars(); c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default() }
/// The name in a document.
fn named(ident: &str, own: &Serde, all: &Option<String>, variant: bool) -> R<String> {
    let ident = ident.trim_start_matches("r#");
    if let Some(r) = &own.rename { return Ok(r.clone()); }
    let w = words(ident);
    Ok(match all.as_deref() {
        None => ident.into(),
        Some("lowercase") => if variant { ident.to_lowercase() } else { ident.into() },
        Some("UPPERCASE") => ident.to_uppercase(),
        Some("PascalCase") => if variant { ident.into() } else { w.iter().map(|w| cap(w)).collect() },
        Some("camelCase") => w.iter().enumerate().map(|(i, w)| if i == 0 { w.clone() } else { cap(w) }).collect(),
        Some("snake_case") => w.join("_"),
        Some("kebab-case") => w.join("-"),
        Some("SCREAMING_SNAKE_CASE") => w.join("_").to_uppercase(),
        Some(o) => return Err(format!("rename_all {}", o)),
    })
}

struct Field { ident: String, name: String, ty: String, serde: Serde }
fn fields(f: &Fields, all: &Option<String>) -> R<Vec<Field>> {
    let mut v = vec![];
    for f in f {
        if !crate::tr::enabled(&f.attrs) { continue; }
        let s = serde(&f.attrs)?;
        let ident = f.ident.as_ref().ok_or("unnamed field")?.to_string();
        v.push(Field { name: named(&ident, &s, all, false)?, ident, ty: f.ty.to_token_stream().to_string(), serde: s });
    }
    Ok(v)
}

/// Statements that insert the entries; `place` gives the expression of a field, by reference or not.
fn put(fs: &[Field], place: &dyn Fn(&Field) -> String, reference: bool) -> String {
    let mut s = String::new();
    for f in fs {
        let p = place(f);
        let ins = format!("state.insert({:?}, {}.vx_ser());", f.name, p);
        match &f.serde.skip {
            Some(c) => s.push_str(&format!("if !{}({}{}) {{ {} }}\n", c, if reference { "" } else { "&" }, p, ins)),
            None => { s.push_str(&ins); s.push('\n'); }
        }
    }
    s
}
/// An option: the fields read from the object `map`, put together.
fn take(fs: &[Field], make: &str) -> String {
    let inits: Vec<String> = fs.iter().map(|f| f.ident.clone()).collect();
    let mut e = format!("Some({} {{ {} }})", make, inits.join(", "));
    for f in fs.iter().rev() {
        let missing = match f.serde.default.as_deref() {
            None => "vx_missing()".to_string(),
            Some("") if f.ty.contains('<') => "vx_default()".to_string(),
            Some("") => format!("Some({}::default())", f.ty.rsplit("::").next().unwrap().trim()),
            Some(g) => format!("Some({}())", g),
        };
        e = format!("match (match map.get({:?}) {{ Some(entry) => vx_de(entry), None => {} }}) {{ Some({}) => {}, None => None }}", f.name, missing, f.ident, e);
    }
    e
}

pub fn function(item: &Item, what: &str) -> R<(syn::Signature, syn::Block)> {
    let ser = what == "Serialize";
    let sig = if ser { "fn vx_ser(&self)" } else { "fn vx_read(v: &Value)" };
    let body = match item {
        Item::Struct(st) => {
            if !derives(&st.attrs, what) { return Err(format!("no derive({})", what)); }
            let c = serde(&st.attrs)?;
            if c.tag.is_some() || c.untagged || c.default.is_some() { return Err("serde attributes of the struct".into()); }
            match &st.fields {
                Fields::Unit => if ser { "vx_unit()".to_string() } else { "vx_de_unit(v, RawCompression)".replace("RawCompression", &st.ident.to_string()) },
                Fields::Named(_) => {
                    let fs = fields(&st.fields, &c.all)?;
                    if ser { format!("let mut state = JsonObject::new(); {} Value::Object(state)", put(&fs, &|f| format!("self.{}", f.ident), false)) }
                    else { format!("match v {{ Value::Object(map) => {}, Value::Array(_) => vx_de_other(v), _ => None }}", take(&fs, &st.ident.to_string())) }
                }
                _ => return Err("tuple struct".into()),
            }
        }
        Item::Enum(en) => {
            if !derives(&en.attrs, what) { return Err(format!("no derive({})", what)); }
            let c = serde(&en.attrs)?;
            let e = en.ident.to_string();
            let vs: Vec<&syn::Variant> = en.variants.iter().filter(|v| crate::tr::enabled(&v.attrs)).collect();
            let mut names = vec![];
            for v in &vs { names.push(named(&v.ident.to_string(), &serde(&v.attrs)?, &c.all, true)?); }
            match (c.untagged, &c.tag, &c.content) {
                (false, None, None) => {
                    if vs.iter().any(|v| !matches!(v.fields, Fields::Unit)) { return Err("externally tagged enum".into()); }
                    if ser { format!("match self {{ {} }}", vs.iter().zip(&names).map(|(v, n)| format!("{}::{} => vx_json_str({:?}),", e, v.ident, n)).collect::<String>()) }
                    else {
                        let mut k = "None".to_string();
                        for (v, n) in vs.iter().zip(&names).rev() { k = format!("if tag == {:?} {{ Some({}::{}) }} else {{ {} }}", n, e, v.ident, k); }
                        format!("match vx_as_str(v) {{ Some(tag) => {}, None => match v {{ Value::Object(_) => vx_de_other(v), _ => None }} }}", k)
                    }
                }
                (true, None, None) => {
                    let mut arms = String::new();
                    let mut tries = String::new();
                    for v in &vs {
                        match &v.fields {
                            Fields::Unnamed(u) if u.unnamed.len() == 1 => {
                                arms.push_str(&format!("{}::{}(content) => content.vx_ser(),", e, v.ident));
                                tries.push_str(&format!("let first: Option<{}> = vx_de(v); if let Some(content) = first {{ return Some({}::{}(content)); }}\n", u.unnamed[0].ty.to_token_stream(), e, v.ident));
                            }
                            Fields::Named(_) => {
                                let fs = fields(&v.fields, &None)?;
                                let pat: Vec<String> = fs.iter().map(|f| f.ident.clone()).collect();
                                arms.push_str(&format!("{}::{} {{ {} }} => {{ let mut state = JsonObject::new(); {} Value::Object(state) }}", e, v.ident, pat.join(", "), put(&fs, &|f| f.ident.clone(), true)));
                                tries.push_str(&format!("let fitting: Option<{}> = match v {{ Value::Object(map) => {}, Value::Array(_) => vx_de_other(v), _ => None }}; if let Some(ok) = fitting {{ return Some(ok); }}\n", e, take(&fs, &format!("{}::{}", e, v.ident))));
                            }
                            _ => return Err("untagged variant".into()),
                        }
                    }
                    if ser { format!("match self {{ {} }}", arms) } else { format!("{} None", tries) }
                }
                (false, Some(tag), Some(content)) => {
                    let mut arms = String::new();
                    let mut k = "None".to_string();
                    for (v, n) in vs.iter().zip(&names).rev() {
                        match &v.fields {
                            Fields::Unnamed(u) if u.unnamed.len() == 1 => {
                                arms = format!("{}::{}(content) => {{ let mut state = JsonObject::new(); state.insert({:?}, vx_json_str({:?})); state.insert({:?}, content.vx_ser()); Value::Object(state) }} {}", e, v.ident, tag, n, content, arms);
                                k = format!("if tag == {:?} {{ match (match map.get({:?}) {{ Some(entry) => vx_de(entry), None => vx_missing() }}) {{ Some(content) => Some({}::{}(content)), None => None }} }} else {{ {} }}", n, content, e, v.ident, k);
                            }
                            _ => return Err("tagged variant".into()),
                        }
                    }
                    if ser { format!("match self {{ {} }}", arms) }
                    else { format!("match v {{ Value::Object(map) => match map.get({:?}) {{ Some(entry) => match vx_as_str(entry) {{ Some(tag) => {}, None => match entry {{ Value::Object(_) => vx_de_other(v), _ => None }} }}, None => None }}, Value::Array(_) => vx_de_other(v), _ => None }}", tag, k) }
                }
                _ => return Err("serde representation".into()),
            }
        }
        _ => return Err("derive".into()),
    };
    Ok((syn::parse_str(sig).map_err(|e| e.to_string())?, syn::parse_str(&format!("{{ {} }}", body)).map_err(|e| format!("{}: {}", e, body))?))
}
