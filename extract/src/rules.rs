//! A small interpreter of `macro_rules!`, for macros the repository defines.
use proc_macro2::{Delimiter, Group, Ident, Spacing, TokenStream, TokenTree as TT};
use std::collections::HashMap;
use syn::parse::Parser;

type R<T> = Result<T, String>;

enum P { Tok(TT), Var(String, String), Rep(Vec<P>, Option<TT>, char), Group(Delimiter, Vec<P>) }
#[derive(Clone)]
enum B { One(Vec<TT>), Many(Vec<HashMap<String, B>>) }

pub type Macros = HashMap<String, TokenStream>;

pub fn collect(items: &[syn::Item], out: &mut Macros) {
    for i in items {
        match i {
            syn::Item::Macro(m) if m.mac.path.is_ident("macro_rules") => { if let Some(n) = &m.ident { out.insert(n.to_string(), m.mac.tokens.clone()); } }
            syn::Item::Mod(m) => if let Some((_, v)) = &m.content { collect(v, out) },
            _ => (),
        }
    }
}

fn is(t: &TT, c: char) -> bool { matches!(t, TT::Punct(p) if p.as_char() == c) }
fn same(a: &TT, b: &TT) -> bool { match (a, b) { (TT::Group(_), _) | (_, TT::Group(_)) => false, _ => a.to_string() == b.to_string() } }

fn pattern(ts: TokenStream) -> R<Vec<P>> {
    let v: Vec<TT> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            t if is(t, '$') => match v.get(i + 1) {
                Some(TT::Ident(n)) if v.get(i + 2).map_or(false, |t| is(t, ':')) => {
                    out.push(P::Var(n.to_string(), v.get(i + 3).ok_or("macro pattern")?.to_string()));
                    i += 4;
                }
                Some(TT::Group(g)) => {
                    let sub = pattern(g.stream())?;
                    let mut k = i + 2;
                    let mut sep = None;
                    let op = loop {
                        match v.get(k) { Some(TT::Punct(p)) if "*+?".contains(p.as_char()) => break p.as_char(), Some(t) if sep.is_none() => { sep = Some(t.clone()); k += 1; } _ => return Err("macro repetition".into()) }
                    };
                    out.push(P::Rep(sub, sep, op));
                    i = k + 1;
                }
                _ => return Err("macro pattern".into()),
            },
            TT::Group(g) => { out.push(P::Group(g.delimiter(), pattern(g.stream())?)); i += 1; }
            t => { out.push(P::Tok(t.clone())); i += 1; }
        }
    }
    Ok(out)
}

fn fragment(kind: &str, t: &[TT]) -> Option<(usize, Vec<TT>)> {
    fn part<T: syn::parse::Parse>(t: &[TT]) -> Option<usize> {
        let ts: TokenStream = t.iter().cloned().collect();
        let f = |s: syn::parse::ParseStream| { s.parse::<T>()?; s.parse::<TokenStream>() };
        f.parse2(ts).ok().map(|rest| t.len() - rest.into_iter().count())
    }
    struct PatM;
    impl syn::parse::Parse for PatM { fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> { syn::Pat::parse_multi_with_leading_vert(i)?; Ok(PatM) } }
    if t.is_empty() { return None; }
    let n = match kind {
        "tt" => 1,
        "ident" => if let TT::Ident(_) = t[0] { 1 } else { return None },
        "literal" => part::<syn::Lit>(t)?,
        "lifetime" => part::<syn::Lifetime>(t)?,
        "ty" => part::<syn::Type>(t)?,
        "path" => part::<syn::Path>(t)?,
        "expr" => part::<syn::Expr>(t)?,
        "pat" | "pat_param" => part::<PatM>(t)?,
        "block" => part::<syn::Block>(t)?,
        _ => return None,
    };
    let v = t[..n].to_vec();
    Some((n, if kind == "expr" && n > 1 { vec![TT::Group(Group::new(Delimiter::None, v.into_iter().collect()))] } else { v }))
}

fn matches(p: &[P], t: &[TT]) -> Option<(usize, HashMap<String, B>)> {
    let mut b = HashMap::new();
    let mut i = 0;
    for x in p {
        match x {
            P::Tok(k) => { if !same(k, t.get(i)?) { return None; } i += 1; }
            P::Var(n, kind) => { let (k, v) = fragment(kind, &t[i..])?; b.insert(n.clone(), B::One(v)); i += k; }
            P::Group(d, q) => match t.get(i)? {
                TT::Group(g) if g.delimiter() == *d => {
                    let v: Vec<TT> = g.stream().into_iter().collect();
                    let (k, m) = matches(q, &v)?;
                    if k != v.len() { return None; }
                    b.extend(m);
                    i += 1;
                }
                _ => return None,
            },
            P::Rep(q, sep, op) => {
                let mut many: Vec<HashMap<String, B>> = vec![];
                loop {
                    let mut k = i;
                    if k >= t.len() || (*op == '?' && many.len() == 1) { break; }
                    if let (Some(s), false) = (sep, many.is_empty()) { if !same(s, &t[k]) { break; } k += 1; }
                    match matches(q, &t[k..]) { Some((n, m)) if n > 0 => { many.push(m); i = k + n; } _ => break }
                }
                if *op == '+' && many.is_empty() { return None; }
                let mut names = vec![];
                vars(q, &mut names);
                for n in names {
                    b.insert(n.clone(), B::Many(many.iter().map(|m| { let mut h = HashMap::new(); if let Some(x) = m.get(&n) { h.insert(n.clone(), x.clone()); } h }).collect()));
                }
            }
        }
    }
    Some((i, b))
}
fn vars(p: &[P], out: &mut Vec<String>) {
    for x in p { match x { P::Var(n, _) => out.push(n.clone()), P::Rep(q, _, _) | P::Group(_, q) => vars(q, out), _ => () } }
}

fn used(ts: TokenStream, out: &mut Vec<String>) {
    let v: Vec<TT> = ts.into_iter().collect();
    for (i, t) in v.iter().enumerate() {
        if let TT::Group(g) = t { used(g.stream(), out); }
        if is(t, '$') { if let Some(TT::Ident(n)) = v.get(i + 1) { out.push(n.to_string()); } }
    }
}

fn transcribe(ts: TokenStream, b: &HashMap<String, B>) -> R<TokenStream> {
    let v: Vec<TT> = ts.into_iter().collect();
    let mut out: Vec<TT> = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            t if is(t, '$') => match v.get(i + 1) {
                Some(TT::Ident(n)) if n == "crate" => { out.push(TT::Ident(Ident::new("crate", n.span()))); i += 2; }
                Some(TT::Ident(n)) => { match b.get(&n.to_string()) { Some(B::One(x)) => out.extend(x.iter().cloned()), _ => return Err(format!("macro variable {}", n)) } i += 2; }
                Some(TT::Group(g)) => {
                    let mut k = i + 2;
                    let mut sep = None;
                    loop { match v.get(k) { Some(TT::Punct(p)) if "*+?".contains(p.as_char()) => break, Some(t) if sep.is_none() => { sep = Some(t.clone()); k += 1; } _ => return Err("macro repetition".into()) } }
                    let mut names = vec![];
                    used(g.stream(), &mut names);
                    let n = names.iter().find_map(|n| if let Some(B::Many(m)) = b.get(n) { Some(m.len()) } else { None }).ok_or("macro repetition")?;
                    for j in 0..n {
                        let mut c = b.clone();
                        for name in &names { if let Some(B::Many(m)) = b.get(name) { match m.get(j).and_then(|m| m.get(name)) { Some(x) => { c.insert(name.clone(), x.clone()); } None => return Err("macro repetition".into()) } } }
                        if j > 0 { if let Some(s) = &sep { out.push(s.clone()); } }
                        out.extend(transcribe(g.stream(), &c)?);
                    }
                    i = k + 1;
                }
                _ => return Err("macro body".into()),
            },
            TT::Group(g) => { let mut h = Group::new(g.delimiter(), transcribe(g.stream(), b)?); h.set_span(g.span()); out.push(TT::Group(h)); i += 1; }
            t => { out.push(t.clone()); i += 1; }
        }
    }
    Ok(out.into_iter().collect())
}

/// One expansion step of `name!(input)`.
pub fn expand(macros: &Macros, name: &str, input: TokenStream) -> R<TokenStream> {
    let def: Vec<TT> = macros.get(name).ok_or_else(|| format!("lost anchor: macro {}", name))?.clone().into_iter().collect();
    let input: Vec<TT> = input.into_iter().collect();
    let mut i = 0;
    while i + 3 < def.len() {
        let (p, body) = match (&def[i], &def[i + 3]) { (TT::Group(p), TT::Group(b)) => (p, b), _ => return Err("macro shape".into()) };
        let ps = pattern(p.stream())?;
        if let Some((n, b)) = matches(&ps, &input) { if n == input.len() { return transcribe(body.stream(), &b); } }
        i += 4;
        if def.get(i).map_or(false, |t| is(t, ';')) { i += 1; }
    }
    let _ = Spacing::Alone;
    Err(format!("no rule of {}! matches", name))
}
