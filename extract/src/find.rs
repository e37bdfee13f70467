//! Locating items in the repository.
use quote::ToTokens;
use syn::spanned::Spanned;
use syn::visit::Visit;

pub struct Source { pub file: syn::File, pub name: String, pub macros: std::rc::Rc<crate::rules::Macros> }

#[derive(Clone)]
pub struct Func { pub sig: syn::Signature, pub block: syn::Block, pub file: String, pub line0: usize, pub line1: usize, pub macros: std::rc::Rc<crate::rules::Macros> }

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => type_name(&r.elem),
        o => o.to_token_stream().to_string(),
    }
}
fn squash(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && squash(&a.to_token_stream().to_string()).contains("cfg(test)"))
}

impl Source {
    pub fn load(repo: &str, file: &str) -> Result<Source, String> {
        let text = std::fs::read_to_string(format!("{}/{}", repo, file)).map_err(|e| format!("{}: {}", file, e))?;
        let file_ = syn::parse_file(&text).map_err(|e| format!("{}: {}", file, e))?;
        let mut macros = crate::rules::Macros::new();
        crate::rules::collect(&file_.items, &mut macros);
        Ok(Source { file: file_, name: file.to_string(), macros: std::rc::Rc::new(macros) })
    }

    /// Locators: `f`, `Type::f` (any impl of the type), `trait T::f` (default method),
    /// `impl T for X::f`, `impl<squashed generics and type>::f`, `macro NAME#K::...` (K-th expansion), `derive Serialize for T`.
    pub fn function(&self, loc: &str) -> Result<Func, String> {
        let mut found = vec![];
        if let Some(rest) = loc.strip_prefix("derive ") {
            let (what, name) = rest.split_once(" for ").ok_or("locator")?;
            let item = self.item("struct", name).or_else(|_| self.item("enum", name))?;
            let (sig, block) = crate::derive::function(&item, what)?;
            let span = item.span();
            return Ok(Func { sig, block, file: self.name.clone(), line0: span.start().line, line1: span.end().line, macros: self.macros.clone() });
        }
        if let Some(rest) = loc.strip_prefix("macro ") {
            let (mac, rest) = rest.split_once(' ').ok_or("locator")?;
            let (name, arg) = mac.split_once('#').ok_or("locator")?;
            let items = self.expand(name, arg)?;
            self.search(&items, rest, &mut found);
        } else {
            self.search(&self.file.items, loc, &mut found);
        }
        match found.len() {
            1 => Ok(found.pop().unwrap()),
            0 => Err(format!("lost anchor: {} not found in {}", loc, self.name)),
            n => Err(format!("lost anchor: {} found {} times in {}", loc, n, self.name)),
        }
    }

    fn push(&self, sig: &syn::Signature, block: &syn::Block, out: &mut Vec<Func>) {
        out.push(Func { sig: sig.clone(), block: block.clone(), file: self.name.clone(), line0: sig.span().start().line, line1: block.span().end().line, macros: self.macros.clone() });
    }

    fn search(&self, items: &[syn::Item], loc: &str, out: &mut Vec<Func>) {
        let (owner, name) = match loc.rsplit_once("::") { Some((o, n)) => (Some(squash(o)), n), None => (None, loc) };
        for it in items {
            match it {
                syn::Item::Fn(f) if owner.is_none() && f.sig.ident == name && !is_test(&f.attrs) => self.push(&f.sig, &f.block, out),
                syn::Item::Const(c) if owner.is_none() && c.ident == name => {
                    let (n, e) = (&c.ident, &c.expr);
                    if let (Ok(sig), Ok(block)) = (syn::parse2(quote::quote!(fn #n())), syn::parse2(quote::quote!({ #e }))) { self.push(&sig, &block, out); }
                }
                syn::Item::Trait(t) => {
                    if owner.as_deref() == Some(&format!("trait{}", t.ident)) {
                        for i in &t.items { if let syn::TraitItem::Fn(f) = i { if f.sig.ident == name { if let Some(b) = &f.default { self.push(&f.sig, b, out); } } } }
                    }
                }
                syn::Item::Impl(im) if !is_test(&im.attrs) => {
                    let o = match &owner { Some(o) => o, None => continue };
                    let ty = type_name(&im.self_ty);
                    let full = squash(&im.self_ty.to_token_stream().to_string());
                    let ok = match &im.trait_ {
                        Some((_, p, _)) => {
                            let tr = p.segments.last().unwrap().ident.to_string();
                            *o == format!("impl{}for{}", tr, ty) || *o == format!("impl{}for{}", tr, full) || (*o == ty)
                        }
                        None => *o == ty || *o == format!("impl{}", full),
                    };
                    if ok {
                        for i in &im.items {
                            match i {
                                syn::ImplItem::Fn(f) if f.sig.ident == name => self.push(&f.sig, &f.block, out),
                                // An associated constant is a function without parameters.
                                syn::ImplItem::Const(c) if c.ident == name => {
                                    let (n, e) = (&c.ident, &c.expr);
                                    if let (Ok(sig), Ok(block)) = (syn::parse2(quote::quote!(fn #n())), syn::parse2(quote::quote!({ #e }))) { self.push(&sig, &block, out); }
                                }
                                _ => (),
                            }
                        }
                    }
                }
                syn::Item::Mod(m) if !is_test(&m.attrs) => if let Some((_, items)) = &m.content { self.search(items, loc, out) },
                _ => (),
            }
        }
    }

    /// The items of the invocation of a macro of this file whose first argument is `arg`.
    fn expand(&self, name: &str, arg: &str) -> Result<Vec<syn::Item>, String> {
        let mut call = None;
        for it in &self.file.items {
            if let syn::Item::Macro(m) = it {
                if m.mac.path.is_ident(name) {
                    let t = squash(&m.mac.tokens.to_string());
                    if t == arg || t.starts_with(&format!("{},", arg)) || t.ends_with(&format!(",{}", arg)) { call = Some(m.mac.tokens.clone()); }
                }
            }
        }
        let call = call.ok_or(format!("lost anchor: {}!({}..)", name, arg))?;
        let ts = crate::rules::expand(&self.macros, name, call)?;
        let f: syn::File = syn::parse2(ts).map_err(|e| format!("macro expansion: {}", e))?;
        Ok(f.items)
    }

    pub fn item(&self, kind: &str, name: &str) -> Result<syn::Item, String> {
        for it in &self.file.items {
            let hit = match it {
                syn::Item::Struct(s) => kind == "struct" && s.ident == name,
                syn::Item::Enum(s) => kind == "enum" && s.ident == name,
                syn::Item::Const(s) => kind == "const" && s.ident == name && crate::tr::enabled(&s.attrs),
                _ => false,
            };
            if hit { return Ok(it.clone()); }
        }
        Err(format!("lost anchor: {} {} not found in {}", kind, name, self.name))
    }
}

/// The shape of a body: the kinds of its statements and expressions, without names, literals and operators.
pub fn skeleton(b: &syn::Block) -> String {
    struct S(String);
    impl<'a> Visit<'a> for S {
        fn visit_expr(&mut self, e: &'a syn::Expr) {
            use syn::Expr::*;
            let k = match e {
                Array(_) => "A", Assign(_) => "=", Binary(_) => "b", Block(_) => "{", Break(_) => "k", Call(_) => "c", Cast(_) => "t", Closure(_) => "|", Continue(_) => "n", Field(_) => ".",
                ForLoop(_) => "F", If(_) => "I", Index(_) => "[", Let(_) => "L", Lit(_) => "l", Loop(_) => "O", Macro(_) => "!", Match(_) => "M", MethodCall(_) => "m", Paren(_) => "", Path(_) => "p",
                Range(_) => "r", Reference(_) => "&", Repeat(_) => "R", Return(_) => "T", Struct(_) => "S", Try(_) => "?", Tuple(_) => "u", Unary(_) => "-", While(_) => "W", _ => "x",
            };
            self.0.push_str(k);
            self.0.push('(');
            // What is walked together, in which order, is part of the shape: proof texts refer to it.
            if let MethodCall(m) = e { if m.method == "zip" { self.0.push_str(&m.args.to_token_stream().to_string()); } }
            syn::visit::visit_expr(self, e);
            self.0.push(')');
        }
        fn visit_local(&mut self, l: &'a syn::Local) { self.0.push_str("let "); syn::visit::visit_local(self, l); self.0.push(';'); }
        fn visit_macro(&mut self, m: &'a syn::Macro) {
            self.0.push_str(&m.path.to_token_stream().to_string());
            self.0.push('<');
            for t in m.tokens.clone() { self.0.push(match t { proc_macro2::TokenTree::Group(_) => 'g', proc_macro2::TokenTree::Ident(_) => 'i', proc_macro2::TokenTree::Punct(_) => 'p', _ => 'l' }); }
            self.0.push('>');
        }
    }
    let mut s = S(String::new());
    s.visit_block(b);
    use std::hash::{Hash, Hasher};
    // FNV, stable across runs.
    struct F(u64);
    impl Hasher for F { fn finish(&self) -> u64 { self.0 } fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3); } } }
    let mut h = F(0xcbf29ce484222325);
    s.0.hash(&mut h);
    format!("{:016x}", h.finish())
}
