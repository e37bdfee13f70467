//! Translation of Rust function bodies into the subset of Rust that Verus accepts.
//!
//! The translation is structural: every expression is carried over as it is written except for the rules
//! below (iterator chains to index loops, combinators to `match`, macros to calls); anything that no rule
//! covers and Verus rejects makes the function `lost`, never approximated.
use crate::find::Func;
use crate::template::{LoopSpec, Spec};
use quote::ToTokens;
use std::collections::{BTreeSet, HashMap, HashSet};
use syn::spanned::Spanned;
use syn::visit::Visit;
use syn::*;

type R<T> = std::result::Result<T, String>;

#[derive(Default, Clone)]
pub struct Config { methods: HashMap<String, String>, paths: HashMap<String, String>, types: HashMap<String, String>, eager: HashSet<String>, results: HashSet<String>, lifts: HashSet<String>, sinks: HashMap<String, String>, keep: HashSet<String>, world: HashSet<String>, drops: HashSet<String> }
impl Config {
    pub fn set(&mut self, kind: &str, value: &str) {
        let (a, b) = value.split_once(' ').unwrap_or((value, ""));
        let (a, b) = (a.to_string(), b.trim().to_string());
        match kind {
            "method" => { self.methods.insert(a, b); }
            "path" => { self.paths.insert(a, b); }
            "type" => { self.types.insert(a, b); }
            "eager" => self.eager.extend(value.split_whitespace().map(|s| s.to_string())),
            "result" => self.results.extend(value.split_whitespace().map(|s| s.to_string())),
            "lambda" => self.lifts.extend(value.split_whitespace().map(|s| s.to_string())),
            "sink" => { if b.is_empty() { self.sinks.remove(&a); } else { self.sinks.insert(a, b); } }
            "world" => self.world.extend(value.split_whitespace().map(|s| s.to_string())),
            "drops" => self.drops.extend(value.split_whitespace().map(|s| s.to_string())),
            "keep" => self.keep.extend(value.split_whitespace().map(|s| s.to_string())),
            _ => panic!("config {}", kind),
        }
    }
}

fn squash(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }
pub fn text<T: ToTokens>(t: &T) -> String { tidy(&t.to_token_stream().to_string()) }
fn tidy(s: &str) -> String {
    s.replace(" :: ", "::").replace(":: <", "::<").replace("& ", "&").replace("&&", "&&").replace(" . ", ".").replace(" ,", ",")
}

/// Evaluate `cfg` attributes for the default feature set on this platform.
pub fn enabled(attrs: &[Attribute]) -> bool {
    fn eval(m: &Meta) -> bool {
        match m {
            Meta::Path(p) => !p.is_ident("test"),
            Meta::NameValue(nv) => {
                let v = squash(&nv.value.to_token_stream().to_string());
                if nv.path.is_ident("feature") { ["\"bzip\"", "\"gzip\"", "\"lz\"", "\"xz\"", "\"filesystem\"", "\"use_ndarray\""].contains(&&v[..]) }
                else if nv.path.is_ident("target_endian") { v == "\"little\"" }
                else { false }
            }
            Meta::List(l) => {
                let parts = l.parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated).map(|p| p.into_iter().collect::<Vec<_>>()).unwrap_or_default();
                if l.path.is_ident("not") { !parts.iter().all(eval) } else if l.path.is_ident("any") { parts.iter().any(eval) } else { parts.iter().all(eval) }
            }
        }
    }
    attrs.iter().filter(|a| a.path().is_ident("cfg")).all(|a| a.parse_args::<Meta>().map(|m| eval(&m)).unwrap_or(true))
}

/// A symbolic element of an iterator.
#[derive(Clone, Debug)]
enum El { Val(String), Ref(String), Mut(String), Tuple(Vec<El>) }
impl El {
    fn show(&self) -> String {
        match self { El::Val(s) => s.clone(), El::Ref(p) => format!("&{}", p), El::Mut(p) => format!("&mut {}", p), El::Tuple(v) => format!("({})", v.iter().map(|e| e.show()).collect::<Vec<_>>().join(", ")) }
    }
    fn deref(&self) -> El { match self { El::Ref(p) | El::Mut(p) => El::Val(p.clone()), El::Val(s) => El::Val(format!("(*{})", s)), t => t.clone() } }
}

enum It {
    Seq { src: usize, mode: char },
    Range { lo: String, len: usize },
    Zip(Box<It>, Box<It>),
    Map(Box<It>, Expr),
    Filter(Box<It>, Expr),
    Cloned(Box<It>),
    Enumerate(Box<It>),
}

struct Src { place: String, len: String }

struct Tr<'a> { spec: &'a Spec, cfg: &'a Config, loops: usize, lambdas: usize, tmp: usize, lits: BTreeSet<String>, lifted: Vec<String>, macros: std::rc::Rc<crate::rules::Macros>, notes: BTreeSet<String>, borrowed: BTreeSet<String>, consts: HashMap<String, String>, name: String, bound_fns: HashMap<String, (String, Vec<String>)>, points: HashMap<(bool, String), usize> }

struct HasJump(bool);
impl<'a> Visit<'a> for HasJump {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
    fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn jumps(e: &Expr) -> bool { let mut v = HasJump(false); v.visit_expr(e); v.0 }

const SINKS: &[&str] = &["collect", "product", "sum", "all", "any", "for_each", "count", "find", "position", "fold", "min", "max", "last"];
const STAGES: &[&str] = &["map", "zip", "filter", "cloned", "copied", "enumerate", "into_iter"];

pub fn params(sig: &str) -> R<Vec<String>> {
    // Parameter list: first '(' at generic depth 0 after the name.
    let b: Vec<char> = sig.chars().collect();
    let mut i = sig.find("fn ").ok_or("contract signature")? + 3;
    let mut angle = 0i32;
    while i < b.len() {
        match b[i] { '<' => angle += 1, '>' if b[i - 1] != '-' => angle -= 1, '(' if angle == 0 => break, _ => () }
        i += 1;
    }
    let mut out = vec![];
    let (mut depth, mut angle) = (0, 0i32);
    let mut cur = String::new();
    for k in i..b.len() {
        let c = b[k];
        match c {
            '(' | '[' => { depth += 1; if depth == 1 { continue; } }
            ')' | ']' => { depth -= 1; if depth == 0 { break; } }
            '<' => angle += 1,
            '>' if b[k - 1] != '-' => angle -= 1,
            ',' if depth == 1 && angle == 0 => { out.push(std::mem::take(&mut cur)); continue; }
            _ => (),
        }
        cur.push(c);
    }
    if !cur.trim().is_empty() { out.push(cur); }
    Ok(out.into_iter().map(|p| p.trim().to_string()).filter(|p| !p.starts_with("Ghost(") && !p.starts_with("Tracked(")).map(|p| {
        let n = p.split(':').next().unwrap().trim().trim_start_matches("mut ").trim().to_string();
        if n.ends_with("self") { "self".to_string() } else { n }
    }).filter(|n| n != "vx_w").collect())
}

pub fn function(f: &Func, spec: &Spec, cfg: &Config) -> R<((String, Vec<String>), Vec<String>)> {
    let mut t = Tr { spec, cfg, loops: 0, lambdas: 0, tmp: 0, lits: BTreeSet::new(), lifted: vec![], macros: f.macros.clone(), notes: BTreeSet::new(), borrowed: BTreeSet::new(), consts: HashMap::new(), name: spec.id().replace("::", "_").replace(' ', "_"), bound_fns: HashMap::new(), points: HashMap::new() };
    let mut head = String::new();
    let want = params(&spec.sig)?;
    let have: Vec<&FnArg> = f.sig.inputs.iter().collect();
    if want.len() != have.len() { return Err(format!("{} parameters where the contract has {}", have.len(), want.len())); }
    for (w, h) in want.iter().zip(have) {
        match h {
            FnArg::Receiver(_) => if w != "self" { return Err("receiver".into()) },
            FnArg::Typed(p) => match &*p.pat {
                Pat::Ident(i) => { if i.ident != w.as_str() || i.mutability.is_some() { if w == "self" { return Err("receiver".into()); } head.push_str(&format!("    let {}{} = {};\n", if i.mutability.is_some() { "mut " } else { "" }, i.ident, w)); } }
                Pat::Wild(_) => (),
                o => return Err(format!("parameter pattern {}", text(o))),
            },
        }
    }
    let body = t.stmts(&f.block.stmts, true)?;
    let mut out = String::from("{\n");
    if spec.hint("strings").is_some() { for l in &t.lits { out.push_str(&format!("    proof {{ reveal_strlit({}); }}\n", l)); } }
    out.push_str(&head);
    out.push_str(&spec.start);
    out.push_str(&body);
    out.push_str("}\n");
    for (after, what) in spec.after_let.iter().map(|w| (true, &w.0)).chain(spec.before.iter().map(|w| (false, &w.0))) { if !t.notes.contains(&format!("used {} {}", after, what)) { return Err(format!("the code point `{}` of the contract's proof is gone", what)); } }
    for k in spec.loops.keys() { if *k >= t.loops { return Err(format!("loop {} of the contract is gone", k)); } }
    for k in spec.lambdas.keys() { if *k >= t.lambdas { return Err(format!("closure {} of the contract is gone", k)); } }
    let notes = t.notes.iter().filter(|n| !n.starts_with("used ")).cloned().collect();
    Ok(((out, t.lifted), notes))
}

pub fn item(i: &Item, cfg: &Config, opts: &str) -> R<String> {
    let t = Tr { spec: &Spec::default(), cfg, loops: 0, lambdas: 0, tmp: 0, lits: BTreeSet::new(), lifted: vec![], macros: Default::default(), notes: BTreeSet::new(), borrowed: BTreeSet::new(), consts: HashMap::new(), name: String::new(), bound_fns: HashMap::new(), points: HashMap::new() };
    let derive = |d: &str| if d.is_empty() { String::new() } else { format!("#[derive({})]\n", d) };
    Ok(match i {
        Item::Struct(s) => {
            let plain = opts.starts_with("nogenerics");
            let mut o = derive(opts.trim_start_matches("nogenerics").trim());
            o.push_str(&format!("pub struct {}{} ", s.ident, if plain { String::new() } else { text(&s.generics) }));
            match &s.fields {
                Fields::Named(n) => { o.push_str("{\n"); for f in &n.named { o.push_str(&format!("    pub {}: {},\n", f.ident.as_ref().unwrap(), t.ty(&f.ty))); } o.push_str("}\n"); }
                Fields::Unnamed(u) => o.push_str(&format!("({});\n", u.unnamed.iter().map(|f| format!("pub {}", t.ty(&f.ty))).collect::<Vec<_>>().join(", "))),
                Fields::Unit => o.push_str(";\n"),
            }
            o
        }
        Item::Enum(e) => {
            let mut o = derive(opts);
            o.push_str(&format!("pub enum {} {{\n", e.ident));
            for v in e.variants.iter().filter(|v| enabled(&v.attrs)) {
                match &v.fields {
                    Fields::Unit => o.push_str(&format!("    {},\n", v.ident)),
                    Fields::Named(n) => o.push_str(&format!("    {} {{ {} }},\n", v.ident, n.named.iter().map(|f| format!("{}: {}", f.ident.as_ref().unwrap(), t.ty(&f.ty))).collect::<Vec<_>>().join(", "))),
                    Fields::Unnamed(u) => o.push_str(&format!("    {}({}),\n", v.ident, u.unnamed.iter().map(|f| t.ty(&f.ty)).collect::<Vec<_>>().join(", "))),
                }
            }
            o.push_str("}\n");
            o
        }
        Item::Const(c) => {
            let mut t = t;
            let e = t.expr(&c.expr)?;
            if let Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) = &*c.expr {
                format!("pub open spec fn spec_{0}() -> Seq<char> {{ {1}@ }}\npub exec const {2}: &'static str ensures {2}@ == spec_{0}() {{ {1} }}\n", c.ident.to_string().to_lowercase(), e, c.ident)
            } else { format!("pub const {}: {} = {};\n", c.ident, t.ty(&c.ty), e) }
        }
        _ => return Err("item kind".into()),
    })
}

impl<'a> Tr<'a> {
    fn fresh(&mut self, p: &str) -> String { self.tmp += 1; format!("v{}{}", p, self.tmp) }

    fn ty(&self, t: &Type) -> String {
        let s = text(t);
        let q = squash(&s);
        if let Some(r) = self.cfg.types.get(&q) { return r.clone(); }
        match t {
            Type::Path(p) => {
                let seg = match p.path.segments.last() { Some(s) => s, None => return s };
                let mut o = seg.ident.to_string();
                if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" { o = format!("Self::{}", o); }
                if let Some(r) = self.cfg.types.get(&o) { if let PathArguments::None = seg.arguments { return r.clone(); } o = r.clone(); }
                if let PathArguments::AngleBracketed(a) = &seg.arguments {
                    let v: Vec<String> = a.args.iter().map(|g| match g { GenericArgument::Type(t) => self.ty(t), o => text(o) }).collect();
                    o = format!("{}<{}>", o, v.join(", "));
                }
                o
            }
            Type::Reference(r) => format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, self.ty(&r.elem)),
            Type::Group(g) => self.ty(&g.elem),
            Type::Paren(g) => self.ty(&g.elem),
            Type::Slice(s) => format!("[{}]", self.ty(&s.elem)),
            Type::Array(a) => { let mut n = text(&a.len); for (k, v) in &self.consts { n = n.split(' ').map(|w| if w == k { v.clone() } else { w.to_string() }).collect::<Vec<_>>().join(" "); } format!("[{}; {}]", self.ty(&a.elem), n) }
            Type::Tuple(u) => format!("({})", u.elems.iter().map(|e| self.ty(e) + ",").collect::<String>()),
            _ => s,
        }
    }

    fn path(&self, p: &Path) -> String {
        let full = squash(&text(p));
        if let Some(r) = self.cfg.paths.get(&full) { return r.clone(); }
        if let Some(r) = self.consts.get(&full) { return r.clone(); }
        let segs: Vec<&PathSegment> = p.segments.iter().collect();
        let mut k = 0;
        while k + 1 < segs.len() {
            let n = segs[k].ident.to_string();
            if n == "Self" || n.chars().next().unwrap().is_uppercase() || ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "f16", "f32", "f64", "str", "char", "bool"].contains(&&n[..]) { break; }
            k += 1;
        }
        let v: Vec<String> = segs[k..].iter().map(|s| {
            let mut o = s.ident.to_string();
            if let Some(r) = self.cfg.types.get(&o) { if segs.len() - k > 1 { o = r.clone(); } }
            if let PathArguments::AngleBracketed(a) = &s.arguments {
                let g: Vec<String> = a.args.iter().map(|g| match g { GenericArgument::Type(t) => self.ty(t), o => text(o) }).collect();
                o = format!("{}::<{}>", o, g.join(", "));
            }
            o
        }).collect();
        let short = v.join("::");
        self.cfg.paths.get(&squash(&short)).cloned().unwrap_or(short)
    }

    fn pat(&self, p: &Pat) -> R<String> {
        Ok(match p {
            Pat::Path(e) => self.path(&e.path),
            Pat::TupleStruct(t) => format!("{}({})", self.path(&t.path), t.elems.iter().map(|e| self.pat(e)).collect::<R<Vec<_>>>()?.join(", ")),
            Pat::Struct(s) => {
                let mut v = vec![];
                for f in &s.fields { v.push(if f.colon_token.is_some() { format!("{}: {}", text(&f.member), self.pat(&f.pat)?) } else { self.pat(&f.pat)? }); }
                if s.rest.is_some() { v.push("..".into()); }
                format!("{} {{ {} }}", self.path(&s.path), v.join(", "))
            }
            Pat::Tuple(t) => format!("({}{})", t.elems.iter().map(|e| self.pat(e)).collect::<R<Vec<_>>>()?.join(", "), if t.elems.len() == 1 { "," } else { "" }),
            Pat::Or(o) => o.cases.iter().map(|e| self.pat(e)).collect::<R<Vec<_>>>()?.join(" | "),
            // `&mut P(ref mut x)` is what `P(x)` means for a `&mut` scrutinee.
            Pat::Reference(r) if r.mutability.is_some() && matches!(&*r.pat, Pat::TupleStruct(_)) => self.pat(&r.pat)?.replace("ref mut ", ""),
            Pat::Reference(r) => format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, self.pat(&r.pat)?),
            Pat::Paren(x) => format!("({})", self.pat(&x.pat)?),
            Pat::Type(t) => self.pat(&t.pat)?,
            o => text(o),
        })
    }

    fn anchor(&mut self, key: &str, after: bool) -> String {
        let v = if after { &self.spec.after_let } else { &self.spec.before };
        let mut o = String::new();
        // The points with the same description are told apart by their number: `X`, `X #2`, ...
        let seen = self.points.entry((after, key.to_string())).or_insert(0);
        *seen += 1;
        let key = if *seen == 1 { key.to_string() } else { format!("{} #{}", key, seen) };
        for (k, t) in v { if *k == key && !self.notes.contains(&format!("used {} {}", after, k)) { o.push_str(t); self.notes.insert(format!("used {} {}", after, k)); } }
        o
    }

    fn mark(&self, s: proc_macro2::Span) -> String { format!("/*src:{}*/ ", s.start().line) }

    /// Values whose drop does something, in a block that ends normally: dropped there.
    fn scoped(&self, b: &[Stmt]) -> Vec<String> {
        let mut v = vec![];
        for s in b {
            if let Stmt::Local(l) = s {
                if let (Some(i), Pat::Ident(p)) = (&l.init, match &l.pat { Pat::Type(t) => &*t.pat, p => p }) {
                    if let Expr::MethodCall(m) = &*i.expr { if self.cfg.drops.contains(&m.method.to_string()) { v.push(p.ident.to_string()); } }
                }
            }
            if let Stmt::Expr(Expr::Call(c), _) = s {
                if let (Expr::Path(f), Some(Expr::Path(a))) = (&*c.func, c.args.first()) { if f.path.segments.last().map_or(false, |s| s.ident == "drop") { let n = text(&a.path); v.retain(|x| *x != n); } }
            }
        }
        v.reverse();
        v
    }

    pub fn stmts(&mut self, b: &[Stmt], top: bool) -> R<String> {
        let mut o = String::new();
        let drops = self.scoped(b);
        if !drops.is_empty() {
            let end: String = drops.iter().map(|v| format!("vx_drop({});\n", v)).collect();
            return Ok(match b.last() {
                Some(Stmt::Expr(e, None)) if !matches!(e, Expr::While(_) | Expr::ForLoop(_)) => {
                    let head = self.plain_stmts(&b[..b.len() - 1], false)?;
                    let tail = self.plain_stmts(&b[b.len() - 1..], top)?;
                    format!("{}let v_kept = {{ {} }};\n{}v_kept\n", head, tail, end)
                }
                _ => self.plain_stmts(b, top)? + &end,
            });
        }
        o.push_str(&self.plain_stmts(b, top)?);
        Ok(o)
    }

    fn plain_stmts(&mut self, b: &[Stmt], top: bool) -> R<String> {
        let mut o = String::new();
        for (k, s) in b.iter().enumerate() {
            let last = k + 1 == b.len();
            let m = self.mark(s.span());
            match s {
                Stmt::Local(l) => {
                    if !enabled(&l.attrs) { continue; }
                    let key = squash(&text(&l.pat)).replace("mut", "");
                    let key = key.split(':').next().unwrap().to_string();
                    o.push_str(&self.anchor(&format!("let {}", key), false));
                    match &l.init {
                        None => o.push_str(&format!("{}let {};\n", m, self.local_pat(&l.pat)?)),
                        Some(i) => {
                            if let Expr::Closure(c) = &*i.expr { self.bound_closure(&key, c)?; o.push_str(&self.anchor(&format!("let {}", key), true)); continue; }
                            if self.bound_fns.contains_key(&key) { return Err("a closure's name is used again".into()); }
                            let e = self.expr(&i.expr)?;
                            match &i.diverge {
                                None => o.push_str(&format!("{}let {} = {};\n", m, self.local_pat(&l.pat)?, e)),
                                Some((_, d)) => { let d = self.expr(d)?; o.push_str(&format!("{}let {} = {} else {};\n", m, self.local_pat(&l.pat)?, e, d)) }
                            }
                        }
                    }
                    o.push_str(&self.anchor(&format!("let {}", key), true));
                }
                Stmt::Item(Item::Use(u)) => {
                    // Glob imports bring enum variants into scope.
                    let mut t = &u.tree;
                    while let UseTree::Path(p) = t {
                        if p.ident.to_string().chars().next().unwrap().is_uppercase() { o.push_str(&format!("use {}::{};\n", p.ident, text(&p.tree))); break; }
                        t = &p.tree;
                    }
                }
                Stmt::Item(i) => match i {
                    // A named literal is written out, since it may be the length of an array.
                    Item::Const(c) if matches!(&*c.expr, Expr::Lit(ExprLit { lit: Lit::Int(_), .. })) => { self.consts.insert(c.ident.to_string(), format!("{}{}", text(&c.expr), self.ty(&c.ty))); }
                    Item::Const(c) => { let e = self.expr(&c.expr)?; o.push_str(&format!("{}let {}: {} = {};\n", m, c.ident, self.ty(&c.ty), e)); }
                    _ => return Err("nested item".into()),
                },
                Stmt::Expr(e, semi) => {
                    let key = stmt_key(e);
                    if let Some(k) = &key { o.push_str(&self.anchor(k, false)); }
                    let t = if top && last && semi.is_none() && self.spec.hint("iterator").is_some() { self.collected(e)? } else { self.expr(e)? };
                    if last && semi.is_none() {
                        // The value of the block.
                        if top && !self.spec.end.is_empty() && !matches!(e, Expr::While(_) | Expr::ForLoop(_)) {
                            let v = if self.spec.hint("unit").is_some() { format!("{};\n{}", t, self.spec.end) } else { format!("let v_result = {};\n{}v_result", t, self.spec.end) };
                            o.push_str(&format!("{}{}\n", m, v));
                        } else { o.push_str(&format!("{}{}\n", m, t)); if top && last { o.push_str(&self.spec.end); } }
                    } else {
                        let block = matches!(e, Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) | Expr::Block(_)) && semi.is_none();
                        o.push_str(&format!("{}{}{}\n", m, t, if block { "" } else { ";" }));
                        if top && last { o.push_str(&self.spec.end); }
                    }
                    if let Some(k) = &key { o.push_str(&self.anchor(k, true)); }
                }
                Stmt::Macro(mc) => {
                    let key = format!("{}!", text(&mc.mac.path));
                    o.push_str(&self.anchor(&key, false));
                    let t = self.mac(&mc.mac)?;
                    o.push_str(&format!("{}{}{}\n", m, t, if mc.semi_token.is_some() || !last { ";" } else { "" }));
                    o.push_str(&self.anchor(&key, true));
                }
            }
        }
        if top && b.is_empty() { o.push_str(&self.spec.end); }
        Ok(o)
    }

    /// An iterator that is returned, as the sequence of its elements.
    fn collected(&mut self, e: &Expr) -> R<String> {
        let k = self.loops; self.loops += 1;
        let (mut srcs, mut pre) = (vec![], String::new());
        match self.iter(e, &mut srcs, &mut pre, k)? {
            Some(it) => {
                self.notes.insert("the returned iterator is given as the sequence of its elements".into());
                self.index_loop(k, it, srcs, pre, Some(("Vec::new()".into(), "Vec<_>".into())), None, &mut |_, e| Ok(format!("va{}.push({});\n", k, e.show())), "$acc")
            }
            None => { self.loops = k; self.expr(e) }
        }
    }

    fn local_pat(&mut self, p: &Pat) -> R<String> {
        Ok(match p { Pat::Type(t) => format!("{}: {}", self.pat(&t.pat)?, self.ty(&t.ty)), p => self.pat(p)? })
    }

    fn block(&mut self, b: &Block) -> R<String> { Ok(format!("{{\n{}}}", self.stmts(&b.stmts, false)?)) }

    fn expr(&mut self, e: &Expr) -> R<String> {
        Ok(match e {
            Expr::Lit(l) => {
                match &l.lit {
                    Lit::Str(s) => { let t = text(s); self.lits.insert(t.clone()); t }
                    o => text(o),
                }
            }
            Expr::Path(p) => {
                if let Some(q) = &p.qself {
                    let f = squash(&text(p));
                    match self.cfg.paths.get(&f) { Some(r) => r.clone(), None => { let _ = q; text(p) } }
                } else { self.path(&p.path) }
            }
            Expr::Paren(p) => format!("({})", self.expr(&p.expr)?),
            Expr::Group(p) => self.expr(&p.expr)?,
            Expr::Field(f) => format!("{}.{}", self.expr(&f.base)?, text(&f.member)),
            Expr::Unary(u) => format!("{}{}", text(&u.op), self.expr(&u.expr)?),
            Expr::Binary(b) => {
                let l = self.expr(&b.left)?;
                let r = self.expr(&b.right)?;
                // An overloaded operator: `x - &y`.
                if let (BinOp::Sub(_), Expr::Reference(_), Some(f)) = (&b.op, &*b.right, self.cfg.methods.get("-")) { return Ok(format!("({}).{}({})", l, f, r)); }
                let complex = |s: &str| s.contains("while ") || s.contains("loop ") || s.contains("return ");
                match b.op {
                    BinOp::And(_) if complex(&r) => format!("(if {} {{ {} }} else {{ false }})", l, r),
                    BinOp::Or(_) if complex(&r) => format!("(if {} {{ true }} else {{ {} }})", l, r),
                    _ => format!("{} {} {}", l, text(&b.op), r),
                }
            }
            Expr::Assign(a) => format!("{} = {}", self.expr(&a.left)?, self.expr(&a.right)?),
            Expr::Cast(c) => format!("{} as {}", self.expr(&c.expr)?, self.ty(&c.ty)),
            Expr::Reference(r) => {
                // `&s[n..]` on a string.
                if let (Expr::Index(i), true) = (&*r.expr, self.spec.hint("strindex").is_some()) { if matches!(&*i.index, Expr::Range(_)) { let x = self.expr(&r.expr)?; if x.starts_with("vx_str_") { return Ok(x); } } }
                let x = self.expr(&r.expr)?;
                if r.mutability.is_some() && self.borrowed.contains(&x) { return Ok(format!("&mut *{}", x)); }
                format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, x)
            }
            Expr::Index(i) => {
                let b = self.expr(&i.expr)?;
                if let (Expr::Range(r), true) = (&*i.index, self.spec.hint("strindex").is_some()) {
                    if let (Some(lo), None) = (&r.start, &r.end) { let lo = self.expr(lo)?; return Ok(format!("vx_str_from({}, {})", b, lo)); }
                }
                if let Expr::Range(r) = &*i.index { if r.start.is_none() && r.end.is_none() && self.cfg.methods.contains_key("[..]") { return Ok(format!("(*vx_all(&{}))", b)); } }
                let x = self.expr(&i.index)?;
                format!("{}[{}]", b, x)
            }
            Expr::Range(r) => {
                let lo = r.start.as_ref().map(|e| self.expr(e)).transpose()?.unwrap_or_default();
                let hi = r.end.as_ref().map(|e| self.expr(e)).transpose()?.unwrap_or_default();
                format!("{}{}{}", lo, text(&r.limits), hi)
            }
            Expr::Tuple(t) => { let v = t.elems.iter().map(|e| self.expr(e)).collect::<R<Vec<_>>>()?; format!("({}{})", v.join(", "), if v.len() == 1 { "," } else { "" }) }
            Expr::Array(t) => format!("[{}]", t.elems.iter().map(|e| self.expr(e)).collect::<R<Vec<_>>>()?.join(", ")),
            Expr::Repeat(r) => format!("[{}; {}]", self.expr(&r.expr)?, self.expr(&r.len)?),
            Expr::Block(b) if b.label.is_none() => self.block(&b.block)?,
            Expr::Try(t) => format!("{}?", self.expr(&t.expr)?),
            Expr::Return(r) => match &r.expr { Some(e) => format!("return {}", self.expr(e)?), None => "return".into() },
            Expr::Break(b) if b.expr.is_none() && b.label.is_none() => "break".into(),
            Expr::Continue(b) if b.label.is_none() => "continue".into(),
            Expr::Struct(s) => {
                let mut v = vec![];
                for f in &s.fields { v.push(if f.colon_token.is_some() { format!("{}: {}", text(&f.member), self.expr(&f.expr)?) } else { text(&f.member) }); }
                if let Some(r) = &s.rest { v.push(format!("..{}", self.expr(r)?)); }
                format!("{} {{ {} }}", self.path(&s.path), v.join(", "))
            }
            Expr::Let(l) => { let x = self.expr(&l.expr)?; format!("let {} = {}", self.pat(&l.pat)?, x) }
            Expr::If(i) => {
                let c = self.expr(&i.cond)?;
                let t = self.block(&i.then_branch)?;
                match &i.else_branch { Some((_, e)) => { let e = self.expr(e)?; format!("if {} {} else {}", c, t, e) } None => format!("if {} {}", c, t) }
            }
            Expr::Match(m) => self.match_(m)?,
            Expr::While(w) => self.while_(w)?,
            Expr::ForLoop(f) => self.for_(f)?,
            Expr::Loop(l) => {
                let k = self.loops; self.loops += 1;
                let s = self.spec.loops.get(&k).cloned().unwrap_or_default();
                let b = self.stmts(&l.body.stmts, false)?;
                format!("loop\n{}{{\n{}{}{}}}\n{}", clauses(&s, &s.inv, None), s.start, b, s.end, s.after)
            }
            Expr::Macro(m) => self.mac(&m.mac)?,
            Expr::Call(c) => self.call(c)?,
            Expr::MethodCall(m) => self.method(m, e)?,
            Expr::Closure(_) => return Err(format!("closure in an unsupported position (line {})", e.span().start().line)),
            o => return Err(format!("unsupported expression (line {}): {}", o.span().start().line, text(o))),
        })
    }

    fn match_(&mut self, m: &ExprMatch) -> R<String> {
        let arms: Vec<&Arm> = m.arms.iter().filter(|a| enabled(&a.attrs)).collect();
        let s = self.expr(&m.expr)?;
        let is_str = |p: &Pat| matches!(p, Pat::Lit(ExprLit { lit: Lit::Str(_), .. }));
        let any_str = |p: &Pat| match p { Pat::Or(o) => o.cases.iter().any(is_str), p => is_str(p) };
        if arms.iter().any(|a| any_str(&a.pat)) {
            // A match on strings becomes a chain of comparisons.
            let v = self.fresh("m");
            let mut o = format!("{{ let {} = {};\n", v, s);
            let mut closed = false;
            for (k, a) in arms.iter().enumerate() {
                let line = self.mark(a.span());
                let body = self.expr(&a.body)?;
                let (cond, bind) = match &a.pat {
                    p if any_str(p) => {
                        let ps: Vec<&Pat> = match p { Pat::Or(o) => o.cases.iter().collect(), p => vec![p] };
                        let mut cs = vec![];
                        for p in ps { if !is_str(p) { return Err("mixed string pattern".into()); } let l = text(p); self.lits.insert(l.clone()); cs.push(format!("vx_str_eq({}, {})", v, l)); }
                        let mut c = cs.join(" || ");
                        if let Some((_, g)) = &a.guard { let g = self.expr(g)?; c = format!("({}) && ({})", c, g); }
                        (Some(c), String::new())
                    }
                    Pat::Wild(_) => (match &a.guard { Some((_, g)) => Some(self.expr(g)?), None => None }, String::new()),
                    Pat::Ident(i) => {
                        let b = format!("let {} = {};\n", i.ident, v);
                        (match &a.guard { Some((_, g)) => { let g = self.expr(g)?; Some(format!("{{ {} {} }}", b, g)) } None => None }, b)
                    }
                    p => return Err(format!("pattern {}", text(p))),
                };
                let else_ = if k == 0 { "" } else { " else " };
                match cond { Some(c) => o.push_str(&format!("{}if {} {{ {}{}{} }}", else_, c, line, bind, body)), None => { o.push_str(&format!("{}{{ {}{}{} }}", else_, line, bind, body)); closed = true; break; } }
            }
            if !closed { return Err("string match without a final arm".into()); }
            return Ok(o + " }");
        }
        let mut o = format!("match {} {{\n", s);
        for a in arms {
            let line = self.mark(a.span());
            let p = self.pat(&a.pat)?;
            let g = match &a.guard { Some((_, g)) => format!(" if {}", self.expr(g)?), None => String::new() };
            let b = self.expr(&a.body)?;
            o.push_str(&format!("{}{}{} => {{ {} }},\n", line, p, g, b));
        }
        Ok(o + "}")
    }

    fn while_(&mut self, w: &ExprWhile) -> R<String> {
        let k = self.loops; self.loops += 1;
        let s = self.spec.loops.get(&k).cloned().unwrap_or_default();
        match &*w.cond {
            Expr::Let(l) => {
                let x = self.expr(&l.expr)?;
                let p = self.pat(&l.pat)?;
                let b = self.stmts(&w.body.stmts, false)?;
                Ok(format!("loop\n{}{{\nmatch {} {{ {} => {{\n{}{}{}}},\n_ => {{ break; }} }}\n}}\n{}", clauses(&s, &s.inv, None), x, p, s.start, b, s.end, s.after))
            }
            c => {
                let c = self.expr(c)?;
                let b = self.stmts(&w.body.stmts, false)?;
                Ok(format!("while {}\n{}{{\n{}{}{}}}\n{}", c, clauses(&s, &s.inv, None), s.start, b, s.end, s.after))
            }
        }
    }

    /// The iterator denoted by an expression, if it is one.
    fn iter(&mut self, e: &Expr, srcs: &mut Vec<Src>, pre: &mut String, k: usize) -> R<Option<It>> {
        match e {
            Expr::Paren(p) => self.iter(&p.expr, srcs, pre, k),
            Expr::Range(r) => {
                let (lo, hi) = match (&r.start, &r.end) { (Some(a), Some(b)) => (self.expr(a)?, self.expr(b)?), _ => return Err("open range".into()) };
                let n = srcs.len();
                let (a, b) = (format!("vlo{}_{}", k, n), format!("vn{}_{}", k, n));
                let incl = matches!(r.limits, RangeLimits::Closed(_));
                if incl { return Err("inclusive range".into()); }
                pre.push_str(&format!("let {} = {};\nlet {} = vx_range_len({}, {});\n", a, lo, b, a, hi));
                srcs.push(Src { place: a.clone(), len: b });
                Ok(Some(It::Range { lo: a, len: n }))
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match &name[..] {
                    "iter" | "iter_mut" | "drain" if name != "drain" => {
                        if self.cfg.keep.contains(&name) { return Ok(None); }
                        let mode = if name == "iter" { '&' } else { 'm' };
                        Ok(Some(self.source(&m.receiver, mode, srcs, pre, k)?))
                    }
                    "chunks_mut" | "chunks_exact_mut" if name == "chunks_mut" => {
                        let x = self.expr(&m.receiver)?;
                        let w = self.expr(&m.args[0])?;
                        let n = srcs.len();
                        let (s, c, z) = (format!("vs{}_{}", k, n), format!("vn{}_{}", k, n), format!("vw{}_{}", k, n));
                        pre.push_str(&format!("let {} = {};\nlet {} = {};\nlet {} = vx_chunk_count({}.len(), {});\n", s, x, z, w, c, s, z));
                        srcs.push(Src { place: format!("&mut *{}, {}", s, z), len: c });
                        Ok(Some(It::Seq { src: n, mode: 'c' }))
                    }
                    "zip" => {
                        let a = match self.iter(&m.receiver, srcs, pre, k)? { Some(a) => a, None => return Ok(None) };
                        let b = self.into_iter(&m.args[0], srcs, pre, k)?;
                        Ok(Some(It::Zip(Box::new(a), Box::new(b))))
                    }
                    n if STAGES.contains(&n) => {
                        let a = match self.iter(&m.receiver, srcs, pre, k)? { Some(a) => a, None => return if n == "into_iter" { Ok(Some(self.into_iter(&m.receiver, srcs, pre, k)?)) } else { Ok(None) } };
                        Ok(Some(match n {
                            "map" => It::Map(Box::new(a), m.args[0].clone()),
                            "filter" => It::Filter(Box::new(a), m.args[0].clone()),
                            "cloned" | "copied" => It::Cloned(Box::new(a)),
                            "enumerate" => It::Enumerate(Box::new(a)),
                            _ => a,
                        }))
                    }
                    n if self.cfg.eager.contains(n) => {
                        let x = self.expr(e)?;
                        Ok(Some(self.bound(x, 'v', srcs, pre, k)))
                    }
                    _ => Ok(None),
                }
            }
            _ => Ok(None),
        }
    }

    fn bound(&mut self, x: String, mode: char, srcs: &mut Vec<Src>, pre: &mut String, k: usize) -> It {
        let n = srcs.len();
        let v = format!("vs{}_{}", k, n);
        pre.push_str(&format!("let {} = {};\n", v, x));
        srcs.push(Src { place: v.clone(), len: format!("{}.len()", v) });
        It::Seq { src: n, mode }
    }

    fn source(&mut self, recv: &Expr, mode: char, srcs: &mut Vec<Src>, pre: &mut String, k: usize) -> R<It> {
        let x = self.expr(recv)?;
        if mode == 'm' {
            let n = srcs.len();
            if !matches!(recv, Expr::Path(_) | Expr::Field(_)) {
                let v = format!("vs{}_{}", k, n);
                pre.push_str(&format!("let {} = {}{};\n", v, if let Expr::Index(_) = recv { "&mut " } else { "" }, x));
                srcs.push(Src { place: v.clone(), len: format!("{}.len()", v) });
            } else {
                srcs.push(Src { place: x.clone(), len: format!("{}.len()", x) });
            }
            return Ok(It::Seq { src: n, mode });
        }
        let x = match recv { Expr::Path(_) => x, Expr::Field(_) | Expr::Index(_) | Expr::Lit(_) => format!("&{}", x), _ => x };
        if let Expr::Path(_) = recv {
            let n = srcs.len();
            srcs.push(Src { place: x.clone(), len: format!("{}.len()", x) });
            return Ok(It::Seq { src: n, mode });
        }
        Ok(self.bound(x, mode, srcs, pre, k))
    }

    fn into_iter(&mut self, e: &Expr, srcs: &mut Vec<Src>, pre: &mut String, k: usize) -> R<It> {
        if let Some(i) = self.iter(e, srcs, pre, k)? { return Ok(i); }
        match e {
            Expr::Paren(p) => self.into_iter(&p.expr, srcs, pre, k),
            Expr::Reference(r) => self.source(&r.expr, if r.mutability.is_some() { 'm' } else { '&' }, srcs, pre, k),
            Expr::MethodCall(m) if m.method == "as_mut" => { let n = srcs.len(); let x = self.expr(e)?; let v = format!("vs{}_{}", k, n); pre.push_str(&format!("let {} = {};\n", v, x)); srcs.push(Src { place: v.clone(), len: format!("{}.len()", v) }); Ok(It::Seq { src: n, mode: 'm' }) }
            Expr::MethodCall(m) if m.method == "as_ref" => { let x = self.expr(e)?; Ok(self.bound(x, '&', srcs, pre, k)) }
            e => { let x = self.expr(e)?; Ok(self.bound(x, 'o', srcs, pre, k)) }
        }
    }

    fn elem(&mut self, it: &It, srcs: &[Src], j: &str, pre: &mut String) -> R<El> {
        Ok(match it {
            It::Seq { src, mode } => {
                if *mode == 'c' { return Ok(El::Val(format!("vx_chunk_mut({}, {})", srcs[*src].place, j))); }
                let p = format!("{}[{}]", srcs[*src].place, j);
                match mode { '&' => El::Ref(p), 'm' => El::Mut(p), 'v' => El::Val(p), _ => { self.notes.insert("elements of an owned sequence are cloned by vx_take".into()); El::Val(format!("vx_take(&{}, {})", srcs[*src].place, j)) } }
            }
            It::Range { lo, .. } => El::Val(format!("vx_range_at({}, {})", lo, j)),
            It::Zip(a, b) => { let a = self.elem(a, srcs, j, pre)?; let b = self.elem(b, srcs, j, pre)?; El::Tuple(vec![a, b]) }
            It::Enumerate(a) => { let a = self.elem(a, srcs, j, pre)?; El::Tuple(vec![El::Val(j.to_string()), a]) }
            It::Cloned(a) => match self.elem(a, srcs, j, pre)? { El::Ref(p) => El::Val(if self.spec.hint("clone").is_some() { format!("{}.clone()", p) } else { p }), El::Val(s) => El::Val(format!("(*{})", s)), _ => return Err("cloned".into()) },
            It::Map(a, f) => {
                let a = self.elem(a, srcs, j, pre)?;
                let v = self.fresh("e");
                let b = self.apply(f, a)?;
                pre.push_str(&format!("let {} = {};\n", v, b));
                El::Val(v)
            }
            It::Filter(a, f) => {
                let a = self.elem(a, srcs, j, pre)?;
                let r = match &a { El::Val(s) => El::Ref(s.clone()), o => return Err(format!("filter of {:?}", o)) };
                let c = self.apply(f, r)?;
                pre.push_str(&format!("if !{} {{ continue; }}\n", c));
                a
            }
        })
    }

    /// `f` applied to the given element: closures are inlined, function paths called.
    fn apply(&mut self, f: &Expr, a: El) -> R<String> {
        match f {
            Expr::Closure(c) => {
                if c.inputs.len() != 1 { return Err("closure arity".into()); }
                if jumps(&c.body) { return Err("closure with a jump".into()); }
                let mut pre = String::new();
                self.bind(&c.inputs[0], a, &mut pre)?;
                let b = self.expr(&c.body)?;
                Ok(format!("{{\n{}{}{} }}", pre, self.mark(c.body.span()), b))
            }
            Expr::Path(_) => Ok(format!("{}({})", self.expr(f)?, a.show())),
            Expr::Reference(_) | Expr::Paren(_) => Err("function value".into()),
            _ => Err("function value".into()),
        }
    }

    fn bind(&mut self, p: &Pat, e: El, pre: &mut String) -> R<()> {
        match (p, e) {
            (Pat::Wild(_), _) => (),
            (Pat::Paren(p), e) => self.bind(&p.pat, e, pre)?,
            (Pat::Type(t), e) => { let e = e.show(); pre.push_str(&format!("let {}: {} = {};\n", self.pat(&t.pat)?, self.ty(&t.ty), e)); }
            (Pat::Ident(i), e) => pre.push_str(&format!("let {}{} = {};\n", if i.mutability.is_some() { "mut " } else { "" }, i.ident, e.show())),
            (Pat::Reference(r), e) => self.bind(&r.pat, e.deref(), pre)?,
            (Pat::Tuple(t), El::Tuple(v)) => { if t.elems.len() != v.len() { return Err("tuple pattern".into()); } for (p, e) in t.elems.iter().zip(v) { self.bind(p, e, pre)?; } }
            (Pat::Tuple(t), El::Val(s)) => { let v = self.fresh("t"); pre.push_str(&format!("let {} = {};\n", v, s)); for (k, p) in t.elems.iter().enumerate() { self.bind(p, El::Val(format!("{}.{}", v, k)), pre)?; } }
            (Pat::Tuple(t), El::Ref(s)) => { for (k, p) in t.elems.iter().enumerate() { self.bind(p, El::Ref(format!("{}.{}", s, k)), pre)?; } }
            (p, e) => { let s = e.show(); pre.push_str(&format!("let {} = {};\n", self.pat(p)?, s)); }
        }
        Ok(())
    }

    fn subst(&self, s: &str, k: usize, srcs: &[Src]) -> String {
        let mut o = s.replace("$i", &format!("vi{}", k)).replace("$acc", &format!("va{}", k)).replace("$j", &format!("vj{}", k));
        for (n, s) in srcs.iter().enumerate().rev() { o = o.replace(&format!("$s{}", n), &s.place).replace(&format!("$n{}", n), &s.len); }
        o
    }

    /// An index loop over an iterator.  `body` gets the element and returns the statements.
    fn index_loop(&mut self, k: usize, it: It, srcs: Vec<Src>, pre: String, acc: Option<(String, String)>, stop: Option<&str>, body: &mut dyn FnMut(&mut Self, El) -> R<String>, result: &str) -> R<String> {
        let s = self.spec.loops.get(&k).cloned().unwrap_or_default();
        let (i, j, a) = (format!("vi{}", k), format!("vj{}", k), format!("va{}", k));
        let mut used: Vec<usize> = vec![];
        fn walk(it: &It, u: &mut Vec<usize>) { match it { It::Seq { src, .. } => u.push(*src), It::Range { len, .. } => u.push(*len), It::Zip(a, b) => { walk(a, u); walk(b, u); } It::Map(a, _) | It::Filter(a, _) | It::Cloned(a) | It::Enumerate(a) => walk(a, u) } }
        walk(&it, &mut used);
        let mut conds: Vec<String> = used.iter().map(|n| format!("{} < {}", i, srcs[*n].len)).collect();
        if let Some(c) = stop { conds.insert(0, c.replace("$acc", &a)); }
        let mut elem_pre = String::new();
        let el = self.elem(&it, &srcs, &j, &mut elem_pre)?;
        let b = body(self, el)?;
        let mut inv = self.subst(&s.inv, k, &srcs);
        for n in &used { inv = format!("    {} <= {},\n{}", i, srcs[*n].len.replace(".len()", "@.len()"), inv); }
        let dec = if s.dec.trim().is_empty() { format!("    {} - {},\n", srcs[used[0]].len.replace(".len()", "@.len()"), i) } else { self.subst(&s.dec, k, &srcs) };
        let mut o = String::from("{\n");
        o.push_str(&pre);
        o.push_str(&format!("let mut {}: usize = 0;\n", i));
        if let Some((init, ty)) = &acc { o.push_str(&format!("let mut {}{} = {};\n", a, if ty.is_empty() { String::new() } else { format!(": {}", ty) }, init)); }
        let t = LoopSpec { ens: self.subst(&s.ens, k, &srcs), ..Default::default() };
        o.push_str(&format!("while {}\n{}{{\nlet {} = {}; {} = {} + 1;\n{}{}{}{}}}\n{}", conds.join(" && "), clauses(&t, &inv, Some(&dec)), j, i, i, i, self.subst(&s.start, k, &srcs), elem_pre, b, self.subst(&s.end, k, &srcs), self.subst(&s.after, k, &srcs)));
        if !result.is_empty() { o.push_str(&result.replace("$acc", &a)); o.push('\n'); }
        o.push('}');
        Ok(o)
    }

    fn for_(&mut self, f: &ExprForLoop) -> R<String> {
        if f.label.is_some() { return Err("labelled loop".into()); }
        let k = self.loops; self.loops += 1;
        let (mut srcs, mut pre) = (vec![], String::new());
        let it = self.into_iter(&f.expr, &mut srcs, &mut pre, k)?;
        let pat = (*f.pat).clone();
        let stmts = f.body.stmts.clone();
        self.index_loop(k, it, srcs, pre, None, None, &mut |t, el| { let mut o = String::new(); t.bind(&pat, el, &mut o)?; let b = t.stmts(&stmts, false)?; Ok(o + &b) }, "")
    }

    fn turbofish(&self, m: &ExprMethodCall) -> String {
        match &m.turbofish { Some(t) if t.args.len() == 1 => match &t.args[0] { GenericArgument::Type(Type::Infer(_)) => String::new(), GenericArgument::Type(t) => { let t = self.ty(t); if t.contains('_') && t.contains("<_>") { String::new() } else { t } } _ => String::new() }, _ => String::new() }
    }

    fn sink(&mut self, m: &ExprMethodCall) -> R<Option<String>> {
        let name = m.method.to_string();
        // Parse the receiver speculatively: counters are restored when it is not an iterator.
        let save = (self.loops, self.tmp, self.lambdas, self.lifted.len());
        let k = self.loops; self.loops += 1;
        let (mut srcs, mut pre) = (vec![], String::new());
        let it = match self.iter(&m.receiver, &mut srcs, &mut pre, k)? { Some(i) => i, None => { self.loops = save.0; self.tmp = save.1; self.lambdas = save.2; self.lifted.truncate(save.3); return Ok(None); } };
        let ty = self.turbofish(m);
        let val = |e: El| match e { El::Ref(p) | El::Mut(p) => p, e => e.show() };
        let arg = m.args.first().cloned();
        let r = match &name[..] {
            "collect" if !self.cfg.sinks.contains_key("collect") => {
                if !ty.is_empty() && !ty.starts_with("Vec<") && self.cfg.types.get("collect").is_none() { return Err(format!("collect into {}", ty)); }
                self.index_loop(k, it, srcs, pre, Some(("Vec::new()".into(), if ty.is_empty() { "Vec<_>".into() } else { ty })), None, &mut |_, e| Ok(format!("va{}.push({});\n", k, e.show())), "$acc")?
            }
            "product" => self.index_loop(k, it, srcs, pre, Some(("1".into(), ty)), None, &mut |_, e| Ok(format!("va{} = va{} * {};\n", k, k, val(e))), "$acc")?,
            "sum" => self.index_loop(k, it, srcs, pre, Some(("0".into(), ty)), None, &mut |_, e| Ok(format!("va{} = va{} + {};\n", k, k, val(e))), "$acc")?,
            "count" => self.index_loop(k, it, srcs, pre, Some(("0".into(), "usize".into())), None, &mut |_, _| Ok(format!("va{} = va{} + 1;\n", k, k)), "$acc")?,
            "all" | "any" => {
                let f = arg.ok_or("argument")?;
                let all = name == "all";
                self.index_loop(k, it, srcs, pre, Some((if all { "true" } else { "false" }.into(), "bool".into())), Some(if all { "$acc" } else { "!$acc" }), &mut |t, e| { let c = t.apply(&f, e)?; Ok(format!("va{} = {};\n", k, c)) }, "$acc")?
            }
            "for_each" => {
                let f = arg.ok_or("argument")?;
                let r = self.index_loop(k, it, srcs, pre, None, None, &mut |t, e| { let c = t.apply(&f, e)?; Ok(format!("{};\n", c)) }, "")?;
                r
            }
            "find" => {
                let f = arg.ok_or("argument")?;
                self.index_loop(k, it, srcs, pre, Some(("None".into(), String::new())), Some("vx_none(&$acc)"), &mut |t, e| {
                    let v = t.fresh("f");
                    let c = t.apply(&f, El::Ref(v.clone()))?;
                    Ok(format!("let {} = {};\nlet vc = {};\nif vc {{ va{} = Some({}); }}\n", v, e.show(), c, k, v))
                }, "$acc")?
            }
            "fold" => {
                let init = self.expr(&m.args[0])?;
                let c = match &m.args[1] { Expr::Closure(c) if c.inputs.len() == 2 && !jumps(&c.body) => c.clone(), _ => return Err("fold".into()) };
                self.index_loop(k, it, srcs, pre, Some((init, String::new())), None, &mut |t, e| {
                    let mut p = String::new();
                    t.bind(&c.inputs[0], El::Val(format!("va{}", k)), &mut p)?;
                    t.bind(&c.inputs[1], e, &mut p)?;
                    let b = t.expr(&c.body)?;
                    Ok(format!("va{} = {{ {}{} }};\n", k, p, b))
                }, "$acc")?
            }
            o if self.cfg.sinks.contains_key(o) => {
                // A consumer given by a trusted function over the collected elements.
                let f = self.cfg.sinks[o].clone();
                let v = self.index_loop(k, it, srcs, pre, Some(("Vec::new()".into(), "Vec<_>".into())), None, &mut |_, e| Ok(format!("va{}.push({});\n", k, e.show())), "$acc")?;
                format!("{}({})", f, v)
            }
            o => return Err(format!("iterator method {}", o)),
        };
        Ok(Some(if name == "for_each" { r } else { format!("({})", r) }))
    }

    fn is_result(&self, e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                n == "map_err" || n == "ok_or_else" || n == "ok_or" || n == "transpose" || self.cfg.results.contains(&n) || ((n == "map" || n == "and_then") && self.is_result(&m.receiver))
            }
            Expr::Call(c) => match &*c.func { Expr::Path(p) => self.cfg.results.contains(&squash(&text(&p.path))) || self.cfg.results.contains(&p.path.segments.last().unwrap().ident.to_string()), _ => false },
            Expr::Paren(p) => self.is_result(&p.expr),
            _ => false,
        }
    }

    /// An iterator of the elements of a value, as calls of shims.
    fn adapted(&mut self, e: &Expr) -> R<String> {
        match e {
            Expr::MethodCall(m) if m.args.is_empty() && ["iter", "cloned", "copied"].contains(&&m.method.to_string()[..]) => { let r = if m.method == "iter" { self.expr(&m.receiver)? } else { self.adapted(&m.receiver)? }; Ok(format!("{}.vx_{}()", r, m.method)) }
            e => self.expr(e),
        }
    }

    /// A closure (or function path) applied to a bound name, allowing one parameter pattern.
    fn arm(&mut self, f: &Expr, var: &str) -> R<String> { self.apply(f, El::Val(var.to_string())) }

    fn thunk(&mut self, f: &Expr) -> R<String> {
        match f {
            Expr::Closure(c) if c.inputs.is_empty() => { if jumps(&c.body) { return Err("closure with a jump".into()); } self.expr(&c.body) }
            Expr::Path(_) => Ok(format!("{}()", self.expr(f)?)),
            _ => Err("function value".into()),
        }
    }

    fn method(&mut self, m: &ExprMethodCall, whole: &Expr) -> R<String> {
        let name = m.method.to_string();
        if SINKS.contains(&&name[..]) || self.cfg.sinks.contains_key(&name) { if let Some(s) = self.sink(m)? { return Ok(s); } }
        if STAGES.contains(&&name[..]) && name != "map" && name != "filter" && name != "cloned" && name != "into_iter" || name == "iter" || name == "iter_mut" {
            if !self.cfg.keep.contains(&name) && !self.cfg.methods.contains_key(&name) { return Err(format!("iterator escapes (line {})", whole.span().start().line)); }
        }
        // `self.set(key, |writer| body)` and the like.
        if self.cfg.lifts.contains(&name) { if let Some(Expr::Closure(c)) = m.args.last() { return self.lift(m, c); } }
        // write!(s, ..).unwrap()
        if let (Expr::Macro(mc), true) = (&*m.receiver, name == "unwrap" || name == "expect") {
            if mc.mac.path.is_ident("write") { return self.write_mac(&mc.mac); }
        }
        let a0 = m.args.first();
        let closure_arg = matches!(m.args.last(), Some(Expr::Closure(_)));
        match &name[..] {
            "map" | "map_err" | "and_then" | "ok_or_else" | "map_or" | "unwrap_or_else" | "filter" | "map_or_else" | "or_else" if closure_arg || matches!(a0, Some(Expr::Path(_))) || name == "map_or" => {
                // Not an iterator (those are handled by their sinks).
                if name == "map" || name == "filter" {
                    let save = (self.loops, self.tmp, self.lambdas);
                    let (mut s, mut p) = (vec![], String::new());
                    let it = self.iter(&m.receiver, &mut s, &mut p, 99)?;
                    self.loops = save.0; self.tmp = save.1; self.lambdas = save.2;
                    if it.is_some() { return Err(format!("iterator escapes (line {})", whole.span().start().line)); }
                }
                let res = self.is_result(&m.receiver);
                let r = self.expr(&m.receiver)?;
                let v = self.fresh("x");
                return Ok(match &name[..] {
                    "map" if res => { let b = self.arm(a0.unwrap(), &v)?; format!("(match {} {{ Ok({}) => Ok({}), Err(ve) => Err(ve) }})", r, v, b) }
                    "map" => { let b = self.arm(a0.unwrap(), &v)?; format!("(match {} {{ Some({}) => Some({}), None => None }})", r, v, b) }
                    "map_err" => { let b = self.arm(a0.unwrap(), &v)?; format!("(match {} {{ Ok(vo) => Ok(vo), Err({}) => Err({}) }})", r, v, b) }
                    "and_then" if res => { let b = self.arm(a0.unwrap(), &v)?; format!("(match {} {{ Ok({}) => {}, Err(ve) => Err(ve) }})", r, v, b) }
                    "and_then" => { let b = self.arm(a0.unwrap(), &v)?; format!("(match {} {{ Some({}) => {}, None => None }})", r, v, b) }
                    "ok_or_else" => { let b = self.thunk(a0.unwrap())?; format!("(match {} {{ Some({}) => Ok({}), None => Err({}) }})", r, v, v, b) }
                    "map_or" => { let d = self.expr(a0.unwrap())?; let b = self.arm(&m.args[1], &v)?; if res { format!("(match {} {{ Ok({}) => {}, Err(_) => {} }})", r, v, b, d) } else { format!("(match {} {{ Some({}) => {}, None => {} }})", r, v, b, d) } }
                    "unwrap_or_else" if res => { let b = self.arm(a0.unwrap(), "ve")?; format!("(match {} {{ Ok({}) => {}, Err(ve) => {} }})", r, v, v, b) }
                    "unwrap_or_else" => { let b = self.thunk(a0.unwrap())?; format!("(match {} {{ Some({}) => {}, None => {} }})", r, v, v, b) }
                    "filter" => { let b = self.apply(a0.unwrap(), El::Ref(v.clone()))?; format!("(match {} {{ Some({}) => if {} {{ Some({}) }} else {{ None }}, None => None }})", r, v, b, v) }
                    o => return Err(format!("combinator {}", o)),
                });
            }
            _ => (),
        }
        if name == "retain" && closure_arg && !self.cfg.methods.contains_key(&name) {
            let k = self.loops; self.loops += 1;
            let (mut srcs, mut pre) = (vec![], String::new());
            if !matches!(&*m.receiver, Expr::Path(_) | Expr::Field(_)) { return Err("retain of a place".into()); }
            let r = self.expr(&m.receiver)?;
            srcs.push(Src { place: r.clone(), len: format!("{}.len()", r) });
            let _ = &mut pre;
            let f = a0.unwrap().clone();
            return self.index_loop(k, It::Seq { src: 0, mode: '&' }, srcs, pre, Some(("Vec::new()".into(), String::new())), None, &mut |t, e| { let b = t.apply(&f, e)?; Ok(format!("if {} {{ va{}.push(vx_take(&{}, vj{})); }}\n", b, k, r, k)) }, &format!("{} = $acc;", r));
        }
        if name == "drain" {
            if let Some(Expr::Range(g)) = a0 {
                let r = self.expr(&m.receiver)?;
                return match (&g.start, &g.end, &g.limits) {
                    (None, None, _) => Ok(format!("{}.vx_drain_all()", r)),
                    (None, Some(n), RangeLimits::HalfOpen(_)) => { let n = self.expr(n)?; Ok(format!("{}.vx_drain_to({})", r, n)) }
                    _ => Err("drain of a range".into()),
                };
            }
        }
        // Anything else is a call; a closure left over is unsupported.
        if let ("extend", Some(f)) = (&name[..], self.cfg.methods.get("extend").cloned()) {
            let r = self.expr(&m.receiver)?;
            let a = self.adapted(a0.ok_or("argument")?)?;
            return Ok(format!("{}.{}({})", r, f, a));
        }
        if name == "extend" {
            let save = self.loops;
            let k = self.loops; self.loops += 1;
            let (mut srcs, mut pre) = (vec![], String::new());
            if let Some(it) = self.iter(a0.ok_or("argument")?, &mut srcs, &mut pre, k)? {
                let r = self.expr(&m.receiver)?;
                return self.index_loop(k, it, srcs, pre, None, None, &mut |_, e| Ok(format!("{}.push({});\n", r, e.show())), "");
            }
            self.loops = save;
        }
        let r = self.expr(&m.receiver)?;
        let mut args = m.args.iter().map(|a| self.expr(a)).collect::<R<Vec<_>>>()?;
        if self.cfg.world.contains(&name) { args.push("vx_w".into()); }
        if name == "len" && self.spec.hint("strlen").is_some() { return Ok(format!("vx_str_len({})", r)); }
        let n = self.cfg.methods.get(&name).cloned().unwrap_or(name);
        let tf = match &m.turbofish { Some(t) => format!("::<{}>", t.args.iter().map(|g| match g { GenericArgument::Type(t) => self.ty(t), o => text(o) }).collect::<Vec<_>>().join(", ")), None => String::new() };
        let r = if matches!(&*m.receiver, Expr::Unary(_) | Expr::Cast(_) | Expr::Reference(_) | Expr::Binary(_)) { format!("({})", r) } else { r };
        if let Some(f) = n.strip_prefix("fn:") {
            let mut v = vec![r]; v.extend(args);
            return Ok(format!("{}{}({})", f, tf, v.join(", ")));
        }
        Ok(format!("{}.{}{}({})", r, n, tf, args.join(", ")))
    }

    /// `recv.f(args, |p| body)` where the contract gives the lifted function of the closure.
    fn lift(&mut self, m: &ExprMethodCall, c: &ExprClosure) -> R<String> {
        let k = self.lambdas; self.lambdas += 1;
        let (sig, spec, by_ref) = self.spec.lambdas.get(&k).cloned().ok_or_else(|| format!("closure {} has no contract", k))?;
        if c.inputs.len() != 1 { return Err("closure arity".into()); }
        let fname = format!("{}_closure{}", self.name, k);
        let ps = params(&sig)?;
        let arg = match &c.inputs[0] { Pat::Ident(i) => i.ident.to_string(), Pat::Type(t) => match &*t.pat { Pat::Ident(i) => i.ident.to_string(), _ => return Err("closure pattern".into()) }, _ => return Err("closure pattern".into()) };
        self.borrowed.insert(arg.clone());
        let body = self.expr(&c.body);
        self.borrowed.remove(&arg);
        let body = body?;
        let first = ps.first().ok_or("closure contract")?.clone();
        let bind = if first == arg { String::new() } else { format!("let {} = {};\n", arg, first) };
        let lits: String = if self.spec.hint("strings").is_some() { self.lits.iter().map(|l| format!("    proof {{ reveal_strlit({}); }}\n", l)).collect() } else { String::new() };
        self.lifted.push(format!("#[verifier::loop_isolation(false)]\n{}\n{}{{\n{}{}{}{}\n}}\n", sig.replace("$name", &fname), spec, lits, bind, self.mark(c.body.span()), body));
        let r = self.expr(&m.receiver)?;
        let mut args = vec![];
        for a in m.args.iter().take(m.args.len() - 1) { args.push(self.expr(a)?); }
        let name = m.method.to_string();
        let world = if self.cfg.world.contains(&name) { "vx_w" } else { "" };
        if !world.is_empty() { args.push(world.into()); }
        let caps: Vec<String> = ps[1..].to_vec();
        let w = self.fresh("w");
        let q = self.fresh("r");
        let fname = if self.spec.id().contains("::") { format!("Self::{}", fname) } else { fname };
        Ok(format!("(match {}.{}_open({}) {{ Ok({}) => {{\nlet mut {} = {};\nlet {} = {}(&mut {}{});\n{}.{}_close({}, {}{}) }}, Err(ve) => Err(ve) }})", r, name, args.join(", "), w, w, w, q, fname, w, caps.iter().map(|c| if by_ref.split_whitespace().any(|b| b == c) { format!(", &{}", c) } else { format!(", {}", c) }).collect::<String>(), r, name, w, q, if world.is_empty() { String::new() } else { format!(", {}", world) }))
    }

    /// `let f = |p, q| body;` becomes a function by the contract; what the contract adds to the closure's parameters is captured and passed by value at each call.
    fn bound_closure(&mut self, var: &str, c: &ExprClosure) -> R<()> {
        let k = self.lambdas; self.lambdas += 1;
        let (sig, spec, _) = self.spec.lambdas.get(&k).cloned().ok_or("closure bound to a variable")?;
        if self.bound_fns.contains_key(var) { return Err("a closure's name is used again".into()); }
        if c.capture.is_some() { return Err("moving closure".into()); }
        let fname = format!("{}_closure{}", self.name, k);
        let ps = params(&sig)?;
        if ps.len() < c.inputs.len() { return Err("closure arity".into()); }
        let mut bind = String::new();
        for (p, i) in ps.iter().zip(&c.inputs) {
            let i = match i { Pat::Type(t) => &*t.pat, i => i };
            match i { Pat::Ident(i) if i.mutability.is_none() => if i.ident != p { bind.push_str(&format!("let {} = {};\n", i.ident, p)); }, _ => return Err("closure pattern".into()) }
        }
        let body = self.expr(&c.body)?;
        // Proof text at the start of the function comes after a line `start` of the contract.
        let (spec, start) = spec.split_once("    start\n").unwrap_or((&spec, ""));
        self.lifted.push(format!("#[verifier::loop_isolation(false)]\n{}\n{}{{\n{}{}{}{}\n}}\n", sig.replace("$name", &fname), spec, start, bind, self.mark(c.body.span()), body));
        let f = if self.spec.id().contains("::") { format!("Self::{}", fname) } else { fname };
        self.bound_fns.insert(var.into(), (f, ps[c.inputs.len()..].to_vec()));
        Ok(())
    }

    fn call(&mut self, c: &ExprCall) -> R<String> {
        if let Expr::Path(p) = &*c.func {
            if let Some((f, caps)) = p.path.get_ident().and_then(|i| self.bound_fns.get(&i.to_string())).cloned() {
                let mut args = c.args.iter().map(|a| self.expr(a)).collect::<R<Vec<_>>>()?;
                args.extend(caps);
                return Ok(format!("{}({})", f, args.join(", ")));
            }
        }
        let f = match &*c.func {
            Expr::Path(p) if p.qself.is_some() => {
                let s = squash(&text(p));
                let last = p.path.segments.last().unwrap().ident.to_string();
                // <X as Trait<..>>::name
                match self.cfg.paths.get(&s).or_else(|| self.cfg.paths.get(&format!("<..>::{}", last))) { Some(r) => r.clone(), None => text(p) }
            }
            f => self.expr(f)?,
        };
        let mut args = c.args.iter().map(|a| self.expr(a)).collect::<R<Vec<_>>>()?;
        // Functions of the outside world get its state.
        let last = f.rsplit(|c: char| c == ':' || c == '.').next().unwrap_or("").to_string();
        if self.cfg.world.contains(&last) { args.push("vx_w".into()); }
        // A method written as a call: `Trait::f(self, ..)`.
        if let Some(n) = f.strip_prefix('.') { return Ok(format!("{}.{}({})", args[0], n, args[1..].join(", "))); }
        Ok(format!("{}({})", f, args.join(", ")))
    }

    fn args(&self, m: &Macro) -> R<Vec<Expr>> {
        m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).map(|p| p.into_iter().collect()).map_err(|e| format!("macro arguments: {}", e))
    }

    fn mac(&mut self, m: &Macro) -> R<String> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        Ok(match &name[..] {
            "assert" | "debug_assert" => { let a = self.args(m)?; format!("vx_assert({})", self.expr(&a[0])?) }
            "assert_eq" | "debug_assert_eq" => { let a = self.args(m)?; format!("vx_assert({} == {})", self.expr(&a[0])?, self.expr(&a[1])?) }
            "panic" | "unreachable" | "todo" | "unimplemented" => "vx_panic()".into(),
            "vec" | "smallvec" => {
                if m.tokens.is_empty() { return Ok("Vec::new()".into()); }
                if let Ok(a) = self.args(m) { let v = a.iter().map(|e| self.expr(e)).collect::<R<Vec<_>>>()?; return Ok(format!("vec![{}]", v.join(", "))); }
                let r: ExprRepeat = syn::parse_str(&format!("[{}]", m.tokens)).map_err(|e| format!("vec!: {}", e))?;
                format!("vx_repeat({}, {})", self.expr(&r.expr)?, self.expr(&r.len)?)
            }
            "format" => {
                let a = self.args(m)?;
                let v = self.fresh("s");
                let p = self.pieces(&a, &format!("&mut {}", v))?;
                format!("({{ let mut {} = vx_new_string();\n{}{} }})", v, p, v)
            }
            "write" if self.spec.hint("formatter").is_some() => {
                let a = self.args(m)?;
                let t = self.expr(&a[0])?;
                format!("({{ {}vx_formatted() }})", self.pieces(&a[1..], &format!("&mut *{}", t))?)
            }
            "write" | "writeln" => return Err("write! whose result is used".into()),
            "matches" => {
                struct M { e: Expr, p: Pat }
                impl parse::Parse for M { fn parse(i: parse::ParseStream) -> Result<M> { let e = i.parse()?; i.parse::<Token![,]>()?; let p = Pat::parse_multi(i)?; i.parse::<Option<Token![,]>>()?; Ok(M { e, p }) } }
                let a: M = m.parse_body().map_err(|e| format!("matches!: {}", e))?;
                let e = self.expr(&a.e)?;
                format!("(match {} {{ {} => true, _ => false }})", e, self.pat(&a.p)?)
            }
            "json" if m.tokens.to_string().split_whitespace().collect::<String>() == "{}" => "Value::Object(JsonObject::new())".into(),
            o if self.macros.contains_key(o) => {
                let ts = crate::rules::expand(&self.macros.clone(), o, m.tokens.clone())?;
                let e: Expr = match parse2::<Expr>(ts.clone()) { Ok(e) => e, Err(_) => { let b: Block = parse2(quote::quote!({ #ts })).map_err(|e| format!("macro expansion: {}", e))?; return self.block(&b); } };
                self.expr(&e)?
            }
            o => return Err(format!("macro {}!", o)),
        })
    }

    fn write_mac(&mut self, m: &Macro) -> R<String> {
        let a = self.args(m)?;
        let t = self.expr(&a[0])?;
        let p = self.pieces(&a[1..], &format!("&mut {}", t))?;
        Ok(format!("({{ {} }})", p))
    }

    /// The pieces of a format string as pushes onto `target`.
    fn pieces(&mut self, a: &[Expr], target: &str) -> R<String> {
        let f = match a.first() { Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => s.value(), _ => return Err("format string".into()) };
        let mut o = String::new();
        let mut lit = String::new();
        let mut next = 1;
        let mut it = f.chars().peekable();
        let (push, show) = if self.spec.hint("cursor").is_some() { ("vx_cursor_push", "vx_cursor_display") } else { ("vx_push_str", "vx_display") };
        let flush = |lit: &mut String, o: &mut String, t: &mut Self| if !lit.is_empty() { let l = format!("{:?}", lit); t.lits.insert(l.clone()); o.push_str(&format!("{}({}, {});\n", push, target, l)); lit.clear(); };
        while let Some(c) = it.next() {
            match c {
                '{' if it.peek() == Some(&'{') => { it.next(); lit.push('{'); }
                '}' if it.peek() == Some(&'}') => { it.next(); lit.push('}'); }
                '{' => {
                    let mut n = String::new();
                    for d in it.by_ref() { if d == '}' { break; } n.push(d); }
                    flush(&mut lit, &mut o, self);
                    let x = if n.is_empty() { let e = a.get(next).ok_or("format arguments")?; next += 1; self.expr(e)? } else if n.chars().all(|c| c.is_alphanumeric() || c == '_') && !n.chars().next().unwrap().is_numeric() { n } else { return Err(format!("format specification {{{}}}", n)) };
                    o.push_str(&format!("{}({}, &({}));\n", show, target, x));
                }
                c => lit.push(c),
            }
        }
        flush(&mut lit, &mut o, self);
        if next != a.len() { return Err("format arguments".into()); }
        Ok(o)
    }
}

fn stmt_key(e: &Expr) -> Option<String> {
    match e {
        Expr::MethodCall(m) => Some(format!(".{}", m.method)),
        Expr::Try(t) => stmt_key(&t.expr),
        Expr::Call(c) => Some(format!("{}()", match &*c.func { Expr::Path(p) => p.path.segments.last()?.ident.to_string(), _ => return None })),
        Expr::Return(_) => Some("return".into()),
        Expr::If(_) => Some("if".into()),
        Expr::Match(_) => Some("match".into()),
        Expr::Assign(a) => Some(format!("{} =", squash(&text(&a.left)))),
        _ => None,
    }
}

fn clauses(s: &LoopSpec, inv: &str, dec: Option<&str>) -> String {
    let mut o = String::new();
    if !inv.trim().is_empty() { o.push_str(&format!("    invariant\n{}", inv)); }
    if !s.ens.trim().is_empty() { o.push_str(&format!("    ensures\n{}", s.ens)); }
    let d = dec.unwrap_or(&s.dec);
    if !d.trim().is_empty() { o.push_str(&format!("    decreases\n{}", d)); }
    o
}
