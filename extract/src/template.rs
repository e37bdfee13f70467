//! Template files: Verus text with blocks that name items of the repository.
use std::collections::HashMap;

#[derive(Default, Clone)]
pub struct LoopSpec { pub inv: String, pub start: String, pub end: String, pub after: String, pub dec: String, pub ens: String }

#[derive(Default, Clone)]
pub struct Spec {
    pub file: String,
    pub locator: String,
    pub name: String,
    pub props: Vec<String>,
    pub sig: String,
    pub attrs: String,
    pub spec: String,
    pub start: String,
    pub end: String,
    pub loops: HashMap<usize, LoopSpec>,
    pub after_let: Vec<(String, String)>,
    pub before: Vec<(String, String)>,
    pub lambdas: HashMap<usize, (String, String, String)>,
    pub hints: Vec<String>,
    /// Verified in another unit: here only its contract is used.
    pub given: bool,
}
impl Spec {
    pub fn id(&self) -> String { if self.name.is_empty() { self.locator.clone() } else { self.name.clone() } }
    pub fn hint(&self, k: &str) -> Option<&str> { self.hints.iter().find_map(|h| h.strip_prefix(k).and_then(|r| if r.is_empty() { Some("") } else { r.strip_prefix(' ') })) }
}

pub enum Item { Text(String), Config(String, String), Def { kind: String, file: String, name: String, opts: String }, Fn(Spec) }

pub fn parse(path: &str) -> Vec<Item> { parse_once(path, &mut std::collections::HashSet::new(), false) }

/// Files are included once.
fn parse_once(path: &str, seen: &mut std::collections::HashSet<std::path::PathBuf>, given: bool) -> Vec<Item> {
    if !seen.insert(std::fs::canonicalize(path).unwrap_or_else(|e| panic!("{}: {}", path, e))) { return vec![]; }
    let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
    let mut items = vec![];
    let mut lines = text.lines();
    let mut plain = String::new();
    while let Some(l) = lines.next() {
        if !l.starts_with("@@") { plain.push_str(l); plain.push('\n'); continue; }
        if !plain.is_empty() { items.push(Item::Text(std::mem::take(&mut plain))); }
        let mut w = l[2..].split_whitespace();
        let kind = w.next().unwrap();
        match kind {
            "include" => items.extend(parse_once(dir.join(w.next().unwrap()).to_str().unwrap(), seen, given)),
            "given" => items.extend(parse_once(dir.join(w.next().unwrap()).to_str().unwrap(), seen, true)),
            "struct" | "enum" | "const" => {
                let file = w.next().unwrap().to_string();
                let name = w.next().unwrap().to_string();
                // So are items.
                if !seen.insert(format!("{}#{}#{}", kind, file, name).into()) { continue; }
                items.push(Item::Def { kind: kind.into(), file, name, opts: w.collect::<Vec<_>>().join(" ") });
            }
            "method" | "path" | "type" | "eager" | "result" | "lambda" | "world" | "keep" | "drops" | "sink" => items.push(Item::Config(kind.into(), w.collect::<Vec<_>>().join(" "))),
            "fn" => {
                let mut s = Spec { file: w.next().unwrap().into(), given, ..Default::default() };
                let rest: Vec<&str> = w.collect();
                let mut loc = vec![];
                let mut it = rest.iter();
                while let Some(x) = it.next() { if *x == "as" { s.name = it.next().unwrap().to_string(); } else if *x == "for" && it.as_slice().first().map_or(false, |n| n.starts_with('C') && n[1..2].chars().all(|c| c.is_ascii_digit())) { s.props = it.next().unwrap().split(',').map(|s| s.into()).collect(); } else { loc.push(*x); } }
                s.locator = loc.join(" ");
                let mut sect: Vec<String> = vec![];
                let mut body = String::new();
                let mut fin = |sect: &[String], body: &mut String, s: &mut Spec| {
                    let b = std::mem::take(body);
                    if sect.is_empty() { return; }
                    let a: Vec<&str> = sect.iter().map(|x| &x[..]).collect();
                    match a[0] {
                        "sig" => s.sig = b.trim().to_string(),
                        "attr" => s.attrs = b.trim().to_string(),
                        "spec" => s.spec = b,
                        "start" => s.start = b,
                        "end" => s.end = b,
                        "after" => s.after_let.push((a[1..].join(" "), b)),
                        "before" => s.before.push((a[1..].join(" "), b)),
                        "hint" => s.hints.extend(b.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty())),
                        "closure" => { let (sig, spec) = b.split_once("\n").unwrap_or((&b, "")); s.lambdas.insert(a[1].parse().unwrap(), (sig.trim().into(), spec.into(), a[2..].join(" "))); }
                        "loop" => {
                            let e = s.loops.entry(a[1].parse().unwrap()).or_default();
                            match a.get(2).copied() { None => e.inv = b, Some("start") => e.start = b, Some("end") => e.end = b, Some("after") => e.after = b, Some("decreases") => e.dec = b, Some("ensures") => e.ens = b, o => panic!("loop {:?}", o) }
                        }
                        o => panic!("unknown section {} in {}", o, s.locator),
                    }
                };
                for l in lines.by_ref() {
                    if l == "@@end" { break; }
                    assert!(!l.starts_with("@@"), "unterminated block {}", s.locator);
                    if !l.is_empty() && !l.starts_with(' ') && !l.starts_with("//") {
                        fin(&sect, &mut body, &mut s);
                        if let Some(r) = l.strip_prefix("sig ") { sect = vec!["sig".into()]; body = r.to_string(); body.push('\n'); }
                        else { sect = l.split_whitespace().map(|x| x.to_string()).collect(); }
                    } else { body.push_str(l); body.push('\n'); }
                }
                fin(&sect, &mut body, &mut s);
                items.push(Item::Fn(s));
            }
            o => panic!("unknown directive @@{}", o),
        }
    }
    if !plain.is_empty() { items.push(Item::Text(plain)); }
    items
}
