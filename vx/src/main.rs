//! Mechanical extraction of /repo/src into one Verus file with the contracts
//! of /verif/contracts spliced in. See DESIGN.md for the list of rewrites.
use proc_macro2::Span;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
mod inline;

// ------------------------------------------------------------- contracts ----
#[derive(Default, Clone, Debug)]
struct LoopC { inv: Vec<(String, String)>, dec: Option<String>, body: String, start: String, done: String, end: String, ens: Vec<String>, before: String, after: String }
#[derive(Default, Clone, Debug)]
struct ClosC { ret: Option<String>, params: Option<String>, req: Vec<String>, ens: Vec<String>, wrap: Option<String>, body: String }
#[derive(Default, Clone, Debug)]
struct FnC {
    props: Vec<String>, p: Option<String>, sp: Option<String>,
    req: Vec<(String, String)>, ens: Vec<(String, String)>, dec: Option<String>,
    entry: String, attr: String, loops: BTreeMap<usize, LoopC>, clos: BTreeMap<usize, ClosC>, combs: BTreeMap<usize, String>,
    before: Vec<(String, String)>, after: Vec<(String, String)>, tail: String, nloops: Option<usize>, nclos: Option<usize>,
    spec: String, casts: bool, bfn: Option<String>,
    /// Textual anchors of closures and combinators (keys from 1000 on).
    anchors: BTreeMap<usize, String>,
}

/// Text without whitespace.
fn norm(s: &str) -> String { s.split_whitespace().collect() }

fn parse_contracts(dir: &Path) -> (BTreeMap<String, FnC>, BTreeMap<String, String>) {
    let mut out = BTreeMap::new();
    let mut modtext: BTreeMap<String, String> = BTreeMap::new();
    let mut files: Vec<_> = std::fs::read_dir(dir).unwrap().filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map_or(false, |e| e == "vc")).collect();
    files.sort();
    for f in files {
        let text = std::fs::read_to_string(&f).unwrap();
        let mut dirs: Vec<(String, String, String)> = vec![]; // name,label,text
        for line in text.lines() {
            if line.starts_with("//") && !line.starts_with("//broadcast ") { continue; }
            if let Some(rest) = line.strip_prefix('@') {
                let (head, body) = rest.split_once(char::is_whitespace).unwrap_or((rest, ""));
                let (name, label) = match head.split_once('[') { Some((n, l)) => (n.to_string(), l.trim_end_matches(']').to_string()), None => (head.to_string(), String::new()) };
                dirs.push((name, label, body.trim().to_string()));
            } else if let Some(last) = dirs.last_mut() {
                if !last.2.is_empty() { last.2.push('\n'); }
                last.2.push_str(line);
            }
        }
        let mut cur: Option<String> = None;
        let mut lp = 0usize; let mut cl = 0usize; let mut cb = 0usize; let mut wrapto = 0;
        for (name, label, body) in dirs {
            let body = body.trim().to_string();
            if name == "mod" { let (m, t) = body.split_once('\n').unwrap_or((&body, "")); modtext.entry(m.trim().to_string()).or_default().push_str(t); continue; }
            if name == "fn" { let k = body.clone(); if out.contains_key(&k) { panic!("duplicate contract {k}"); } out.insert(k.clone(), FnC::default()); cur = Some(k); continue; }
            let c = out.get_mut(cur.as_ref().expect("directive before @fn")).unwrap();
            match name.as_str() {
                "props" => c.props = body.split_whitespace().map(|s| s.to_string()).collect(),
                "p" => c.p = Some(body),
                "sp" => c.sp = Some(body),
                "req" => c.req.push((label, body)),
                "ens" => c.ens.push((label, body)),
                "dec" => c.dec = Some(body),
                "entry" => { c.entry.push_str(&body); c.entry.push('\n'); }
                "tail" => { c.tail.push_str(&body); c.tail.push('\n'); }
                "attr" => { c.attr.push_str(&body); c.attr.push('\n'); }
                "spec" => { c.spec.push_str(&body); c.spec.push('\n'); }
                "before" => { let (a, b) = body.split_once("::>").unwrap(); c.before.push((a.trim().into(), b.trim().into())); }
                "after" => { let (a, b) = body.split_once("::>").unwrap(); c.after.push((a.trim().into(), b.trim().into())); }
                "loop" => { lp = body.parse().unwrap(); c.loops.entry(lp).or_default(); }
                "inv" => c.loops.get_mut(&lp).unwrap().inv.push((label, body)),
                "lens" => c.loops.get_mut(&lp).unwrap().ens.push(body),
                "ldec" => c.loops.get_mut(&lp).unwrap().dec = Some(body),
                "lstart" => c.loops.get_mut(&lp).unwrap().start.push_str(&(body.clone() + "\n")),
                "ldone" => c.loops.get_mut(&lp).unwrap().done.push_str(&(body.clone() + "\n")),
                "lbody" => c.loops.get_mut(&lp).unwrap().body.push_str(&(body + "\n")),
                "lend" => c.loops.get_mut(&lp).unwrap().end.push_str(&(body + "\n")),
                "lbefore" => c.loops.get_mut(&lp).unwrap().before.push_str(&(body + "\n")),
                "lafter" => c.loops.get_mut(&lp).unwrap().after.push_str(&(body + "\n")),
                "closure" => { cl = body.parse().unwrap_or_else(|_| { let k = 1000 + c.anchors.len(); c.anchors.insert(k, norm(&body)); k }); c.clos.entry(cl).or_default(); wrapto = 0; }
                "params" => c.clos.get_mut(&cl).unwrap().params = Some(body),
                "ret" => c.clos.get_mut(&cl).unwrap().ret = Some(body),
                "creq" => c.clos.get_mut(&cl).unwrap().req.push(body),
                "cens" => c.clos.get_mut(&cl).unwrap().ens.push(body),
                "cbody" => c.clos.get_mut(&cl).unwrap().body.push_str(&(body + "\n")),
                "comb" => { cb = body.parse().unwrap_or_else(|_| { let k = 1000 + c.anchors.len(); c.anchors.insert(k, norm(&body)); k }); wrapto = 1; }
                "wrap" => { if wrapto == 0 { c.clos.get_mut(&cl).unwrap().wrap = Some(body) } else { c.combs.insert(cb, body); } }
                "casts" => c.casts = true,
                "bfn" => c.bfn = Some(body),
                "nloops" => c.nloops = Some(body.parse().unwrap()),
                "nclos" => c.nclos = Some(body.parse().unwrap()),
                _ => panic!("unknown directive @{name} in {f:?}"),
            }
        }
    }
    (out, modtext)
}

// ---------------------------------------------------------------- source ----
struct Module { path: Vec<String>, file: PathBuf, src: String, ast: syn::File, line_starts: Vec<usize>, children: Vec<usize> }

fn load(file: &Path, path: Vec<String>, mods: &mut Vec<Module>, over: &HashMap<PathBuf, String>) -> usize {
    let src = if let Some(t) = over.get(file) { t.clone() } else { std::fs::read_to_string(file).unwrap_or_else(|e| panic!("{file:?}: {e}")) };
    let src = normalise(src);
    let ast = syn::parse_file(&src).unwrap_or_else(|e| panic!("{file:?}: {e}"));
    let mut line_starts = vec![0];
    for (i, b) in src.bytes().enumerate() { if b == b'\n' { line_starts.push(i + 1); } }
    let id = mods.len();
    let names: Vec<String> = ast.items.iter().filter_map(|i| match i { syn::Item::Mod(m) if m.content.is_none() && !is_test(&m.attrs) => Some(m.ident.to_string()), _ => None }).collect();
    mods.push(Module { path: path.clone(), file: file.to_path_buf(), src, ast, line_starts, children: vec![] });
    let dir = match file.file_name().unwrap().to_str().unwrap() {
        "lib.rs" | "mod.rs" => file.parent().unwrap().to_path_buf(),
        _ => file.with_extension(""),
    };
    for n in names {
        let a = dir.join(format!("{n}.rs")); let b = dir.join(&n).join("mod.rs");
        let f = if a.exists() { a } else { b };
        let mut p = path.clone(); p.push(n);
        let c = load(&f, p, mods, over);
        mods[id].children.push(c);
    }
    id
}
fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("test") || (a.path().is_ident("cfg") && quote::quote!(#a).to_string().contains("test")))
}
/// Rust to Rust: what the verifier's dialect lacks, written differently.
/// `A | B if g => e` becomes `A if g => e, B if g => e`; `a | b`, `a & b`,
/// `a ^ b`, `a |= b` … of booleans become calls of the shim.
fn normalise(mut src: String) -> String {
    enum Part { Text(&'static str), Until, From }
    #[derive(Default)]
    struct N { edits: Vec<(Span, Vec<(Part, Option<Span>, Option<Span>)>)>, bools: BTreeSet<String> }
    impl N {
        fn is_bool(&self, x: &syn::Expr) -> bool {
            use syn::{BinOp::*, Expr};
            match x {
                Expr::Lit(l) => matches!(l.lit, syn::Lit::Bool(_)),
                Expr::Paren(p) => self.is_bool(&p.expr),
                Expr::Unary(u) => matches!(u.op, syn::UnOp::Not(_)) && self.is_bool(&u.expr),
                Expr::Binary(b) => match b.op {
                    Eq(_) | Ne(_) | Lt(_) | Le(_) | Gt(_) | Ge(_) | And(_) | Or(_) => true,
                    BitAnd(_) | BitOr(_) | BitXor(_) => self.is_bool(&b.left) || self.is_bool(&b.right),
                    _ => false,
                },
                Expr::MethodCall(c) => ["is_some", "is_none", "is_ok", "is_err", "is_empty", "contains", "contains_key", "intersects", "is_some_and", "starts_with", "ends_with", "is_nan"].contains(&c.method.to_string().as_str()),
                Expr::Macro(m) => m.mac.path.is_ident("matches"),
                Expr::Path(p) => p.path.get_ident().is_some_and(|i| self.bools.contains(&i.to_string())),
                _ => false,
            }
        }
    }
    impl<'ast> Visit<'ast> for N {
        fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) { self.bools.clear(); visit::visit_item_fn(self, f); }
        fn visit_impl_item_fn(&mut self, f: &'ast syn::ImplItemFn) { self.bools.clear(); visit::visit_impl_item_fn(self, f); }
        fn visit_pat_type(&mut self, p: &'ast syn::PatType) {
            if let (syn::Pat::Ident(i), syn::Type::Path(t)) = (&*p.pat, &*p.ty) { if t.path.is_ident("bool") { self.bools.insert(i.ident.to_string()); } }
            visit::visit_pat_type(self, p);
        }
        fn visit_local(&mut self, l: &'ast syn::Local) {
            visit::visit_local(self, l);
            if let (syn::Pat::Ident(i), Some(init)) = (&l.pat, &l.init) { let n = i.ident.to_string(); if self.is_bool(&init.expr) { self.bools.insert(n); } else { self.bools.remove(&n); } }
        }
        fn visit_arm(&mut self, a: &'ast syn::Arm) {
            struct O(Option<syn::PatOr>);
            impl<'ast> Visit<'ast> for O { fn visit_pat_or(&mut self, o: &'ast syn::PatOr) { self.0.get_or_insert(o.clone()); } }
            let mut o = O(None); o.visit_pat(&a.pat);
            if let (Some(o), Some((_, g))) = (o.0, &a.guard) {
                let mut v = vec![];
                for c in &o.cases { v.extend([(Part::Until, Some(a.pat.span()), Some(o.span())), (Part::Text(""), Some(c.span()), None), (Part::From, Some(a.pat.span()), Some(o.span())), (Part::Text(" if "), Some(g.span()), None), (Part::Text(" => "), Some(a.body.span()), None), (Part::Text(", "), None, None)]); }
                self.edits.push((a.span(), v));
            }
            visit::visit_arm(self, a);
        }
        fn visit_expr_binary(&mut self, b: &'ast syn::ExprBinary) {
            use syn::BinOp::*;
            let f = match b.op { BitAnd(_) | BitAndAssign(_) => "and", BitOr(_) | BitOrAssign(_) => "or", BitXor(_) | BitXorAssign(_) => "xor", _ => return visit::visit_expr_binary(self, b) };
            if self.is_bool(&b.left) || self.is_bool(&b.right) {
                let op = match f { "and" => "crate::vx::vx_bool_and(", "or" => "crate::vx::vx_bool_or(", _ => "crate::vx::vx_bool_xor(" };
                let mut v = if matches!(b.op, BitAndAssign(_) | BitOrAssign(_) | BitXorAssign(_)) { vec![(Part::Text(""), Some(b.left.span()), None), (Part::Text(" = "), None, None)] } else { vec![] };
                v.extend([(Part::Text(op), Some(b.left.span()), None), (Part::Text(", "), Some(b.right.span()), None), (Part::Text(")"), None, None)]);
                self.edits.push((b.span(), v));
            }
            visit::visit_expr_binary(self, b);
        }
    }
    for _ in 0..1000 {
        let Ok(ast) = syn::parse_file(&src) else { return src };
        let mut n = N::default(); n.visit_file(&ast);
        // the innermost ones are the last ones
        let Some((span, parts)) = n.edits.pop() else { return src };
        let mut line_starts = vec![0];
        for (i, b) in src.bytes().enumerate() { if b == b'\n' { line_starts.push(i + 1); } }
        let m = Module { path: vec![], file: PathBuf::new(), src: src.clone(), ast, line_starts, children: vec![] };
        let (a, b) = m.range(span);
        let t: String = parts.iter().map(|(x, s, o)| match (x, s, o) {
            (Part::Until, Some(s), Some(o)) => m.src[m.range(*s).0..m.range(*o).0].to_string(),
            (Part::From, Some(s), Some(o)) => m.src[m.range(*o).1..m.range(*s).1].to_string(),
            (Part::Text(x), s, _) => format!("{x}{}", s.map_or("", |s| m.text(s))),
            _ => String::new(),
        }).collect();
        // a comma behind the arm is behind the last copy already
        let rest = if t.ends_with(", ") && src[b..].trim_start().starts_with(',') { &src[b + src[b..].find(',').unwrap() + 1..] } else { &src[b..] };
        src = format!("{}{t}{rest}", &src[..a]);
    }
    src
}
impl Module {
    fn off(&self, lc: proc_macro2::LineColumn) -> usize {
        let ls = self.line_starts[lc.line - 1];
        let line = &self.src[ls..];
        // column counts chars
        let mut it = line.char_indices();
        for _ in 0..lc.column { it.next(); }
        ls + it.next().map(|x| x.0).unwrap_or(line.len())
    }
    fn range(&self, s: Span) -> (usize, usize) { (self.off(s.start()), self.off(s.end())) }
    fn text(&self, s: Span) -> &str { let (a, b) = self.range(s); &self.src[a..b] }
}

// ---------------------------------------------------------- global tables ----
#[derive(Clone, Debug)]
enum TyKind { Struct(syn::Fields), Enum(Vec<syn::Variant>), Alias(syn::Type), Flags }
#[derive(Clone, Debug)]
struct TyInfo { module: Vec<String>, name: String, generics: bool, kind: TyKind, derives: BTreeSet<String> }
#[derive(Default)]
struct Tables {
    types: Vec<TyInfo>,
    byname: HashMap<String, Vec<usize>>,
    variants: HashMap<String, Vec<(usize, syn::Fields)>>, // "Enum::Variant"
    from_impls: BTreeSet<String>,                          // types with an impl From
    fns: BTreeMap<String, FnSig>,                          // full key
    fn_names: BTreeSet<String>,
    fnptr_alias: BTreeSet<String>,
}
#[derive(Clone, Default)]
struct FnSig { ret: String, module: Vec<String>, name: String }

fn ty_key(t: &TyInfo) -> String { format!("{}::{}", t.module.join("::"), t.name) }
fn derives(attrs: &[syn::Attribute]) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for a in attrs { if a.path().is_ident("derive") {
        let _ = a.parse_nested_meta(|m| { s.insert(m.path.segments.last().unwrap().ident.to_string()); Ok(()) });
    } }
    s
}

struct Flag { name: String, val: String, num: u128 }
struct FlagsDef { name: String, ty: String, flags: Vec<Flag> }
fn parse_bitflags(mac: &syn::Macro) -> Vec<FlagsDef> {
    use syn::parse::{Parse, ParseStream};
    struct P(Vec<FlagsDef>);
    impl Parse for P {
        fn parse(i: ParseStream<'_>) -> syn::Result<Self> {
            let mut v = vec![];
            while !i.is_empty() {
                let _ = i.call(syn::Attribute::parse_outer)?;
                let _: syn::Visibility = i.parse()?;
                let _: syn::Token![struct] = i.parse()?;
                let name: syn::Ident = i.parse()?;
                let _: syn::Token![:] = i.parse()?;
                let ty: syn::Type = i.parse()?;
                let c; syn::braced!(c in i);
                let mut flags = vec![];
                while !c.is_empty() {
                    let _ = c.call(syn::Attribute::parse_outer)?;
                    let _: syn::Token![const] = c.parse()?;
                    let n: syn::Ident = c.parse()?;
                    let _: syn::Token![=] = c.parse()?;
                    let e: syn::Expr = c.parse()?;
                    let _: syn::Token![;] = c.parse()?;
                    let known: Vec<(String, u128)> = flags.iter().map(|f: &Flag| (f.name.clone(), f.num)).collect();
                    let tyname = quote::quote!(#ty).to_string();
                    let num = const_eval(&e, &known).unwrap_or(0);
                    flags.push(Flag { name: n.to_string(), val: format!("{num}{}", prim_alias(&tyname)), num });
                }
                v.push(FlagsDef { name: name.to_string(), ty: quote::quote!(#ty).to_string(), flags });
            }
            Ok(P(v))
        }
    }
    syn::parse2::<P>(mac.tokens.clone()).map(|p| p.0).unwrap_or_default()
}

/// Names the format documentation gives to the integer types.
fn prim_alias(t: &str) -> String { match t { "Byte" => "u8", "Word" => "u16", "Dword" => "u32", "Qword" => "u64", "Uuid" => "u128", "Short" => "i16", "Long" => "i32", "Long64" => "i64", x => x }.to_string() }
/// Value of a flag constant.
fn const_eval(e: &syn::Expr, known: &[(String, u128)]) -> Option<u128> {
    match e {
        syn::Expr::Lit(l) => if let syn::Lit::Int(i) = &l.lit { i.base10_parse().ok() } else { None },
        syn::Expr::Paren(p) => const_eval(&p.expr, known),
        syn::Expr::Group(p) => const_eval(&p.expr, known),
        syn::Expr::Cast(c) => const_eval(&c.expr, known),
        syn::Expr::Binary(b) => { let (x, y) = (const_eval(&b.left, known)?, const_eval(&b.right, known)?); match b.op {
            syn::BinOp::BitOr(_) => Some(x | y), syn::BinOp::BitAnd(_) => Some(x & y), syn::BinOp::BitXor(_) => Some(x ^ y),
            syn::BinOp::Shl(_) => Some(x << y), syn::BinOp::Shr(_) => Some(x >> y), syn::BinOp::Add(_) => Some(x + y), syn::BinOp::Sub(_) => x.checked_sub(y), syn::BinOp::Mul(_) => Some(x * y), _ => None } }
        syn::Expr::MethodCall(c) if c.method == "bits" => const_eval(&c.receiver, known),
        syn::Expr::Path(p) => { let n = p.path.segments.last()?.ident.to_string(); known.iter().find(|k| k.0 == n).map(|k| k.1) }
        _ => None,
    }
}

// ---------------------------------------------------------------- views ----
struct Views<'t> { t: &'t Tables, plain: HashMap<usize, bool>, ok: HashMap<usize, bool> }
impl<'t> Views<'t> {
    fn find(&self, module: &[String], seg: &syn::PathSegment) -> Option<usize> {
        let n = seg.ident.to_string();
        let c = self.t.byname.get(&n)?;
        if c.len() == 1 { return Some(c[0]); }
        // ambiguous names: same module first, then binary before loader
        if let Some(x) = c.iter().find(|&&x| self.t.types[x].module == module) { return Some(*x); }
        let top = module.first();
        c.iter().find(|&&x| self.t.types[x].module.first() == top).copied().or(Some(c[0]))
    }
    fn children(&self, id: usize) -> Vec<syn::Type> {
        let mut v = vec![];
        match &self.t.types[id].kind {
            TyKind::Struct(f) => v.extend(f.iter().map(|f| f.ty.clone())),
            TyKind::Enum(vs) => for x in vs { v.extend(x.fields.iter().map(|f| f.ty.clone())) },
            TyKind::Alias(t) => v.push(t.clone()),
            TyKind::Flags => {}
        }
        v
    }
    fn compute(&mut self) {
        for id in 0..self.t.types.len() { self.plain.insert(id, true); self.ok.insert(id, true); }
        loop {
            let mut ch = false;
            for id in 0..self.t.types.len() {
                let m = self.t.types[id].module.clone();
                let kids = self.children(id);
                let p = kids.iter().all(|k| self.is_plain(&m, k));
                let o = kids.iter().all(|k| self.vty(&m, k).is_some());
                if self.plain[&id] != p { self.plain.insert(id, p); ch = true; }
                if self.ok[&id] && !o { self.ok.insert(id, false); ch = true; }
            }
            if !ch { break; }
        }
    }
    fn prim(n: &str) -> bool { matches!(n, "u8"|"u16"|"u32"|"u64"|"u128"|"usize"|"i8"|"i16"|"i32"|"i64"|"i128"|"isize"|"bool"|"f32"|"f64"|"char") }
    fn is_plain(&self, m: &[String], t: &syn::Type) -> bool {
        match t {
            syn::Type::Path(p) => {
                let s = p.path.segments.last().unwrap(); let n = s.ident.to_string();
                if Self::prim(&n) { return true; }
                if n == "Option" { return targs(s).iter().all(|a| self.is_plain(m, a)); }
                match self.find(m, s) { Some(id) => self.plain[&id], None => false }
            }
            syn::Type::Tuple(t) => t.elems.iter().all(|e| self.is_plain(m, e)),
            syn::Type::Paren(p) => self.is_plain(m, &p.elem),
            _ => false,
        }
    }
    /// Name of the view type.
    fn vty(&self, m: &[String], t: &syn::Type) -> Option<String> {
        match t {
            syn::Type::Reference(r) => match &*r.elem {
                syn::Type::Slice(s) => Some(format!("Seq<{}>", self.vty(m, &s.elem)?)),
                syn::Type::Path(p) if p.path.is_ident("str") => Some("Seq<char>".into()),
                _ => None,
            },
            syn::Type::Array(a) => Some(format!("Seq<{}>", self.vty(m, &a.elem)?)),
            syn::Type::Paren(p) => self.vty(m, &p.elem),
            syn::Type::Tuple(t) => { let v: Option<Vec<_>> = t.elems.iter().map(|e| self.vty(m, e)).collect(); Some(format!("({})", v?.join(", "))) }
            syn::Type::Path(p) => {
                let s = p.path.segments.last().unwrap(); let n = s.ident.to_string();
                if Self::prim(&n) { return Some(n); }
                let a = targs(s);
                match n.as_str() {
                    "String" => Some("Seq<char>".into()),
                    "Vec" => Some(format!("Seq<{}>", self.vty(m, &a[0])?)),
                    "Option" => Some(format!("Option<{}>", self.vty(m, &a[0])?)),
                    "RangeInclusive" => { let x = self.vty(m, &a[0])?; Some(format!("({x}, {x}, bool)")) }
                    "ParseResult" => Some(format!("Option<({}, Seq<u8>)>", self.vty(m, &a[0])?)),
                    _ => {
                        let id = self.find(m, s)?;
                        let ti = &self.t.types[id];
                        if let TyKind::Alias(al) = &ti.kind { return self.vty(&ti.module.clone(), al); }
                        if !self.ok[&id] { return None; }
                        Some(if self.plain[&id] { format!("crate::{}", ty_key(ti)) } else { format!("crate::{}V", ty_key(ti)) })
                    }
                }
            }
            _ => None,
        }
    }
    /// Types in a cycle with themselves.
    fn recursive(&self, id: usize) -> bool {
        let mut seen = BTreeSet::new(); let mut st = vec![id]; let mut first = true;
        while let Some(x) = st.pop() {
            if !first && x == id { return true; }
            first = false;
            if !seen.insert(x) { continue; }
            let m = self.t.types[x].module.clone();
            for k in self.children(x) { self.mentions(&m, &k, &mut |y| { if y == id { st.push(y); } else { st.push(y) } }); }
            seen.remove(&id);
            if seen.contains(&id) { return true; }
        }
        false
    }
    fn mentions(&self, m: &[String], t: &syn::Type, f: &mut dyn FnMut(usize)) {
        struct V<'a, 'b, 't>(&'a Views<'t>, &'a [String], &'b mut dyn FnMut(usize));
        impl<'a, 'b, 't, 'ast> Visit<'ast> for V<'a, 'b, 't> {
            fn visit_type_path(&mut self, p: &'ast syn::TypePath) {
                if let Some(id) = self.0.find(self.1, p.path.segments.last().unwrap()) { (self.2)(id); }
                visit::visit_type_path(self, p);
            }
        }
        V(self, m, f).visit_type(t);
    }
    /// Spec expression for the view of `e: t`. `deep` inlines (recursive types).
    fn vexpr(&self, m: &[String], t: &syn::Type, e: &str) -> String { let _ = (m, t); format!("crate::vx::Vw::vw(&{e})") }
    /// Like vexpr but without trait calls on recursive types.
    fn rexpr(&self, m: &[String], t: &syn::Type, e: &str, depth: usize) -> String {
        let mut rec = false;
        self.mentions(m, t, &mut |id| if self.recursive(id) { rec = true });
        if !rec { return self.vexpr(m, t, e); }
        if let syn::Type::Path(p) = t {
            let s = p.path.segments.last().unwrap(); let n = s.ident.to_string(); let a = targs(s);
            if n == "Vec" {
                let inner = self.rexpr(m, &a[0], &format!("{e}@[k{depth}]"), depth + 1);
                return format!("Seq::new({e}@.len(), |k{depth}: int| if 0 <= k{depth} < {e}@.len() {{ {inner} }} else {{ arbitrary() }})");
            }
            if let Some(id) = self.find(m, s) { let ti = &self.t.types[id]; return format!("crate::{}::vwf_{}({e})", ti.module.join("::"), ti.name); }
        }
        "arbitrary()".into()
    }
}
fn targs(s: &syn::PathSegment) -> Vec<syn::Type> {
    match &s.arguments { syn::PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|g| match g { syn::GenericArgument::Type(t) => Some(t.clone()), _ => None }).collect(), _ => vec![] }
}

// ---------------------------------------------------------------- edits ----
#[derive(Clone, Debug)]
struct Edit { a: usize, b: usize, class: u8, seq: usize, text: String }
#[derive(Default)]
struct Edits { v: Vec<Edit> }
impl Edits {
    fn push(&mut self, a: usize, b: usize, class: u8, text: String) { let seq = self.v.len(); self.v.push(Edit { a, b, class, seq, text }); }
    fn ins_before(&mut self, a: usize, t: impl Into<String>) { self.push(a, a, 1, t.into()) }
    fn ins_after(&mut self, a: usize, t: impl Into<String>) { self.push(a, a, 0, t.into()) }
    fn replace(&mut self, a: usize, b: usize, t: impl Into<String>) { self.push(a, b, 2, t.into()) }
    fn apply(mut self, src: &str, a: usize, b: usize) -> String {
        self.v.sort_by_key(|e| (e.a, e.class, e.seq));
        let mut out = String::new(); let mut pos = a;
        for e in &self.v {
            if e.a < pos { if e.a < a || e.b > b || e.a < pos && e.class == 2 { continue; } }
            if e.a < a || e.a > b { continue; }
            if e.a < pos { continue; }
            out.push_str(&src[pos..e.a]); out.push_str(&e.text); pos = e.b;
        }
        out.push_str(&src[pos..b]);
        out
    }
}

const COMB: &[&str] = &["count", "cond", "map", "map_res", "flat_map", "many1", "all_consuming", "complete"];
const RENAME: &[&str] = &["enumerate", "filter_map", "flat_map", "peekable", "try_collect", "chunks", "hash", "into", "try_into", "extend", "contains", "copied", "skip", "take", "step_by", "chunks_exact", "fold", "sum", "last", "cloned", "try_from", "collect_vec", "rev", "any", "all", "concat", "join", "next_if", "take_while", "skip_while", "chain", "position", "find", "and_then", "ok_or_else", "then", "then_some", "zip"];
const NO_RENAME: &[&str] = &["zip", "and_then", "next_if", "ok_or_else"];

struct FnVisitor<'a> {
    m: &'a Module, t: &'a Tables, c: &'a FnC, cs: &'a BTreeMap<String, FnC>, e: Edits,
    nloop: usize, nclos: usize, ncomb: usize, notes: Vec<String>, calls: BTreeSet<String>, subst: Vec<(String, String)>,
    generic_fns: bool, ret_fnptr: Option<usize>, fnptr_locals: BTreeSet<String>, hits: BTreeSet<usize>,
}
impl<'a> FnVisitor<'a> {
    fn sub(&self, s: &str) -> String { let mut s = s.to_string(); for (k, v) in &self.subst { s = s.replace(k, v); } s }
    /// Key of the annotation for the closure or combinator number `k`.
    fn annotation(&mut self, k: usize, text: &str, has: impl Fn(usize) -> bool) -> usize {
        let t = norm(text);
        for (key, a) in &self.c.anchors { if t.starts_with(a.as_str()) && has(*key) { self.hits.insert(*key); return *key; } }
        k
    }
    fn comb_name(&self, f: &syn::Expr) -> Option<String> {
        let syn::Expr::Path(p) = f else { return None };
        let n = p.path.segments.last()?.ident.to_string();
        if !COMB.contains(&n.as_str()) { return None; }
        // must come from nom
        let imported = self.m.src.contains("nom::") || self.m.src.contains("nom::{");
        if p.path.segments.len() == 1 && imported || p.path.segments.iter().any(|s| s.ident == "nom") { Some(n) } else { None }
    }
    fn resolve_fn(&self, p: &syn::Path) -> Option<String> {
        let n = p.segments.last()?.ident.to_string();
        let same = format!("{}::{}", self.m.path.join("::"), n);
        if p.segments.len() == 1 && self.t.fns.contains_key(&same) { return Some(same); }
        // imported or qualified: unique suffix match
        let c: Vec<&String> = self.t.fns.keys().filter(|k| k.ends_with(&format!("::{n}"))).collect();
        match c.len() { 0 => None, 1 => Some(c[0].clone()), _ => {
            // pick by use statement text
            for k in &c { let md = k.rsplitn(2, "::").nth(1).unwrap().rsplit("::").next().unwrap(); if self.m.src.contains(&format!("{md}::")) { return Some((*k).clone()); } }
            None } }
    }
    fn ctor(&self, p: &syn::Path) -> Option<(usize, String, syn::Type)> {
        if p.segments.len() < 2 { return None; }
        let n = p.segments.len();
        let k = format!("{}::{}", p.segments[n - 2].ident, p.segments[n - 1].ident);
        let v = self.t.variants.get(&k)?;
        let (id, f) = &v[0];
        match f { syn::Fields::Unnamed(u) if u.unnamed.len() == 1 => Some((*id, k, u.unnamed[0].ty.clone())), _ => None }
    }
    fn prim_sp(n: &str) -> Option<&'static str> {
        Some(match n { "le_u8" => "u8", "le_u16" => "u16", "le_u32" => "u32", "le_u64" => "u64", "le_u128" => "u128", "le_i8" => "i8", "le_i16" => "i16", "le_i32" => "i32", "le_i64" => "i64", "le_f32" => "f32", "le_f64" => "f64", _ => return None })
    }
    /// Wrap an expression used as a parser with its specification.
    fn wrap_parser(&mut self, x: &syn::Expr) {
        let (a, b) = self.m.range(x.span());
        match x {
            syn::Expr::Path(p) => {
                let n = p.path.segments.last().unwrap().ident.to_string();
                if let Some(s) = Self::prim_sp(&n) { self.e.ins_before(a, "crate::vx::vx_p("); self.e.ins_after(b, format!(", Ghost(crate::vx::prim::sp_{s}()))")); return; }
                if let Some(k) = self.resolve_fn(&p.path) { self.calls.insert(k.clone()); if let Some(sp) = self.cs.get(&k).and_then(|c| c.sp.clone()) {
                    self.e.ins_before(a, "crate::vx::vx_p("); self.e.ins_after(b, format!(", Ghost({sp}))")); return;
                } }
                self.notes.push(format!("no parser contract for {n}"));
            }
            syn::Expr::Closure(cl) => {
                // |i| f(i, args): specification of f
                let cc = self.c; let ka = self.annotation(self.nclos, self.m.text(x.span()), |k| cc.clos.contains_key(&k)); if self.c.clos.contains_key(&ka) { return; }
                if let syn::Expr::Call(call) = &*cl.body { if let syn::Expr::Path(p) = &*call.func { if let Some(k) = self.resolve_fn(&p.path) {
                    if let (Some(sp), Some(sig)) = (self.cs.get(&k).and_then(|c| c.sp.clone()), self.t.fns.get(&k)) {
                        let mut sp = sp; let mut ok = !cl.inputs.is_empty();
                        for (i, arg) in call.args.iter().enumerate() {
                            let t = self.m.text(arg.span()).to_string();
                            if i == 0 { ok &= cl.inputs.len() == 1 && self.m.text(cl.inputs[0].span()) == t; }
                            sp = sp.replace(&format!("${i}"), &format!("({t})"));
                        }
                        if ok {
                            let pin = self.m.text(cl.inputs[0].span()).to_string();
                            let (ba, bb) = self.m.range(cl.body.span());
                            self.e.ins_before(a, "crate::vx::vx_p(");
                            self.e.ins_before(ba, format!("-> (vxq: {}) ensures crate::vx::pmatch(({sp})({pin}@), vxq) {{ ", sig.ret));
                            self.e.ins_after(bb, " }");
                            self.e.ins_after(b, format!(", Ghost({sp}))"));
                            return;
                        }
                    }
                } } }
                self.notes.push("closure used as parser without contract".into());
            }
            _ => {}
        }
    }
    /// Wrap an expression used as a function on parser outputs.
    fn wrap_fun(&mut self, x: &syn::Expr) {
        let (a, b) = self.m.range(x.span());
        match x {
            syn::Expr::Path(p) => {
                if let Some((id, k, ty)) = self.ctor(&p.path) {
                    let ti = &self.t.types[id];
                    let mut vs = Views { t: self.t, plain: HashMap::new(), ok: HashMap::new() }; vs.compute();
                    let vt = if vs.plain[&id] { format!("crate::{}", ty_key(ti)) } else { format!("crate::{}V", ty_key(ti)) };
                    let w = vs.vty(&ti.module, &ty).unwrap_or("_".into());
                    let var = k.rsplit("::").next().unwrap();
                    let lt = if ti.generics { "<'_>" } else { "" };
                    let full = format!("crate::{}", ty_key(ti));
                    self.e.replace(a, b, format!("crate::vx::vx_g(|vxa| -> (vxb: {full}{lt}) ensures vxb == {full}::{var}(vxa) {{ {full}::{var}(vxa) }}, Ghost(|vxa: {w}| {vt}::{var}(vxa)))"));
                }
            }
            _ => {}
        }
    }
    fn fn_value_arg(&mut self, x: &syn::Expr) {
        // enum constructors as function values
        if let syn::Expr::Path(p) = x { if let Some((id, k, _)) = self.ctor(&p.path) {
            let ti = &self.t.types[id]; let var = k.rsplit("::").next().unwrap();
            let lt = if ti.generics { "<'_>" } else { "" }; let full = format!("crate::{}", ty_key(ti));
            let (a, b) = self.m.range(x.span());
            self.e.replace(a, b, format!("|vxa| -> (vxb: {full}{lt}) ensures vxb == {full}::{var}(vxa) {{ {full}::{var}(vxa) }}"));
        } }
    }
}
/// Does the body of a loop break out of this loop?
fn has_break(b: &syn::Block) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_break(&mut self, _: &'ast syn::ExprBreak) { self.0 = true; }
        fn visit_expr_for_loop(&mut self, _: &'ast syn::ExprForLoop) {}
        fn visit_expr_while(&mut self, _: &'ast syn::ExprWhile) {}
        fn visit_expr_loop(&mut self, _: &'ast syn::ExprLoop) {}
        fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    }
    let mut v = V(false); v.visit_block(b); v.0
}

impl<'a, 'ast> Visit<'ast> for FnVisitor<'a> {
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        let (x, y) = self.m.range(a.span());
        if a.path().is_ident("doc") { return; }
        self.e.replace(x, y, "");
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        let comb = self.comb_name(&c.func);
        let span = c.span();
        let idx = self.ncomb;
        let (a, b) = self.m.range(c.span());
        let mut wrap = None;
        if comb.is_some() { self.ncomb += 1; let c = self.c; let idx = self.annotation(idx, self.m.text(span), |k| c.combs.contains_key(&k)); wrap = self.c.combs.get(&idx).cloned(); }
        if let Some(w) = &wrap { let (p, _) = w.split_once("$$").unwrap(); self.e.ins_before(a, p.trim_end()); }
        if let syn::Expr::Path(p) = &*c.func { if let Some(i) = p.path.get_ident() { if self.fnptr_locals.contains(&i.to_string()) { let (_, e) = self.m.range(p.span()); self.e.ins_after(e, ".vx_call"); } } }
        if let syn::Expr::Call(inner) = &*c.func { let (_, e) = self.m.range(inner.span()); self.e.ins_after(e, ".parse"); }
        if let syn::Expr::Path(p) = &*c.func {
            if let Some(k) = self.resolve_fn(&p.path) { self.calls.insert(k); }
            let n = p.path.segments.len();
            let last = p.path.segments[n - 1].ident.to_string();
            if n >= 2 && (last == "from" || last == "try_from") {
                let q = p.path.segments[n - 2].ident.to_string();
                if Views::prim(&q) || self.t.from_impls.contains(&q) || q == "Self" || self.t.byname.contains_key(&q) {
                    let (x, y) = self.m.range(p.path.segments[n - 1].ident.span());
                    self.e.replace(x, y, format!("vx_{last}"));
                }
            }
            if last == "from_utf8" { let (x, y) = self.m.range(p.span()); self.e.replace(x, y, "crate::vx::from_utf8"); }
            if n >= 2 && last == "swap" && p.path.segments[n - 2].ident == "mem" { }
        }
        for (i, x) in c.args.iter().enumerate() {
            match comb.as_deref() {
                Some("count" | "many1" | "all_consuming" | "complete" | "map" | "flat_map" | "map_res") if i == 0 => self.wrap_parser(x),
                Some("cond") if i == 1 => self.wrap_parser(x),
                Some("map") if i == 1 => { if let syn::Expr::Path(_) = x { self.wrap_fun(x) } }
                Some("flat_map") if i == 1 => { if let syn::Expr::Path(p) = x { if p.path.segments.last().unwrap().ident == "take" { let (a, b) = self.m.range(x.span()); self.e.replace(a, b, "crate::vx::comb::VxTakeFn"); } } }
                Some("map_res") if i == 1 => { if let syn::Expr::Path(p) = x { if p.path.segments.last().unwrap().ident == "from_utf8" { let (a, b) = self.m.range(x.span()); self.e.replace(a, b, "crate::vx::comb::VxFromUtf8"); } } }
                Some(_) => {}
                None => self.fn_value_arg(x),
            }
        }
        visit::visit_expr_call(self, c);
        if let Some(w) = &wrap { let (_, s) = w.split_once("$$").unwrap(); self.e.ins_after(b, s); }
    }
    fn visit_expr_method_call(&mut self, c: &'ast syn::ExprMethodCall) {
        let n = c.method.to_string();
        self.calls.insert(format!(".{n}"));
        if RENAME.contains(&n.as_str()) && !NO_RENAME.contains(&n.as_str()) {
            let (x, y) = self.m.range(c.method.span());
            self.e.replace(x, y, format!("vx_{n}"));
        }
        for x in &c.args { self.fn_value_arg(x); }
        visit::visit_expr_method_call(self, c);
    }
    fn visit_expr_index(&mut self, i: &'ast syn::ExprIndex) {
        if let syn::Expr::Reference(_) = &*i.index {
            // map[&key]
            let (_, e) = self.m.range(i.expr.span()); let (s, _) = self.m.range(i.index.span()); let (ie, e2) = (self.m.range(i.index.span()).1, self.m.range(i.span()).1);
            self.e.replace(e, s, ".vx_index("); self.e.replace(ie, e2, ")");
        }
        visit::visit_expr_index(self, i);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let k = self.nclos; self.nclos += 1;
        let (a, b) = self.m.range(c.span());
        let cc = self.c;
        let ka = self.annotation(k, self.m.text(c.span()), |k| cc.clos.contains_key(&k));
        let spec = self.c.clos.get(&ka).cloned();
        // The verifier only has plain variables as closure parameters.
        let mut lets = String::new(); let mut names: Vec<String> = Vec::new();
        for (i, p) in c.inputs.iter().enumerate() {
            let core = match p { syn::Pat::Type(t) => &*t.pat, p => p };
            let span = if matches!(core, syn::Pat::Tuple(_) | syn::Pat::Struct(_) | syn::Pat::TupleStruct(_) | syn::Pat::Slice(_)) { core.span() } else { names.push(self.m.text(pat_core(p)).to_string()); continue };
            let n = format!("vx_p{k}_{i}");
            write!(lets, "let {} = {n};", self.m.text(span)).unwrap();
            if spec.as_ref().map_or(true, |s| s.params.is_none()) { let (x, y) = self.m.range(span); self.e.replace(x, y, n.clone()); }
            names.push(n);
        }
        if spec.as_ref().map_or(true, |s| s.params.is_none()) {
            for (i, p) in c.inputs.iter().enumerate() { if let syn::Pat::Wild(w) = p { let (x, y) = self.m.range(w.span()); self.e.replace(x, y, format!("_vx{k}_{i}")); } }
        }
        if let Some(s) = &spec {
            if let Some(w) = &s.wrap { let (p, _) = w.split_once("$$").unwrap(); self.e.ins_before(a, self.sub(p.trim_end())); }
            if let Some(p) = &s.params {
                let (x, _) = self.m.range(c.or1_token.span()); let (_, y) = self.m.range(c.or2_token.span());
                let p = p.replace("$a", c.inputs.first().map(|i| self.m.text(i.span())).unwrap_or("")).replace("$b", c.inputs.iter().nth(1).map(|i| self.m.text(i.span())).unwrap_or(""));
                self.e.replace(x, y, format!("|{p}|"));
            }
            let (ba, bb) = self.m.range(c.body.span());
            let mut t = String::new();
            if let Some(r) = &s.ret { write!(t, " -> (vxq: {})", r).unwrap(); }
            let pa = names.first().cloned().unwrap_or_default();
            let pb = names.get(1).cloned().unwrap_or_default();
            let sb = |s: &str| self.sub(&s.replace("$a", &pa).replace("$b", &pb));
            if !s.req.is_empty() { write!(t, " requires {},", s.req.iter().map(|x| sb(x)).collect::<Vec<_>>().join(", ")).unwrap(); }
            if !s.ens.is_empty() { write!(t, " ensures {},", s.ens.iter().map(|x| sb(x)).collect::<Vec<_>>().join(", ")).unwrap(); }
            let is_block = matches!(&*c.body, syn::Expr::Block(_));
            let pb2 = format!("{lets}{}", sb(&s.body));
            if is_block { self.e.ins_before(ba, t); if !pb2.is_empty() { self.e.ins_before(ba + 1, pb2); } } else { self.e.ins_before(ba, format!("{t} {{ {pb2}")); self.e.ins_after(bb, " }"); }
        } else if !lets.is_empty() {
            let (ba, bb) = self.m.range(c.body.span());
            if matches!(&*c.body, syn::Expr::Block(_)) { self.e.ins_before(ba + 1, lets); } else { self.e.ins_before(ba, format!("{{ {lets}")); self.e.ins_after(bb, " }"); }
        }
        visit::visit_expr_closure(self, c);
        if let Some(s) = &spec { if let Some(w) = &s.wrap { let (_, q) = w.split_once("$$").unwrap(); self.e.ins_after(b, self.sub(q)); } }
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        let k = self.nloop; self.nloop += 1;
        let lc = self.c.loops.get(&k).cloned().unwrap_or_default();
        let it = format!("vx_it{k}");
        let brk = has_break(&l.body);
        let (ls, le) = self.m.range(l.span());
        let (es, ee) = self.m.range(l.expr.span());
        let bs = self.m.range(l.body.brace_token.span.open()).0;
        let be = self.m.range(l.body.brace_token.span.close()).1;
        let pat = self.m.text(l.pat.span()).to_string();
        let sb = |s: &str| self.sub(&s.replace("$it", &it).replace("$s", &format!("vx_sq{k}")).replace("$x", &pat));
        let iso = self.c.attr.contains("loop_isolation(true)");
        let mut spec = String::new(); let mut user = String::new();
        for (l, i) in &lc.inv { write!(user, "\n /*VXC {l}*/ {},", sb(i)).unwrap(); }
        let own = format!("\ninvariant {it}.wf(), {it}.seq() == vx_sq{k},");
        if iso && !lc.ens.is_empty() { if !user.is_empty() { write!(spec, "\ninvariant_except_break {user}").unwrap(); } spec.push_str(&own); } else { spec.push_str(&own); spec.push_str(&user); }
        if !brk || !lc.ens.is_empty() {
            spec.push_str("\nensures ");
            if !brk { write!(spec, "{it}.index() == vx_sq{k}.len(),").unwrap(); }
            for x in &lc.ens { write!(spec, "\n {},", sb(x)).unwrap(); }
        }
        let body0 = sb(&lc.body); let body1 = sb(&lc.end); let before = sb(&lc.before); let after = sb(&lc.after); let done = sb(&lc.done);
        // the iterated expression
        let mut pre = "::core::iter::IntoIterator::into_iter(".to_string(); let mut post = ")".to_string(); let mut cut = es;
        if let syn::Expr::Reference(r) = &*l.expr {
            let (is, _) = self.m.range(r.expr.span()); cut = is;
            pre = "(".into(); post = if r.mutability.is_some() { ").iter_mut()".into() } else { ").iter()".into() };
        }
        let label = l.label.as_ref().map(|x| format!("{}: ", x.name)).unwrap_or_default();
        self.e.replace(ls, cut, format!("let mut {it} = crate::vx::vx_for({pre}"));
        self.e.replace(ee, bs + 1, format!("{post}); let ghost vx_sq{k} = {it}.seq(); {before}\n{}{label}loop {spec}\n decreases vx_sq{k}.len() - {it}.index() {{ let {pat} = match {it}.next() {{ Some(vxx) => vxx, None => break }};\n{body0}", if iso { "" } else { "#[verifier::allow_complex_invariants]\n" }));
        visit::visit_expr_for_loop(self, l);
        if !body1.is_empty() { self.e.ins_after(be - 1, body1); }
        // Elements a loop over mutable references has not reached.
        let muts = match &*l.expr { syn::Expr::Reference(r) => r.mutability.is_some(), syn::Expr::MethodCall(c) => c.method == "iter_mut", _ => false };
        if !done.is_empty() { self.e.ins_after(le, format!("\n{done}")); }
        if muts { self.e.ins_after(le, format!(" crate::vx::vx_done({it});")); }
        if !after.is_empty() { self.e.ins_after(le, after); }
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        let k = self.nloop; self.nloop += 1;
        let lc = self.c.loops.get(&k).cloned().unwrap_or_default();
        let (ls, le) = self.m.range(l.span());
        let (cs, ce) = self.m.range(l.cond.span());
        let bs = self.m.range(l.body.brace_token.span.open()).0;
        let be = self.m.range(l.body.brace_token.span.close()).1;
        let sb = |s: &str| self.sub(s);
        let mut spec = String::new();
        if !lc.inv.is_empty() { spec.push_str(if self.c.attr.contains("loop_isolation(true)") && !lc.ens.is_empty() { "\ninvariant_except_break " } else { "\ninvariant " }); for (l, i) in &lc.inv { write!(spec, "\n /*VXC {l}*/ {},", sb(i)).unwrap(); } }
        if !lc.ens.is_empty() { write!(spec, "\nensures {},", lc.ens.iter().map(|x| sb(x)).collect::<Vec<_>>().join(", ")).unwrap(); }
        if let Some(d) = &lc.dec { write!(spec, "\ndecreases {} ", sb(d)).unwrap(); }
        let start = sb(&lc.start);
        let (b0, b1, before, after) = (sb(&lc.body), sb(&lc.end), sb(&lc.before), sb(&lc.after));
        if !before.is_empty() { self.e.ins_before(ls, before); }
        if let syn::Expr::Let(le) = &*l.cond {
            let (ps, pe) = self.m.range(le.pat.span()); let (xs, xe) = self.m.range(le.expr.span());
            let _ = (ps, pe, xs, cs);
            let pat = self.m.text(le.pat.span()).to_string();
            self.e.replace(ls, xs, format!("{}loop {spec} {{ {start}let {pat} = ", if lc.ens.is_empty() || self.c.attr.contains("loop_isolation(true)") { "" } else { "#[verifier::allow_complex_invariants]\n" }));
            self.e.replace(xe, bs + 1, format!(" else {{ break; }};\n{b0}"));
        } else {
            self.e.ins_after(ce, spec);
            self.e.ins_before(bs + 1, b0);
        }
        visit::visit_expr_while(self, l);
        if !b1.is_empty() { self.e.ins_after(be - 1, b1); }
        if !after.is_empty() { self.e.ins_after(le, after); }
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        let k = self.nloop; self.nloop += 1;
        let lc = self.c.loops.get(&k).cloned().unwrap_or_default();
        let bs = self.m.range(l.body.brace_token.span.open()).0;
        let mut spec = String::new();
        if !lc.inv.is_empty() { spec.push_str("\ninvariant "); for (_, i) in &lc.inv { write!(spec, "{},", self.sub(i)).unwrap(); } }
        if let Some(d) = &lc.dec { write!(spec, "\ndecreases {} ", self.sub(d)).unwrap(); }
        self.e.ins_before(bs, spec);
        visit::visit_expr_loop(self, l);
    }
    fn visit_expr_cast(&mut self, c: &'ast syn::ExprCast) {
        if self.c.casts {
            let (a, b) = self.m.range(c.expr.span()); let (_, e) = self.m.range(c.ty.span()); let t = self.m.text(c.ty.span()).to_string();
            self.e.ins_before(a, format!("crate::vx::VxAs::<{t}>::vx_as("));
            self.e.replace(b, e, ")");
        }
        visit::visit_expr_cast(self, c);
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        if let (syn::Pat::Ident(i), Some(init)) = (&l.pat, &l.init) { if let syn::Expr::Call(c) = &*init.expr { if let syn::Expr::Path(p) = &*c.func {
            if let Some(k) = self.resolve_fn(&p.path) { if self.t.fnptr_alias.contains(&self.t.fns[&k].ret) { self.fnptr_locals.insert(i.ident.to_string()); } }
        } } }
        visit::visit_local(self, l);
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        // function used as a function pointer value
        if let Some(n) = self.ret_fnptr { if let Some(k) = self.resolve_fn(&p.path) { if let Some(b) = self.cs.get(&k).and_then(|c| c.bfn.clone()) {
            let (a, e) = self.m.range(p.span()); self.calls.insert(k);
            self.e.ins_before(a, format!("crate::vx::vx_fnptr{n}(")); self.e.ins_after(e, format!(", Ghost({b}))"));
            return;
        } } }
        visit::visit_expr_path(self, p);
    }
    fn visit_expr_reference(&mut self, r: &'ast syn::ExprReference) { visit::visit_expr_reference(self, r); }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        let (a, b) = self.m.range(m.span());
        match n.as_str() {
            "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" | "assert" | "debug_assert" => {
                if let Ok(args) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                    let op = if n.ends_with("_eq") { Some("==") } else if n.ends_with("_ne") { Some("!=") } else { None };
                    let (x0, x1) = self.m.range(args[0].span());
                    self.e.replace(a, x0, "crate::vx::vx_assert(");
                    if let Some(op) = op {
                        let (y0, y1) = self.m.range(args[1].span());
                        self.e.replace(x1, y0, format!(" {op} ")); self.e.replace(y1, b, ")");
                        self.visit_expr(&args[0]); self.visit_expr(&args[1]);
                    } else { self.e.replace(x1, b, ")"); self.visit_expr(&args[0]); }
                }
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => self.e.replace(a, b, "crate::vx::vx_panic()"),
            "format" => self.e.replace(a, b, "crate::vx::vx_format()"),
            "println" | "eprintln" | "print" | "eprint" => self.e.replace(a, b, "()"),
            "matches" => {
                // visit the scrutinee only
                struct M { x: syn::Expr }
                impl syn::parse::Parse for M { fn parse(i: syn::parse::ParseStream<'_>) -> syn::Result<Self> { let x = i.parse()?; let _: syn::Token![,] = i.parse()?; let _ = i.parse::<proc_macro2::TokenStream>()?; Ok(M { x }) } }
                if let Ok(mm) = m.parse_body::<M>() { self.visit_expr(&mm.x); }
            }
            "vec" => {
                struct M { xs: Vec<syn::Expr> }
                impl syn::parse::Parse for M { fn parse(i: syn::parse::ParseStream<'_>) -> syn::Result<Self> { let mut xs = vec![]; while !i.is_empty() { xs.push(i.parse()?); if i.peek(syn::Token![,]) { let _: syn::Token![,] = i.parse()?; } else if i.peek(syn::Token![;]) { let _: syn::Token![;] = i.parse()?; } } Ok(M { xs }) } }
                if let Ok(mm) = m.parse_body::<M>() { for x in &mm.xs { self.visit_expr(x); } }
            }
            _ => self.notes.push(format!("macro {n}!")),
        }
    }
    fn visit_item_fn(&mut self, _: &'ast syn::ItemFn) {}
}
fn pat_core(p: &syn::Pat) -> Span { match p { syn::Pat::Type(t) => t.pat.span(), syn::Pat::Reference(r) => r.pat.span(), p => p.span() } }

// -------------------------------------------------------------- emission ----
struct Gen<'a> { mods: &'a [Module], t: &'a Tables, cs: &'a BTreeMap<String, FnC>, modtext: &'a BTreeMap<String, String>, undecided: BTreeSet<String>, canary: bool, out: String, fns: BTreeMap<String, serde_json::Value>, dropped: Vec<String>, used: BTreeSet<String>, lost: BTreeMap<String, String>, inlined: BTreeSet<String>, views: String, viewlemmas: String, viewnames: Vec<String> }

const USE_MAP: &[(&str, &str)] = &[
    ("std::str::Utf8Error", "crate::vx::Utf8Error"), ("std::iter::Peekable", "crate::vx::Peekable"),
    ("std::collections::hash_map::DefaultHasher", "crate::vx::DefaultHasher"), ("std::collections::HashMap", "crate::vx::HashMap"),
    ("std::hash::Hash", "crate::vx::Hash"), ("std::hash::Hasher", "crate::vx::Hasher"), ("std::hash::DefaultHasher", "crate::vx::DefaultHasher"), ("strum::FromRepr", ""), ("bitflags::bitflags", ""), ("thiserror::Error", ""), ("itertools::Itertools", ""),
    ("flate2", "crate::vx::flate2"), ("core::str::Utf8Error", "crate::vx::Utf8Error"),
];
fn flatten_use(t: &syn::UseTree, pre: &str, out: &mut Vec<String>) {
    match t {
        syn::UseTree::Path(p) => flatten_use(&p.tree, &format!("{pre}{}::", p.ident), out),
        syn::UseTree::Name(n) => { if n.ident == "self" { out.push(pre.trim_end_matches("::").to_string()) } else { out.push(format!("{pre}{}", n.ident)) } }
        syn::UseTree::Rename(r) => out.push(format!("{pre}{} as {}", r.ident, r.rename)),
        syn::UseTree::Glob(_) => out.push(format!("{pre}*")),
        syn::UseTree::Group(g) => for i in &g.items { flatten_use(i, pre, out) },
    }
}

impl<'a> Gen<'a> {
    fn emit_mod(&mut self, id: usize) {
        let m = &self.mods[id];
        let key = m.path.join("::");
        if !m.path.is_empty() { writeln!(self.out, "pub mod {} {{", m.path.last().unwrap()).unwrap(); }
        writeln!(self.out, "#[allow(unused_imports)] use vstd::prelude::*; #[allow(unused_imports)] use crate::vx::nom::Parser as _; #[allow(unused_imports)] use crate::vx::{{nom, flate2, VxAs, VxHash, VxFrom, VxInto, VxTryInto, VxIter, VxSlice, VxContains, VxOption, VxBool, VxOptTake, VxExtend, VxTryIter, Vw}}; #[allow(unused_imports)] use vstd::std_specs::iter::IteratorSpec;").unwrap();
        if !m.path.is_empty() {
            let mut l = vec!["crate::vx::bytes".to_string(), "crate::vx::shims".to_string()];
            for item in &m.ast.items { if let syn::Item::Macro(mac) = item { if mac.mac.path.is_ident("bitflags") { for f in parse_bitflags(&mac.mac) { l.push(format!("vx_flags_{0}::vx_lemma_{0}", f.name)); } } } }
            let keep = std::mem::take(&mut self.out);
            for item in &m.ast.items { self.emit_item(m, item); }
            let items = std::mem::replace(&mut self.out, keep);
            let (views, lemmas) = (std::mem::take(&mut self.views), std::mem::take(&mut self.viewlemmas));
            for n in std::mem::take(&mut self.viewnames) { l.push(format!("vx_viewlemmas::{n}")); }
            if let Some(u) = self.modtext.get(&key) { for line in u.lines() { if let Some(x) = line.strip_prefix("//broadcast ") { l.push(x.trim().to_string()); } } }
            writeln!(self.out, "broadcast use {{{}}};", l.join(", ")).unwrap();
            if !views.is_empty() { writeln!(self.out, "pub use vx_views::*;\npub mod vx_views {{ use vstd::prelude::*; use super::*;\n{views}}}\npub mod vx_viewlemmas {{ use vstd::prelude::*; use super::*;\n{lemmas}}}").unwrap(); }
            self.out.push_str(&items);
        } else { for item in &m.ast.items { self.emit_item(m, item); } }
        if let Some(t) = self.modtext.get(&key) { self.out.push_str(t); self.out.push('\n'); }
        for c in m.children.clone() { self.emit_mod(c); }
        if !m.path.is_empty() { writeln!(self.out, "}}").unwrap(); }
    }
    fn emit_item(&mut self, m: &Module, item: &syn::Item) {
        match item {
            syn::Item::Use(u) => {
                let mut v = vec![]; flatten_use(&u.tree, "", &mut v);
                'n: for p in v {
                    for (a, b) in USE_MAP { if p == *a || p.starts_with(&format!("{a}::")) || p.starts_with(&format!("{a} as ")) { if b.is_empty() { continue 'n; } writeln!(self.out, "#[allow(unused_imports)] pub use {}{};", b, &p[a.len()..]).unwrap(); continue 'n; } }
                    writeln!(self.out, "#[allow(unused_imports)] use {p};").unwrap();
                }
            }
            syn::Item::Mod(mm) => { if mm.content.is_some() && !is_test(&mm.attrs) { self.dropped.push(format!("inline module {}", mm.ident)); } }
            syn::Item::Fn(f) => {
                if is_test(&f.attrs) { return; }
                let key = format!("{}::{}", m.path.join("::"), f.sig.ident);
                self.emit_fn(m, &key, &f.attrs, Some(&f.vis), &f.sig, &f.block, "");
            }
            syn::Item::Struct(s) => {
                let d = derives(&s.attrs);
                self.emit_derives(m, &s.ident.to_string(), &d);
                let (a, b) = m.range(s.span());
                let a2 = s.attrs.last().map(|x| m.range(x.span()).1).unwrap_or(a);
                let mut e = Edits::default();
                self.strip_vis(m, &mut e, &s.vis, m.range(s.struct_token.span()).0);
                for f in s.fields.iter() { for at in &f.attrs { if !at.path().is_ident("doc") { let (x, y) = m.range(at.span()); e.replace(x, y, ""); } } self.strip_vis(m, &mut e, &f.vis, f.ident.as_ref().map(|i| m.range(i.span()).0).unwrap_or(m.range(f.ty.span()).0)); }
                let t = e.apply(&m.src, a2.max(a), b);
                writeln!(self.out, "{}", t).unwrap();
                self.emit_view(m, &s.ident.to_string());
                self.emit_extra(m, &s.ident.to_string(), &d);
            }
            syn::Item::Enum(s) => {
                let d = derives(&s.attrs);
                self.emit_derives(m, &s.ident.to_string(), &d);
                let (a, b) = m.range(s.span());
                let a2 = s.attrs.last().map(|x| m.range(x.span()).1).unwrap_or(a);
                let mut e = Edits::default();
                self.strip_vis(m, &mut e, &s.vis, m.range(s.enum_token.span()).0);
                for v in &s.variants {
                    for at in &v.attrs { if !at.path().is_ident("doc") { let (x, y) = m.range(at.span()); e.replace(x, y, ""); } }
                    for f in v.fields.iter() { for at in &f.attrs { if !at.path().is_ident("doc") { let (x, y) = m.range(at.span()); e.replace(x, y, ""); } } }
                    if let Some((eq, x)) = &v.discriminant { let (p, _) = m.range(eq.span()); let (_, q) = m.range(x.span()); e.replace(p, q, ""); }
                }
                let t = e.apply(&m.src, a2.max(a), b);
                writeln!(self.out, "{}", t).unwrap();
                if d.contains("FromRepr") { self.emit_from_repr(m, s); }
                self.emit_view(m, &s.ident.to_string());
                self.emit_extra(m, &s.ident.to_string(), &d);
            }
            syn::Item::Type(t) => {
                let (a, b) = m.range(t.span());
                let a2 = t.attrs.last().map(|x| m.range(x.span()).1).unwrap_or(a);
                if let syn::Type::BareFn(bf) = &*t.ty {
                    let mut a: Vec<String> = bf.inputs.iter().map(|i| m.text(i.ty.span()).to_string()).collect();
                    a.push(match &bf.output { syn::ReturnType::Type(_, t) => m.text(t.span()).to_string(), _ => "()".into() });
                    writeln!(self.out, "pub type {} = crate::vx::VxFn{}<{}>;", t.ident, a.len() - 1, a.join(", ")).unwrap();
                    return;
                }
                let mut e = Edits::default();
                self.strip_vis(m, &mut e, &t.vis, m.range(t.type_token.span()).0);
                let s = e.apply(&m.src, a2, b); writeln!(self.out, "{s}").unwrap();
            }
            syn::Item::Const(c) => {
                let (a, b) = m.range(c.span());
                let a2 = c.attrs.last().map(|x| m.range(x.span()).1).unwrap_or(a);
                let mut e = Edits::default();
                self.strip_vis(m, &mut e, &c.vis, m.range(c.const_token.span()).0);
                // constant folding of <int literal>.to_le_bytes()
                if let syn::Expr::MethodCall(mc) = &*c.expr { if mc.method == "to_le_bytes" { if let syn::Expr::Lit(l) = &*mc.receiver { if let syn::Lit::Int(i) = &l.lit {
                    let v: u128 = i.base10_parse().unwrap_or(0);
                    let n = match i.suffix() { "u8" | "i8" => 1, "u16" | "i16" => 2, "u32" | "i32" => 4, "u64" | "i64" => 8, _ => 4 };
                    let s: Vec<String> = (0..n).map(|k| format!("{}u8", (v >> (8 * k)) & 0xff)).collect();
                    let (x, y) = m.range(c.expr.span()); e.replace(x, y, format!("[{}]", s.join(", ")));
                } } } }
                let s = e.apply(&m.src, a2, b); writeln!(self.out, "{s}").unwrap();
            }
            syn::Item::Macro(mac) => {
                if mac.mac.path.is_ident("bitflags") { for f in parse_bitflags(&mac.mac) { self.emit_flags(&f); } }
                else { self.dropped.push(format!("macro {}", m.text(mac.mac.path.span()))); }
            }
            syn::Item::Impl(im) => self.emit_impl(m, im),
            other => self.dropped.push(m.text(other.span()).lines().next().unwrap_or("").to_string()),
        }
    }
    fn strip_vis(&self, m: &Module, e: &mut Edits, v: &syn::Visibility, at: usize) {
        match v { syn::Visibility::Inherited => e.ins_before(at, "pub "), syn::Visibility::Public(_) => {}, v => { let (a, b) = m.range(v.span()); e.replace(a, b, "pub"); } }
    }
    fn info(&self, m: &Module, name: &str) -> usize { *self.t.byname[name].iter().find(|&&i| self.t.types[i].module == m.path).unwrap() }
    fn views(&self) -> Views<'a> { let mut v = Views { t: self.t, plain: HashMap::new(), ok: HashMap::new() }; v.compute(); v }
    fn emit_derives(&mut self, m: &Module, name: &str, d: &BTreeSet<String>) {
        let id = self.info(m, name); let v = self.views();
        let mut o = vec![];
        if d.contains("Copy") { o.push("Clone"); o.push("Copy"); }
        if d.contains("PartialEq") && v.plain[&id] { o.push("PartialEq"); if d.contains("Eq") { o.push("Eq"); } }
        if !o.is_empty() { writeln!(self.out, "#[derive({})]", o.join(", ")).unwrap(); }
    }
    fn emit_extra(&mut self, m: &Module, name: &str, d: &BTreeSet<String>) {
        let id = self.info(m, name); let v = self.views(); let ti = &self.t.types[id];
        let lt = if ti.generics { "<'a>" } else { "" };
        if d.contains("PartialEq") && v.plain[&id] { writeln!(self.out, "#[verifier::external] unsafe impl vstd::prelude::Structural for {name} {{ }}").unwrap(); }
        if d.contains("Clone") && !d.contains("Copy") {
            writeln!(self.out, "impl{lt} Clone for {name}{lt} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}").unwrap();
        }
        if d.contains("Default") && v.plain[&id] {
            if let TyKind::Struct(f) = &ti.kind {
                let mut fs = vec![]; let mut sp = vec![]; let mut ok = true;
                for f in f.iter() {
                    let Some(n) = &f.ident else { ok = false; break; };
                    let t = self.default_of(m, &f.ty);
                    match t { Some((x, y)) => { fs.push(format!("{n}: {x}")); sp.push(format!("{n}: {y}")); } None => ok = false }
                }
                if ok {
                    writeln!(self.out, "impl {name} {{ pub open spec fn vx_default() -> {name} {{ {name} {{ {} }} }} }}", sp.join(", ")).unwrap();
                    writeln!(self.out, "impl Default for {name} {{ fn default() -> (r: Self) ensures r == {name}::vx_default() {{ {name} {{ {} }} }} }}", fs.join(", ")).unwrap();
                }
            }
        }
    }
    fn default_of(&self, m: &Module, t: &syn::Type) -> Option<(String, String)> {
        if let syn::Type::Path(p) = t {
            let n = p.path.segments.last()?.ident.to_string();
            if n == "bool" { return Some(("false".into(), "false".into())); }
            if Views::prim(&n) && !n.starts_with('f') { return Some((format!("0{n}"), format!("0{n}"))); }
            let v = self.views(); let id = v.find(&m.path, p.path.segments.last()?)?;
            match &self.t.types[id].kind { TyKind::Alias(a) => return self.default_of(m, &a.clone()), _ => return Some((format!("<{n} as Default>::default()"), format!("{n}::vx_default()"))) }
        }
        None
    }
    fn emit_view(&mut self, m: &Module, name: &str) {
        let v = self.views(); let id = self.info(m, name); let ti = self.t.types[id].clone();
        let lt = if ti.generics { "<'a>" } else { "" };
        if v.plain[&id] {
            writeln!(self.out, "impl crate::vx::Vw for {name} {{ type W = {name}; open spec fn vw(&self) -> {name} {{ *self }} }}").unwrap();
            return;
        }
        if !v.ok[&id] { return; }
        let rec = v.recursive(id);
        let keep = std::mem::take(&mut self.out);
        let ex = |t: &syn::Type, e: &str| if rec { v.rexpr(&ti.module, t, e, 0) } else { v.vexpr(&ti.module, t, e) };
        let vt = |t: &syn::Type| v.vty(&ti.module, t).unwrap();
        let mut body = String::new();
        match &ti.kind {
            TyKind::Struct(f) if f.iter().all(|f| f.ident.is_some()) => {
                let fs: Vec<String> = f.iter().map(|f| format!("pub {}: {}", f.ident.as_ref().unwrap(), vt(&f.ty))).collect();
                writeln!(self.out, "pub ghost struct {name}V {{ {} }}", fs.join(", ")).unwrap();
                let xs: Vec<String> = f.iter().map(|f| { let n = f.ident.as_ref().unwrap(); format!("{n}: {}", ex(&f.ty, &format!("vxs.{n}"))) }).collect();
                write!(body, "{name}V {{ {} }}", xs.join(", ")).unwrap();
            }
            TyKind::Enum(vs) => {
                let mut decl = vec![]; let mut arms = vec![];
                for x in vs {
                    let n = &x.ident;
                    match &x.fields {
                        syn::Fields::Unit => { decl.push(format!("{n}")); arms.push(format!("{name}::{n} => {name}V::{n}")); }
                        syn::Fields::Unnamed(u) => {
                            decl.push(format!("{n}({})", u.unnamed.iter().map(|f| vt(&f.ty)).collect::<Vec<_>>().join(", ")));
                            let vars: Vec<String> = (0..u.unnamed.len()).map(|i| format!("x{i}")).collect();
                            arms.push(format!("{name}::{n}({}) => {name}V::{n}({})", vars.join(", "), u.unnamed.iter().zip(&vars).map(|(f, v)| ex(&f.ty, v)).collect::<Vec<_>>().join(", ")));
                        }
                        syn::Fields::Named(u) => {
                            decl.push(format!("{n} {{ {} }}", u.named.iter().map(|f| format!("{}: {}", f.ident.as_ref().unwrap(), vt(&f.ty))).collect::<Vec<_>>().join(", ")));
                            let vars: Vec<String> = u.named.iter().map(|f| f.ident.as_ref().unwrap().to_string()).collect();
                            arms.push(format!("{name}::{n} {{ {} }} => {name}V::{n} {{ {} }}", vars.join(", "), u.named.iter().zip(&vars).map(|(f, v)| format!("{v}: {}", ex(&f.ty, v))).collect::<Vec<_>>().join(", ")));
                        }
                    }
                }
                writeln!(self.out, "pub ghost enum {name}V {{ {} }}", decl.join(", ")).unwrap();
                write!(body, "match vxs {{ {} }}", arms.join(", ")).unwrap();
            }
            _ => { self.out = keep; return; }
        }
        let dec = if rec { "decreases vxs" } else { "" };
        if rec {
            // Views of recursive types are unfolded by a lemma (see vx_views below)
            let vars = |x: &syn::Fields, n: String| -> (String, String, Vec<(String, String)>) { match x {
                syn::Fields::Unit => (n.clone(), n, vec![]),
                syn::Fields::Unnamed(u) => { let v: Vec<String> = (0..u.unnamed.len()).map(|i| format!("x{i}")).collect();
                    (format!("{n}({})", v.join(", ")), v.iter().map(|x| format!("crate::vx::Vw::vw(&{x})")).collect::<Vec<_>>().join(", "), u.unnamed.iter().zip(v).map(|(f, x)| (ex(&f.ty, &x), format!("crate::vx::Vw::vw(&{x})"))).collect()) }
                syn::Fields::Named(u) => { let v: Vec<String> = u.named.iter().map(|f| f.ident.as_ref().unwrap().to_string()).collect();
                    (format!("{n} {{ {} }}", v.join(", ")), v.iter().map(|x| format!("{x}: crate::vx::Vw::vw(&{x})")).collect::<Vec<_>>().join(", "), u.named.iter().zip(v).map(|(f, x)| (ex(&f.ty, &x), format!("crate::vx::Vw::vw(&{x})"))).collect()) }
            } };
            let mut arms = vec![]; let mut prf = vec![];
            match &ti.kind {
                TyKind::Struct(f) => { let (p, w, eq) = vars(f, name.to_string());
                    arms.push(format!("{p} => {name}V {{ {w} }}"));
                    prf.push(format!("{p} => {{ {} }}", eq.iter().zip(f.iter()).map(|((a, b), f)| if a == b { String::new() } else { format!("assert(vwf_{name}(vxs).{} =~= {b});", f.ident.as_ref().unwrap()) }).collect::<String>())); }
                TyKind::Enum(vs) => for x in vs { let n = &x.ident; let (p, w, eq) = vars(&x.fields, format!("{name}::{n}"));
                    arms.push(match &x.fields { syn::Fields::Unit => format!("{p} => {name}V::{n}"), syn::Fields::Unnamed(_) => format!("{p} => {name}V::{n}({w})"), syn::Fields::Named(_) => format!("{p} => {name}V::{n} {{ {w} }}") });
                    prf.push(format!("{p} => {{ {} }}", eq.iter().enumerate().zip(x.fields.iter()).map(|((i, (a, b)), f)| if a == b { String::new() } else { let sel = f.ident.as_ref().map(|x| x.to_string()).unwrap_or(format!("{n}_{i}")); format!("assert(vwf_{name}(vxs)->{sel} =~= {b});") }).collect::<String>())); },
                _ => {}
            }
            write!(self.viewlemmas, "pub broadcast proof fn vx_view_{name}{lt}(vxs: {name}{lt}) ensures #[trigger] vwf_{name}(vxs) == (match vxs {{ {} }}) {{ match vxs {{ {} }} }}\n", arms.join(", "), prf.join(" ")).unwrap();
            self.viewnames.push(format!("vx_view_{name}"));
        }
        writeln!(self.out, "pub open spec fn vwf_{name}{lt}(vxs: {name}{lt}) -> {name}V {dec} {{ {body} }}").unwrap();
        writeln!(self.out, "impl{lt} crate::vx::Vw for {name}{lt} {{ type W = {name}V; open spec fn vw(&self) -> {name}V {{ vwf_{name}(*self) }} }}").unwrap();
        let t = std::mem::replace(&mut self.out, keep);
        if rec { self.views.push_str(&t); } else { self.out.push_str(&t); }
    }
    fn emit_from_repr(&mut self, m: &Module, s: &syn::ItemEnum) {
        let name = &s.ident;
        let mut repr = "usize".to_string();
        for a in &s.attrs { if a.path().is_ident("repr") { let _ = a.parse_nested_meta(|x| { repr = x.path.get_ident().unwrap().to_string(); Ok(()) }); } }
        let mut arms = vec![]; let mut cur: String = "0".into(); let mut off = 0i64;
        for v in &s.variants {
            if let Some((_, e)) = &v.discriminant { cur = m.text(e.span()).to_string(); off = 0; }
            let disabled = v.attrs.iter().any(|a| a.path().is_ident("strum") && quote::quote!(#a).to_string().contains("disabled"));
            if !disabled {
                let val = match &v.fields {
                    syn::Fields::Unit => format!("{name}::{}", v.ident),
                    syn::Fields::Unnamed(u) => format!("{name}::{}({})", v.ident, u.unnamed.iter().map(|f| self.default_of(m, &f.ty).map(|x| x.0).unwrap_or("Default::default()".into())).collect::<Vec<_>>().join(", ")),
                    syn::Fields::Named(u) => format!("{name}::{} {{ {} }}", v.ident, u.named.iter().map(|f| format!("{}: {}", f.ident.as_ref().unwrap(), self.default_of(m, &f.ty).map(|x| x.0).unwrap_or("Default::default()".into()))).collect::<Vec<_>>().join(", ")),
                };
                arms.push((format!("({cur} + {off})"), val));
            }
            off += 1;
        }
        let body: String = arms.iter().map(|(d, v)| format!("if vxd == {d} {{ Some({v}) }} else ")).collect::<String>() + "{ None }";
        writeln!(self.out, "impl {name} {{ pub open spec fn vx_repr(vxd: {repr}) -> Option<{name}> {{ {body} }}\n pub fn from_repr(vxd: {repr}) -> (r: Option<{name}>) ensures r == {name}::vx_repr(vxd) {{ {body} }} }}").unwrap();
    }
    fn emit_flags(&mut self, f: &FlagsDef) {
        let n = &f.name; let t = &prim_alias(&f.ty);
        writeln!(self.out, "pub use vx_flags_{n}::{n};\npub mod vx_flags_{n} {{ use vstd::prelude::*;").unwrap();
        let all = format!("{}{}", f.flags.iter().fold(0, |a, x| a | x.num), prim_alias(t));
        writeln!(self.out, "#[derive(Clone, Copy, PartialEq, Eq)] pub struct {n} {{ pub vxbits: {t} }}\n#[verifier::external] unsafe impl vstd::prelude::Structural for {n} {{ }}").unwrap();
        writeln!(self.out, "impl crate::vx::Vw for {n} {{ type W = {n}; open spec fn vw(&self) -> {n} {{ *self }} }}").unwrap();
        writeln!(self.out, "impl {n} {{").unwrap();
        for x in &f.flags { writeln!(self.out, "pub const {}: {n} = {n} {{ vxbits: {} }};", x.name, x.val).unwrap(); }
        writeln!(self.out, "pub open spec fn vx_trunc(b: {t}) -> {n} {{ {n} {{ vxbits: b & ({all}) }} }}
 pub open spec fn has(self, o: {n}) -> bool {{ self.vxbits & o.vxbits == o.vxbits }}
 pub fn from_bits_truncate(b: {t}) -> (r: {n}) ensures r == {n}::vx_trunc(b) {{ {n} {{ vxbits: b & ({all}) }} }}
 pub fn from_bits_retain(b: {t}) -> (r: {n}) ensures r.vxbits == b {{ {n} {{ vxbits: b }} }}
 pub fn from_bits(b: {t}) -> (r: Option<{n}>) ensures r == if b & ({all}) == b {{ Some({n} {{ vxbits: b }}) }} else {{ None }} {{ if b & ({all}) == b {{ Some({n} {{ vxbits: b }}) }} else {{ None }} }}
 pub fn empty() -> (r: {n}) ensures r.vxbits == 0 {{ {n} {{ vxbits: 0 }} }}
 pub fn all() -> (r: {n}) ensures r.vxbits == {all} {{ {n} {{ vxbits: {all} }} }}
 pub fn is_empty(&self) -> (r: bool) ensures r == (self.vxbits == 0) {{ self.vxbits == 0 }}
 pub fn insert(&mut self, o: {n}) ensures final(self).vxbits == old(self).vxbits | o.vxbits {{ self.vxbits = self.vxbits | o.vxbits; }}
 pub fn union(self, o: {n}) -> (r: {n}) ensures r.vxbits == self.vxbits | o.vxbits {{ {n} {{ vxbits: self.vxbits | o.vxbits }} }}
 pub fn bits(&self) -> (r: {t}) ensures r == self.vxbits {{ self.vxbits }}
 pub fn vx_contains(&self, o: {n}) -> (r: bool) ensures r == self.has(o) {{ self.vxbits & o.vxbits == o.vxbits }}
 pub fn intersects(&self, o: {n}) -> (r: bool) ensures r == (self.vxbits & o.vxbits != 0) {{ self.vxbits & o.vxbits != 0 }} }}").unwrap();
        let ens: Vec<String> = f.flags.iter().map(|x| format!("({n}::vx_trunc(b).vxbits & ({v}) == ({v})) == (b & ({v}) == ({v}))", v = x.val)).collect();
        let prf: Vec<String> = f.flags.iter().map(|x| format!("assert(((b & ({all})) & ({v}) == ({v})) == (b & ({v}) == ({v}))) by (bit_vector);", v = x.val)).collect();
        writeln!(self.out, "pub broadcast proof fn vx_lemma_{n}(b: {t}) ensures (#[trigger] {n}::vx_trunc(b)).vxbits == b & ({all}), {} {{ {} }}", ens.join(", "), prf.join(" ")).unwrap();
        writeln!(self.out, "}}").unwrap();
    }
    fn emit_impl(&mut self, m: &Module, im: &syn::ItemImpl) {
        let self_ty = m.text(im.self_ty.span()).to_string();
        let self_name = match &*im.self_ty { syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), _ => self_ty.clone() };
        if let Some((_, tr, _)) = &im.trait_ {
            let tn = tr.segments.last().unwrap().ident.to_string();
            match tn.as_str() {
                "From" => {
                    let arg = match &tr.segments.last().unwrap().arguments { syn::PathArguments::AngleBracketed(a) => m.text(a.args.first().unwrap().span()).to_string(), _ => String::new() };
                    for it in &im.items { if let syn::ImplItem::Fn(f) = it {
                        let key = format!("{}::{}::from<{}>", m.path.join("::"), self_name, arg.replace(' ', ""));
                        let c = self.cs.get(&key).cloned().unwrap_or_default();
                        let req = c.req.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(" && ");
                        let ens = c.ens.iter().map(|x| format!("({})", x.1)).collect::<Vec<_>>().join(" && ");
                        let gen = m.text(im.generics.span()).to_string();
                        let fix = |t: String| if t.is_empty() { "true".to_string() } else { t.replace("$0", "vxa").replace("$r", "vxr") };
                        let (req, ens) = (fix(req), fix(ens));
                        writeln!(self.out, "impl{gen} crate::vx::VxFrom<{arg}> for {self_ty} {{ open spec fn from_req(vxa: {arg}) -> bool {{ {req} }} open spec fn from_ens(vxa: {arg}, vxr: Self) -> bool {{ {ens} }}").unwrap();
                        self.emit_fn(m, &key, &f.attrs, None, &f.sig, &f.block, "from");
                        writeln!(self.out, "}}").unwrap();
                    } }
                }
                "Default" => {
                    for it in &im.items { if let syn::ImplItem::Fn(f) = it {
                        writeln!(self.out, "impl Default for {self_ty} {{").unwrap();
                        let key = format!("{}::{}::default", m.path.join("::"), self_name);
                        self.emit_fn(m, &key, &f.attrs, None, &f.sig, &f.block, "");
                        writeln!(self.out, "}}").unwrap();
                    } }
                }
                _ => self.dropped.push(format!("impl {} for {}", tn, self_ty)),
            }
            return;
        }
        let (a, _) = m.range(im.impl_token.span()); let (_, b) = m.range(im.self_ty.span());
        writeln!(self.out, "{} {{", &m.src[a..b]).unwrap();
        for it in &im.items {
            match it {
                syn::ImplItem::Fn(f) => {
                    if is_test(&f.attrs) { continue; }
                    let key = format!("{}::{}::{}", m.path.join("::"), self_name, f.sig.ident);
                    self.emit_fn(m, &key, &f.attrs, Some(&f.vis), &f.sig, &f.block, "");
                }
                other => { let t = m.text(other.span()).to_string(); writeln!(self.out, "{t}").unwrap(); }
            }
        }
        writeln!(self.out, "}}").unwrap();
    }
    fn emit_fn(&mut self, m: &Module, key: &str, _attrs: &[syn::Attribute], vis: Option<&syn::Visibility>, sig: &syn::Signature, block: &syn::Block, special: &str) {
        let has = self.cs.contains_key(key);
        let c = self.cs.get(key).cloned().unwrap_or_default();
        if has { self.used.insert(key.to_string()); }
        // `impl Iterator<Item = T>`: the adapters' shims all return this type
        let mut ret_iter = None;
        if let syn::ReturnType::Type(_, t) = &sig.output { if let syn::Type::ImplTrait(it) = &**t { if let (1, Some(syn::TypeParamBound::Trait(b))) = (it.bounds.len(), it.bounds.first()) {
            let s = b.path.segments.last().unwrap();
            if s.ident == "Iterator" { if let syn::PathArguments::AngleBracketed(a) = &s.arguments { for g in &a.args { if let syn::GenericArgument::AssocType(x) = g { if x.ident == "Item" { ret_iter = Some(m.text(x.ty.span()).to_string()); } } } } }
        } } }
        let ret_impl = ret_iter.is_none() && matches!(&sig.output, syn::ReturnType::Type(_, t) if matches!(&**t, syn::Type::ImplTrait(_)));
        let mut subst = vec![("$r".to_string(), "vxr".to_string())];
        let mut argn = 0;
        for i in sig.inputs.iter() { match i { syn::FnArg::Receiver(_) => {} syn::FnArg::Typed(p) => { subst.push((format!("${argn}"), m.text(pat_core(&p.pat)).trim_start_matches("mut ").to_string())); argn += 1; } } }
        let mut v = FnVisitor { m, t: self.t, c: &c, cs: self.cs, e: Edits::default(), nloop: 0, nclos: 0, ncomb: 0, notes: vec![], calls: BTreeSet::new(), subst: subst.clone(), generic_fns: true, ret_fnptr: None, fnptr_locals: BTreeSet::new(), hits: BTreeSet::new() };
        let sub = |s: &str| { let mut s = s.to_string(); for (k, x) in &subst { s = s.replace(k, x); } s };
        let rt = ret_text(m, sig);
        if self.t.fnptr_alias.contains(&rt) { v.ret_fnptr = Some(3); }
        v.visit_block(block);
        // fn pointer parameters
        for i in sig.inputs.iter() { if let syn::FnArg::Typed(p) = i { if let syn::Type::BareFn(b) = &*p.ty { let (x, _) = m.range(b.span()); let (fx, fy) = m.range(b.fn_token.span()); let _ = x; v.e.replace(fx, fy, "impl Fn"); } if let syn::Type::ImplTrait(_) = &*p.ty {} } }
        let (nloop, nclos) = (v.nloop, v.nclos);
        let mut lost = None;
        if let Some(n) = c.loops.keys().max() { if *n >= nloop { lost = Some(format!("loop {n} not found")); } }
        for (k, a) in &c.anchors { if !v.hits.contains(k) { lost = Some(format!("`{a}` not found")); } }
        if let Some(n) = c.clos.keys().filter(|k| **k < 1000).max() { if *n >= nclos { lost = Some(format!("closure {n} not found")); } }
        if let Some(n) = c.nloops { if n != nloop { lost = Some(format!("{nloop} loops instead of {n}")); } }
        if let Some(n) = c.nclos { if n != nclos { lost = Some(format!("{nclos} closures instead of {n}")); } }
        if let Some(n) = c.combs.keys().filter(|k| **k < 1000).max() { if *n >= v.ncomb { lost = Some(format!("combinator {n} not found")); } }
        // statement anchors: @before/@after TEXT ::> PROOF
        let (bs, be) = (m.range(block.brace_token.span.open()).0, m.range(block.brace_token.span.close()).1);
        {
            struct S<'x> { m: &'x Module, v: Vec<(usize, usize, String)> }
            impl<'x, 'ast> Visit<'ast> for S<'x> { fn visit_stmt(&mut self, s: &'ast syn::Stmt) { let (a, b) = self.m.range(s.span()); let t: String = self.m.src[a..b].split_whitespace().collect::<Vec<_>>().join(" "); self.v.push((a, b, t)); visit::visit_stmt(self, s); } }
            let mut s = S { m, v: vec![] }; s.visit_block(block);
            for (anchor, proof, after) in c.before.iter().map(|x| (&x.0, &x.1, false)).chain(c.after.iter().map(|x| (&x.0, &x.1, true))) {
                let hit: Vec<_> = s.v.iter().filter(|x| x.2.starts_with(anchor.as_str())).collect();
                if hit.is_empty() { lost = Some(format!("statement `{anchor}` not found")); }
                for h in hit.iter().take(1) { if after { v.e.ins_after(h.1, format!("\n{}\n", sub(proof))); } else { v.e.ins_before(h.0, format!("\n{}\n", sub(proof))); } }
            }
        }
        // contract
        let mut spec = String::new();
        if special != "from" {
            if !c.req.is_empty() { spec.push_str("\n requires"); for (l, x) in &c.req { write!(spec, "\n  /*VXC {l}*/ {},", sub(x)).unwrap(); } }
            let mut en = vec![];
            if let Some(p) = &c.p { en.push((String::new(), format!("crate::vx::pmatch({}, vxr)", sub(p)))); }
            for (l, x) in &c.ens { en.push((l.clone(), sub(x))); }
            // reachability check: a symbol no contract says anything about
            if self.canary && !self.undecided.contains(key) { en.push(("canary".into(), format!("crate::vx::vx_canary({})", self.fns.len()))); }
            if !en.is_empty() { spec.push_str("\n ensures"); for (l, x) in &en { write!(spec, "\n  /*VXC {l}*/ {},", x).unwrap(); } }
            if let Some(d) = &c.dec { write!(spec, "\n decreases {}", sub(d)).unwrap(); }
        }
        v.e.ins_before(bs, format!("{spec}\n"));
        if !c.entry.is_empty() { v.e.ins_before(bs + 1, format!("\n{}", sub(&c.entry))); }
        if !c.tail.is_empty() { if let Some(syn::Stmt::Expr(x, None)) = block.stmts.last() { let (a, _) = m.range(x.span()); v.e.ins_before(a, format!("\n{}\n", sub(&c.tail))); } else { v.e.ins_after(be - 1, format!("\n{}\n", sub(&c.tail))); } }
        if let syn::ReturnType::Type(_, t) = &sig.output { if !ret_impl { let (a, b) = m.range(t.span()); if let Some(x) = &ret_iter { v.e.replace(a, b, format!("(vxr: std::vec::IntoIter<{x}>)")); } else { v.e.ins_before(a, "(vxr: "); v.e.ins_after(b, ")"); } } }
        if special == "from" { let (a, b) = m.range(sig.ident.span()); v.e.replace(a, b, "vx_from"); }
        let start = m.range(sig.span()).0;
        let text = v.e.apply(&m.src, start, be);
        // annotations which do not fit any more are left out; the proof may do without
        let undecided = self.undecided.contains(key) || ret_impl;
        if let Some(l) = &lost { self.lost.insert(key.to_string(), l.clone()); }
        let mut attr = c.attr.clone();
        if ret_impl { attr.push_str("#[verifier::external]\n"); } else if undecided { attr.push_str("#[verifier::external_body]\n"); }
        let text = if undecided && !ret_impl { // keep signature and contract, drop the body
            let body_at = text.find("/*VXBODY*/"); let _ = body_at; strip_body(&text)
        } else { text };
        let vis = if vis.is_some() { "pub " } else { "" };
        // functions returning `impl Trait` are outside of the verifier's dialect
        if !ret_impl { writeln!(self.out, "/*VXFN {key}*/\n{attr}{vis}{text}\n/*VXEND*/").unwrap(); }
        let (l0, l1) = (sig.span().start().line, block.brace_token.span.close().end().line);
        let calls: Vec<String> = v.calls.iter().cloned().collect();
        self.fns.insert(key.to_string(), serde_json::json!({
            "file": m.file.to_string_lossy(), "line": l0, "end": l1, "contract": has, "props": c.props, "notes": v.notes, "calls": calls,
            "loops": nloop, "closures": nclos, "external": ret_impl, "undecided": undecided, "lost": lost,
            "text": m.src[start..be].to_string(),
        }));
    }
}
fn strip_body(t: &str) -> String {
    // The contract ends with a newline followed by the body's brace: "\n{"
    match t.find("\n{") { Some(p) => format!("{}\n{{ unimplemented!() }}", &t[..p]), None => t.to_string() }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let src = get("--src").unwrap(); let con = get("--contracts").unwrap(); let out = get("--out").unwrap();
    let undecided: BTreeSet<String> = get("--undecided").map(|s| s.split('|').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()).unwrap_or_default();
    let mut mods = vec![];
    let (cs, modtext) = parse_contracts(Path::new(&con));
    let mut over = HashMap::new();
    load(&Path::new(&src).join("lib.rs"), vec![], &mut mods, &over);
    let mut methods: BTreeMap<String, usize> = BTreeMap::new();
    for m in &mods { for i in &m.ast.items { if let syn::Item::Impl(im) = i { for x in &im.items { if let syn::ImplItem::Fn(f) = x { *methods.entry(f.sig.ident.to_string()).or_default() += 1; } } } } }
    let mut inlined = BTreeSet::new();
    for m in &mods { let others: Vec<&str> = mods.iter().filter(|o| o.file != m.file).map(|o| o.src.as_str()).collect(); let (t, g) = inline::module(m, &cs, &methods, &others); if t != m.src { over.insert(m.file.clone(), t); inlined.extend(g); } }
    if !over.is_empty() { mods.clear(); load(&Path::new(&src).join("lib.rs"), vec![], &mut mods, &over); }
    let mut t = Tables::default();
    for m in &mods {
        for item in &m.ast.items {
            let mut add = |name: String, generics: bool, kind: TyKind, derives: BTreeSet<String>| {
                let id = t.types.len();
                if let TyKind::Enum(vs) = &kind { for v in vs { t.variants.entry(format!("{}::{}", name, v.ident)).or_default().push((id, v.fields.clone())); } }
                t.byname.entry(name.clone()).or_default().push(id);
                t.types.push(TyInfo { module: m.path.clone(), name, generics, kind, derives });
            };
            match item {
                syn::Item::Struct(s) => add(s.ident.to_string(), !s.generics.params.is_empty(), TyKind::Struct(s.fields.clone()), derives(&s.attrs)),
                syn::Item::Enum(s) => add(s.ident.to_string(), !s.generics.params.is_empty(), TyKind::Enum(s.variants.iter().cloned().collect()), derives(&s.attrs)),
                syn::Item::Type(a) => { if let syn::Type::BareFn(_) = &*a.ty { t.fnptr_alias.insert(a.ident.to_string()); } else if a.ident != "ParseResult" { add(a.ident.to_string(), false, TyKind::Alias((*a.ty).clone()), BTreeSet::new()) } }
                syn::Item::Macro(mac) if mac.mac.path.is_ident("bitflags") => for f in parse_bitflags(&mac.mac) { add(f.name.clone(), false, TyKind::Flags, BTreeSet::new()); },
                syn::Item::Fn(f) if !is_test(&f.attrs) => { t.fns.insert(format!("{}::{}", m.path.join("::"), f.sig.ident), FnSig { ret: ret_text(m, &f.sig), module: m.path.clone(), name: f.sig.ident.to_string() }); t.fn_names.insert(f.sig.ident.to_string()); }
                syn::Item::Impl(im) => {
                    if let syn::Type::Path(p) = &*im.self_ty {
                        let n = p.path.segments.last().unwrap().ident.to_string();
                        if let Some((_, tr, _)) = &im.trait_ { if tr.segments.last().unwrap().ident == "From" { t.from_impls.insert(n.clone()); } }
                    }
                }
                _ => {}
            }
        }
    }
    let shim = std::fs::read_to_string(Path::new(&con).join("shim.rs")).unwrap();
    let mut specs = String::new();
    let mut sf: Vec<_> = std::fs::read_dir(&con).unwrap().filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.file_name().unwrap().to_str().unwrap().starts_with("spec_")).collect();
    sf.sort();
    for f in sf { specs.push_str(&std::fs::read_to_string(f).unwrap()); specs.push('\n'); }
    let mut g = Gen { mods: &mods, t: &t, cs: &cs, modtext: &modtext, undecided, canary: args.iter().any(|a| a == "--canary"), out: String::new(), fns: BTreeMap::new(), dropped: vec![], used: BTreeSet::new(), lost: BTreeMap::new(), inlined: BTreeSet::new(), views: String::new(), viewlemmas: String::new(), viewnames: vec![] };
    writeln!(g.out, "#![allow(warnings)]\n#![verifier::loop_isolation(false)]\nuse vstd::prelude::*;\nverus! {{\nglobal size_of usize == 8;\n{shim}\n{specs}").unwrap();
    g.emit_mod(0);
    writeln!(g.out, "}}\nfn main() {{}}").unwrap();
    let missing: Vec<&String> = cs.keys().filter(|k| !g.used.contains(*k)).collect();
    let meta = serde_json::json!({ "fns": g.fns, "dropped": g.dropped, "inlined": inlined, "missing": missing, "lost": g.lost, "modules": mods.iter().map(|m| m.file.to_string_lossy().to_string()).collect::<Vec<_>>() });
    std::fs::write(&out, &g.out).unwrap();
    std::fs::write(format!("{out}.json"), serde_json::to_string_pretty(&meta).unwrap()).unwrap();
}
fn ret_text(m: &Module, s: &syn::Signature) -> String { match &s.output { syn::ReturnType::Type(_, t) => m.text(t.span()).to_string(), _ => "()".into() } }
