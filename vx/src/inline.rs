//! Calls of functions without a contract (helpers which a change extracted)
//! are replaced by the body of the function, Rust to Rust: the call
//! `f(a, b)` becomes `{ let x0: T0 = a; let x1: T1 = b; let p0 = x0;
//! let p1 = x1; let r: R = { body }; r }`. Only where this is the same:
//! non-recursive functions of the same module, without type parameters,
//! with plain names as parameters, and where no `return` or `?` of the body
//! would leave the wrong function.
use crate::*;

struct Helper { key: String, name: String, self_ty: Option<String>, recv: Option<String>, params: Vec<(bool, String, String)>, body: String, ret: Option<String>, err: String, has_try: bool, has_return: bool, only_err: bool, flat: Option<String> }

fn no_lifetimes(t: &str) -> String {
    let b: Vec<char> = t.chars().collect(); let mut o = String::new(); let mut i = 0;
    while i < b.len() {
        o.push(b[i]);
        if b[i] == '\'' { let mut j = i + 1; while j < b.len() && (b[j].is_alphanumeric() || b[j] == '_') { j += 1; } if &b[i + 1..j].iter().collect::<String>() == "static" { o.push_str("static"); } else { o.push('_'); } i = j; } else { i += 1; }
    }
    o
}
/// The error type of a Result or Option, by its last path segments.
fn err_of(ret: &str) -> String {
    let r: String = no_lifetimes(ret).split_whitespace().collect();
    if r.starts_with("ParseResult<") { return "Err<ParseError<'_>>".into(); }
    if r.starts_with("Option<") { return "Option".into(); }
    if let Some(x) = r.strip_prefix("Result<") {
        let mut d = 0; let mut at = None;
        for (i, c) in x.char_indices() { match c { '<' | '(' | '[' => d += 1, '>' | ')' | ']' => d -= 1, ',' if d == 0 => at = Some(i), _ => {} } }
        if let Some(i) = at {
            let e = x[i + 1..].strip_suffix('>').unwrap_or("");
            let mut o = String::new(); let mut w = String::new();
            for c in e.chars() { if c.is_alphanumeric() || c == '_' { w.push(c) } else if c == ':' { w.clear() } else { o.push_str(&w); w.clear(); o.push(c) } }
            o.push_str(&w);
            return o;
        }
    }
    format!("?{r}")
}

struct Body { name: String, has_try: bool, has_return: bool, only_err: bool, bad: bool }
impl<'ast> Visit<'ast> for Body {
    fn visit_expr_try(&mut self, e: &'ast syn::ExprTry) { self.has_try = true; visit::visit_expr_try(self, e); }
    fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
        self.has_return = true;
        let err = matches!(r.expr.as_deref(), Some(syn::Expr::Call(c)) if matches!(&*c.func, syn::Expr::Path(p) if p.path.is_ident("Err")));
        self.only_err &= err;
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let mut b = Body { name: self.name.clone(), has_try: false, has_return: false, only_err: true, bad: false };
        b.visit_expr(&c.body); self.bad |= b.bad;
    }
    fn visit_item(&mut self, _: &'ast syn::Item) { self.bad = true; }
    fn visit_path(&mut self, p: &'ast syn::Path) { if p.segments.last().unwrap().ident == self.name.as_str() { self.bad = true; } visit::visit_path(self, p); }
    fn visit_expr_method_call(&mut self, c: &'ast syn::ExprMethodCall) { if c.method == self.name.as_str() { self.bad = true; } visit::visit_expr_method_call(self, c); }
}

/// The statements without `return` and `?` at their top level: `if c {
/// return x; } rest` is `if c { x } else { rest }`, `let p = e?; rest` (of an
/// Option) is `match e { Some(p) => rest, None => None }`.
fn flatten(m: &Module, stmts: &[syn::Stmt], option: bool) -> Option<String> {
    let clean = |b: &dyn Fn(&mut Body)| { let mut x = Body { name: String::new(), has_try: false, has_return: false, only_err: true, bad: false }; b(&mut x); !x.has_try && !x.has_return };
    let tail = |x: &syn::Expr| -> Option<String> { let x = match x { syn::Expr::Return(r) => r.expr.as_deref()?, x => x }; if clean(&|b| b.visit_expr(x)) { Some(m.text(x.span()).to_string()) } else { None } };
    let leave = |b: &syn::Block| -> Option<String> {
        let (last, init) = b.stmts.split_last()?;
        if !init.iter().all(|s| clean(&|b| b.visit_stmt(s))) { return None; }
        let syn::Stmt::Expr(r @ syn::Expr::Return(_), _) = last else { return None };
        let pre: String = init.iter().map(|s| m.text(s.span()).to_string() + " ").collect();
        Some(format!("{{ {pre}{} }}", tail(r)?))
    };
    let Some((s, rest)) = stmts.split_first() else { return Some(String::new()) };
    if rest.is_empty() {
        if let syn::Stmt::Expr(x, semi) = s {
            if semi.is_none() || matches!(x, syn::Expr::Return(_)) {
                if let syn::Expr::If(i) = x { if let Some((_, e)) = &i.else_branch { if clean(&|b| b.visit_expr(&i.cond)) { if let syn::Expr::Block(e) = &**e {
                    return Some(format!("if {} {{ {} }} else {{ {} }}", m.text(i.cond.span()), flatten(m, &i.then_branch.stmts, option)?, flatten(m, &e.block.stmts, option)?));
                } } } }
                return tail(x);
            }
        }
    }
    match s {
        s if clean(&|b| b.visit_stmt(s)) => Some(format!("{} {}", m.text(s.span()), flatten(m, rest, option)?)),
        syn::Stmt::Expr(syn::Expr::If(i), _) if i.else_branch.is_none() && clean(&|b| b.visit_expr(&i.cond)) => Some(format!("if {} {} else {{ {} }}", m.text(i.cond.span()), leave(&i.then_branch)?, flatten(m, rest, option)?)),
        syn::Stmt::Local(l) => {
            let init = l.init.as_ref()?;
            match (&*init.expr, &init.diverge) {
                (syn::Expr::Try(t), None) if option && clean(&|b| b.visit_expr(&t.expr)) => {
                    let (p, ty) = match &l.pat { syn::Pat::Type(t) => (m.text(t.pat.span()), format!(": {}", m.text(t.ty.span()))), p => (m.text(p.span()), String::new()) };
                    Some(format!("match {} {{ Some(vxq) => {{ let {p}{ty} = vxq; {} }}, None => None }}", m.text(t.expr.span()), flatten(m, rest, option)?))
                }
                (x, Some((_, d))) if clean(&|b| b.visit_expr(x)) => {
                    let syn::Expr::Block(d) = &**d else { return None };
                    Some(format!("if let {} = {} {{ {} }} else {}", m.text(l.pat.span()), m.text(x.span()), flatten(m, rest, option)?, leave(&d.block)?))
                }
                _ => None,
            }
        }
        _ => None,
    }
}

fn helper(m: &Module, key: String, sig: &syn::Signature, block: &syn::Block, self_ty: Option<String>) -> Option<Helper> {
    if sig.generics.type_params().next().is_some() || sig.generics.const_params().next().is_some() || sig.asyncness.is_some() || sig.unsafety.is_some() { return None; }
    let mut params = vec![]; let mut recv = None;
    for i in &sig.inputs {
        match i {
            syn::FnArg::Receiver(r) => { if r.colon_token.is_some() || r.mutability.is_some() && r.reference.is_none() { return None; } recv = Some(if r.reference.is_none() { "" } else if r.mutability.is_some() { "&mut " } else { "&" }.to_string()); }
            syn::FnArg::Typed(t) => {
                let syn::Pat::Ident(p) = &*t.pat else { return None };
                if p.by_ref.is_some() || p.subpat.is_some() { return None; }
                let ty = no_lifetimes(m.text(t.ty.span()));
                if ty.contains("impl ") || ty.contains("Self") { return None; }
                params.push((p.mutability.is_some(), p.ident.to_string(), ty));
            }
        }
    }
    let ret = match &sig.output { syn::ReturnType::Type(_, t) => Some(no_lifetimes(m.text(t.span()))), _ => None };
    if ret.as_ref().is_some_and(|r| r.contains("impl ") || r.contains("Self") || r.trim() == "!") { return None; }
    let name = sig.ident.to_string();
    let mut b = Body { name: name.clone(), has_try: false, has_return: false, only_err: true, bad: false };
    b.visit_block(block);
    if b.bad { return None; }
    let (a, e) = m.range(block.span());
    let body = m.src[a + 1..e - 1].to_string();
    if self_ty.is_some() && body.contains("Self") { return None; }
    let flat = if (b.has_try || b.has_return) && ret.is_some() { flatten(m, &block.stmts, ret.as_ref().is_some_and(|r| r.starts_with("Option<"))) } else { None };
    Some(Helper { flat, key, name, self_ty, recv, params, body, err: err_of(ret.as_deref().unwrap_or("")), ret, has_try: b.has_try, has_return: b.has_return, only_err: b.only_err })
}

/// One call to replace: its place and the text for it.
struct Calls<'a> { m: &'a Module, hs: &'a [Helper], method_names: &'a BTreeMap<String, usize>, self_ty: Option<String>, ret: String, err: String, name: String, closures: usize, tried: bool, tail: BTreeSet<(usize, usize)>, found: Option<(usize, usize, String, String)>, n: usize }
impl<'a> Calls<'a> {
    fn mark_tail(&mut self, x: &syn::Expr) {
        match x {
            syn::Expr::Call(_) | syn::Expr::MethodCall(_) => { self.tail.insert(self.m.range(x.span())); }
            syn::Expr::If(i) => { self.mark_block(&i.then_branch); if let Some((_, e)) = &i.else_branch { self.mark_tail(e); } }
            syn::Expr::Block(b) if b.label.is_none() => self.mark_block(&b.block),
            syn::Expr::Match(m) => for a in &m.arms { self.mark_tail(&a.body); },
            syn::Expr::Return(r) => if let Some(x) = &r.expr { self.mark_tail(x); },
            syn::Expr::Paren(p) => self.mark_tail(&p.expr),
            _ => {}
        }
    }
    fn mark_block(&mut self, b: &syn::Block) { if let Some(syn::Stmt::Expr(x, s)) = b.stmts.last() { if s.is_none() || matches!(x, syn::Expr::Return(_)) { self.mark_tail(x); } } }
    fn function(&mut self, m: &'a Module, sig: &syn::Signature, block: &syn::Block) {
        self.ret = match &sig.output { syn::ReturnType::Type(_, t) => no_lifetimes(m.text(t.span())), _ => String::new() };
        self.err = err_of(&self.ret); self.name = sig.ident.to_string(); self.tail.clear(); self.closures = 0;
        self.mark_block(block);
        self.visit_block(block);
    }
    fn fits(&self, h: &Helper, at: (usize, usize), tried: bool) -> bool {
        if !h.has_try && !h.has_return { return true; }
        if self.closures > 0 { return tried && (!h.has_return || h.only_err); }
        if self.tail.contains(&at) && norm(h.ret.as_deref().unwrap_or("")) == norm(&self.ret) { return true; }
        if self.tail.contains(&at) && h.err == self.err && !h.err.starts_with('?') && (!h.has_return || h.only_err) { return true; }
        tried && h.err == self.err && !h.err.starts_with('?') && (!h.has_return || h.only_err)
    }
    /// The body to use here.
    fn body(&self, h: &Helper, at: (usize, usize), tried: bool) -> Option<String> { if self.fits(h, at, tried) { Some(h.body.clone()) } else { h.flat.clone() } }
    fn text(&mut self, h: &Helper, body: &str, args: Vec<String>, recv: Option<String>) -> String {
        let n = self.n; let mut t = "({ ".to_string();
        if let Some(r) = recv { t += &r; }
        for (i, a) in args.iter().enumerate() { t += &format!("let vxi{n}_{i}: {} = {a}; ", h.params[i].2); }
        for (i, p) in h.params.iter().enumerate() { t += &format!("let {}{} = vxi{n}_{i}; ", if p.0 { "mut " } else { "" }, p.1); }
        match &h.ret { Some(r) => t += &format!("let vxr{n}: {r} = {{ {} }}; vxr{n} }})", body), None => t += &format!("{{ {} }} }})", body) }
        t
    }
}
impl<'a, 'ast> Visit<'ast> for Calls<'a> {
    fn visit_attribute(&mut self, _: &'ast syn::Attribute) {}
    fn visit_item(&mut self, _: &'ast syn::Item) {}
    fn visit_macro(&mut self, mac: &'ast syn::Macro) {
        if self.found.is_some() || !mac.path.is_ident("vec") { return; }
        let args = |i: syn::parse::ParseStream| { let mut v = vec![]; while !i.is_empty() { v.push(i.parse::<syn::Expr>()?); if i.peek(syn::Token![;]) { i.parse::<syn::Token![;]>()?; } else if !i.is_empty() { i.parse::<syn::Token![,]>()?; } } Ok(v) };
        if let Ok(v) = mac.parse_body_with(args) { for x in v { Calls::visit_expr(self, Box::leak(Box::new(x))); } }
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) { self.closures += 1; visit::visit_expr_closure(self, c); self.closures -= 1; }
    fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) { if self.closures == 0 { if let Some(x) = &r.expr { self.mark_tail(x); } } visit::visit_expr_return(self, r); }
    fn visit_expr_try(&mut self, t: &'ast syn::ExprTry) { self.tried = true; self.visit_expr(&t.expr); self.tried = false; }
    fn visit_expr(&mut self, x: &'ast syn::Expr) {
        let tried = std::mem::replace(&mut self.tried, false);
        if let syn::Expr::Try(_) = x { visit::visit_expr(self, x); return; }
        visit::visit_expr(self, x); // inner calls first
        if self.found.is_some() { return; }
        let at = self.m.range(x.span());
        let hs = self.hs;
        match x {
            syn::Expr::Call(c) => {
                let syn::Expr::Path(p) = &*c.func else { return };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if p.path.segments.iter().any(|s| !s.arguments.is_none()) { return; }
                let h = hs.iter().find(|h| h.recv.is_none() && h.name == segs[segs.len() - 1] && h.params.len() == c.args.len() && match (&h.self_ty, segs.len()) {
                    (None, 1) => true,
                    (None, 2) => segs[0] == "self",
                    (Some(t), 2) => segs[0] == *t || segs[0] == "Self" && self.self_ty.as_ref() == Some(t),
                    _ => false,
                });
                if let Some(h) = h { if h.name != self.name { let Some(body) = self.body(h, at, tried) else { return };
                    let args = c.args.iter().map(|a| self.m.text(a.span()).to_string()).collect();
                    let t = self.text(h, &body, args, None); self.found = Some((at.0, at.1, t, h.key.clone()));
                } }
            }
            syn::Expr::MethodCall(c) => {
                if c.turbofish.is_some() { return; }
                let n = c.method.to_string();
                let Some(h) = hs.iter().find(|h| h.recv.is_some() && h.name == n && h.params.len() == c.args.len()) else { return };
                if self.method_names.get(&n) != Some(&1) || h.name == self.name { return; }
                let Some(body) = self.body(h, at, tried) else { return };
                let is_self = matches!(&*c.receiver, syn::Expr::Path(p) if p.path.is_ident("self"));
                let kind = h.recv.clone().unwrap();
                let args: Vec<String> = c.args.iter().map(|a| self.m.text(a.span()).to_string()).collect();
                if is_self && self.self_ty == h.self_ty { let t = self.text(h, &body, args, None); self.found = Some((at.0, at.1, t, h.key.clone())); return; }
                if kind == "&mut " { return; }
                // rename self in the body
                let v = format!("vxs{}", self.n);
                let body = rename_self(&body, &v);
                let r = if kind == "&" { format!("let {v}: &{} = &{}; ", h.self_ty.clone().unwrap(), self.m.text(c.receiver.span())) } else { format!("let {v}: {} = {}; ", h.self_ty.clone().unwrap(), self.m.text(c.receiver.span())) };
                let t = self.text(h, &body, args, Some(r)); self.found = Some((at.0, at.1, t, h.key.clone()));
            }
            _ => {}
        }
    }
}
fn rename_self(t: &str, v: &str) -> String {
    let b = t.as_bytes(); let mut o = String::new(); let mut i = 0;
    let w = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    while i < b.len() {
        if t[i..].starts_with("self") && (i == 0 || !w(b[i - 1])) && b.get(i + 4).map_or(true, |c| !w(*c)) { o.push_str(v); i += 4; continue; }
        let c = t[i..].chars().next().unwrap(); o.push(c); i += c.len_utf8();
    }
    o
}
fn self_name(im: &syn::ItemImpl) -> Option<String> { match &*im.self_ty { syn::Type::Path(p) => Some(p.path.segments.last().unwrap().ident.to_string()), _ => None } }

/// Replaces the calls in one module. `all` has the number of functions of
/// the crate with a given name as a method.
pub fn module(m: &Module, contracts: &BTreeMap<String, FnC>, methods: &BTreeMap<String, usize>, others: &[&str]) -> (String, BTreeSet<String>) {
    let mut src = m.src.clone(); let mut gone = BTreeSet::new();
    for n in 0..200 {
        let Ok(ast) = syn::parse_file(&src) else { break };
        let mut line_starts = vec![0];
        for (i, b) in src.bytes().enumerate() { if b == b'\n' { line_starts.push(i + 1); } }
        let cur = Module { path: m.path.clone(), file: m.file.clone(), src: src.clone(), ast: syn::File { shebang: None, attrs: vec![], items: vec![] }, line_starts, children: vec![] };
        let mut hs = vec![];
        for it in &ast.items {
            match it {
                syn::Item::Fn(f) if !is_test(&f.attrs) => { let key = format!("{}::{}", m.path.join("::"), f.sig.ident); if !contracts.contains_key(&key) { hs.extend(helper(&cur, key, &f.sig, &f.block, None)); } }
                syn::Item::Impl(im) if im.trait_.is_none() => if let Some(t) = self_name(im) {
                    if im.generics.type_params().next().is_some() { continue; }
                    for x in &im.items { if let syn::ImplItem::Fn(f) = x { let key = format!("{}::{}::{}", m.path.join("::"), t, f.sig.ident); if !contracts.contains_key(&key) && !is_test(&f.attrs) { hs.extend(helper(&cur, key, &f.sig, &f.block, Some(t.clone()))); } } }
                },
                _ => {}
            }
        }
        if hs.is_empty() { break; }
        let mut c = Calls { m: &cur, hs: &hs, method_names: methods, self_ty: None, ret: String::new(), err: String::new(), name: String::new(), closures: 0, tried: false, tail: BTreeSet::new(), found: None, n };
        for it in &ast.items {
            if c.found.is_some() { break; }
            match it {
                syn::Item::Fn(f) if !is_test(&f.attrs) => { c.self_ty = None; c.function(&cur, &f.sig, &f.block); }
                syn::Item::Impl(im) => { c.self_ty = self_name(im); for x in &im.items { if let syn::ImplItem::Fn(f) = x { if c.found.is_none() { c.function(&cur, &f.sig, &f.block); } } } }
                _ => {}
            }
        }
        let Some((a, b, t, k)) = c.found else { break };
        gone.insert(k);
        src = format!("{}{t}{}", &src[..a], &src[b..]);
    }
    // A private function all calls of which are gone is not part of the
    // program any more.
    for k in &gone {
        let n = k.rsplit("::").next().unwrap().to_string();
        let word = |c: Option<char>| c.is_some_and(|c| c.is_alphanumeric() || c == '_');
        let method = !k.rsplit("::").nth(1).unwrap_or("").starts_with(|c: char| c.is_lowercase());
        // uses of the name; those of a method are called or qualified
        let uses = |t: &str| t.match_indices(n.as_str()).filter(|(i, _)| {
            let (l, r) = (&t[..*i], &t[i + n.len()..]);
            !word(l.chars().next_back()) && !word(r.chars().next()) && (!method || r.trim_start().starts_with('(') || l.trim_end().ends_with("::"))
        }).count();
        if others.iter().any(|t| uses(t) > 0) { continue; }
        let Ok(ast) = syn::parse_file(&src) else { break };
        let mut line_starts = vec![0];
        for (i, b) in src.bytes().enumerate() { if b == b'\n' { line_starts.push(i + 1); } }
        let cur = Module { path: m.path.clone(), file: m.file.clone(), src: src.clone(), ast: syn::File { shebang: None, attrs: vec![], items: vec![] }, line_starts, children: vec![] };
        let private = |v: &syn::Visibility| !matches!(v, syn::Visibility::Public(_));
        let mut at = None;
        for it in &ast.items {
            match it {
                syn::Item::Fn(f) if f.sig.ident == n.as_str() && private(&f.vis) => at = Some(cur.range(f.span())),
                syn::Item::Impl(im) => for x in &im.items { if let syn::ImplItem::Fn(f) = x { if f.sig.ident == n.as_str() && private(&f.vis) { at = Some(cur.range(f.span())); } } },
                _ => {}
            }
        }
        if let Some((a, b)) = at { if uses(&src) == uses(&src[a..b]) { src = format!("{}{}", &src[..a], &src[b..]); } }
    }
    (src, gone)
}
