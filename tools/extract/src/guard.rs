//! Lock guards: `let g = x.lock().unwrap();` (also read / write) owns the protected data as `g.v`; what the guard's Drop does
//! becomes an explicit `g.release(Tracked(w))` at the end of the scope, before every `return` out of it and at `drop(g)`.
//! Guards which are temporaries of a statement are named first and released after the statement.
use quote::{format_ident, quote};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;
fn pe(t: proc_macro2::TokenStream) -> Expr { parse2(t.clone()).unwrap_or_else(|e| panic!("internal: {} in {}", e, t)) }
fn strip(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip(&p.expr), Expr::Group(p) => strip(&p.expr), _ => e } }
fn is_lock(e: &Expr) -> bool { if let Expr::MethodCall(m) = strip(e) { if (m.method == "unwrap" && m.args.is_empty()) || (m.method == "expect" && m.args.len() == 1) { if let Expr::MethodCall(l) = strip(&m.receiver) { return l.args.is_empty() && (l.method == "lock" || l.method == "read" || l.method == "write"); } } } false }
fn acq(e: &Expr) -> Expr { if let Expr::MethodCall(m) = strip(e) { if let Expr::MethodCall(l) = strip(&m.receiver) { let (r, n) = (&l.receiver, format_ident!("acq_{}", l.method)); return pe(quote!(#r.#n())); } } e.clone() }
fn is_name(e: &Expr, n: &str) -> bool { matches!(strip(e), Expr::Path(p) if p.qself.is_none() && p.path.is_ident(n)) }
fn simple(p: &Pat) -> Option<String> { match p { Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => Some(i.ident.to_string()), Pat::Type(t) => simple(&t.pat), _ => None } }
pub struct Guards { pub n: usize, pub err: Option<String> }
/// uses of the guard `g` in its scope
struct Uses<'a> { g: &'a str, err: Option<String>, depth: usize }
impl<'a> VisitMut for Uses<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let g = self.g; let gi = format_ident!("{}", g);
        match e {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && is_name(&u.expr, g) => { *e = pe(quote!(#gi.v)); return; }
            Expr::Reference(r) if is_name(&r.expr, g) => { let m = &r.mutability; *e = pe(quote!(&#m #gi.v)); return; }
            Expr::Field(f) if is_name(&f.base, g) => { if let Member::Named(n) = &f.member { if n == "v" { return; } } f.base = Box::new(pe(quote!(#gi.v))); return; }
            Expr::MethodCall(m) if is_name(&m.receiver, g) => { if m.method != "release" { m.receiver = Box::new(pe(quote!(#gi.v))); } for a in m.args.iter_mut() { self.visit_expr_mut(a); } return; }
            Expr::Call(c) if c.args.len() == 1 && is_name(&c.args[0], g) && matches!(&*c.func, Expr::Path(p) if p.path.segments.last().unwrap().ident == "drop") => { *e = pe(quote!(#gi.release(Tracked(w)))); return; }
            Expr::Return(r) => { if let Some(x) = &mut r.expr { self.visit_expr_mut(x); let x = &*x; *e = pe(quote!({ let rt = #x; #gi.release(Tracked(w)); return rt; })); } else { *e = pe(quote!({ #gi.release(Tracked(w)); return; })); } return; }
            Expr::Try(_) => { self.err = Some("? while a lock is held".into()); return; }
            Expr::Break(_) | Expr::Continue(_) if self.depth == 0 => { self.err = Some("leaving a loop while a lock is held".into()); return; }
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => { self.depth += 1; visit_mut::visit_expr_mut(self, e); self.depth -= 1; return; }
            Expr::Path(_) if is_name(e, g) => { self.err = Some(format!("the lock guard {} escapes", g)); return; }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
/// the first lock taken as a temporary in an expression (not inside nested blocks or closures)
struct Temp { name: Ident, found: Option<Expr>, count: usize }
impl VisitMut for Temp {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Struct(_) = e { return; }
        if is_lock(e) { self.count += 1; if self.found.is_none() { self.found = Some(e.clone()); let n = &self.name; *e = pe(quote!(#n)); } return; }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_block_mut(&mut self, _: &mut Block) {}
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
}
fn has_lock_outside(e: &Expr) -> bool { let mut t = Temp { name: format_ident!("x"), found: None, count: 0 }; t.visit_expr_mut(&mut e.clone()); t.found.is_some() }
struct AnyLock(bool); impl<'ast> Visit<'ast> for AnyLock { fn visit_expr(&mut self, e: &'ast Expr) { if is_lock(e) { self.0 = true; } visit::visit_expr(self, e); } }
impl VisitMut for Guards {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // inner scopes first
        visit_mut::visit_block_mut(self, b);
        let mut todo: std::collections::VecDeque<Stmt> = std::mem::take(&mut b.stmts).into(); let mut out: Vec<Stmt> = vec![];
        while let Some(s) = todo.pop_front() {
            match s {
                Stmt::Local(mut l) => {
                    let g = match (&l.init, simple(&l.pat)) { (Some(i), Some(n)) if is_lock(&i.expr) && i.diverge.is_none() => Some(n), _ => None };
                    if let Some(g) = g {
                        let gi = format_ident!("{}", g); let x = l.init.as_ref().unwrap().expr.clone();
                        let x = acq(&x); out.push(parse_quote!(let mut #gi = #x;));
                        let mut rest = Block { brace_token: Default::default(), stmts: todo.drain(..).collect() };
                        let mut u = Uses { g: &g, err: None, depth: 0 }; for s in rest.stmts.iter_mut() { u.visit_stmt_mut(s); } if u.err.is_some() && self.err.is_none() { self.err = u.err; }
                        // the rest was already searched for inner scopes; handle its own statements
                        self.stmts(&mut rest);
                        let tail = match rest.stmts.last() { Some(Stmt::Expr(_, None)) => rest.stmts.pop(), _ => None };
                        out.extend(rest.stmts);
                        match tail { Some(Stmt::Expr(t, None)) => { self.n += 1; let r = format_ident!("rt{}", self.n); out.push(parse_quote!(let #r = #t;)); out.push(parse_quote!(#gi.release(Tracked(w));)); out.push(Stmt::Expr(pe(quote!(#r)), None)); } _ => out.push(parse_quote!(#gi.release(Tracked(w));)) }
                        continue;
                    }
                    if let Some(i) = &mut l.init { if has_lock_outside(&i.expr) {
                        let gi = self.temp(&mut i.expr); let (g, x) = match gi { Some(x) => x, None => continue };
                        out.push(parse_quote!(let mut #g = #x;)); out.push(Stmt::Local(l)); out.push(parse_quote!(#g.release(Tracked(w));)); continue; } }
                    out.push(Stmt::Local(l));
                }
                Stmt::Expr(mut e, semi) if has_lock_outside(&e) && !is_lock(&e) => {
                    match &e { Expr::If(i) if !matches!(&*i.cond, Expr::Let(_)) => { self.err = Some("a lock in a condition".into()); } Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) => { self.err = Some("a lock in a loop head".into()); } _ => {} }
                    let assign = if let (Expr::Assign(a), Some(_)) = (&mut e, semi) { self.n += 1; let r = format_ident!("rv{}", self.n); let x = (*a.right).clone(); if has_lock_outside(&x) { self.err = Some("locks on both sides of an assignment".into()); } a.right = Box::new(pe(quote!(#r))); Some((r, x)) } else { None };
                    let (g, x) = match self.temp(&mut e) { Some(x) => x, None => continue };
                    if let Some((r, v)) = assign { out.push(parse_quote!(let #r = #v;)); }
                    out.push(parse_quote!(let mut #g = #x;));
                    if semi.is_some() || matches!(&e, Expr::If(i) if i.else_branch.is_none()) { out.push(Stmt::Expr(e, Some(Default::default()))); out.push(parse_quote!(#g.release(Tracked(w));)); }
                    else { self.n += 1; let r = format_ident!("rt{}", self.n); out.push(parse_quote!(let #r = #e;)); out.push(parse_quote!(#g.release(Tracked(w));)); out.push(Stmt::Expr(pe(quote!(#r)), None)); }
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
    }
}
impl Guards {
    fn stmts(&mut self, b: &mut Block) { struct N; let _ = N; let mut inner = Block { brace_token: Default::default(), stmts: std::mem::take(&mut b.stmts) }; self.own(&mut inner); b.stmts = inner.stmts; }
    /// the statements of a block whose inner scopes are done
    fn own(&mut self, b: &mut Block) {
        // statements only: protect nested blocks from a second pass (they contain no lock any more, so it is harmless)
        let mut a = AnyLock(false); a.visit_block(b); if a.0 { self.visit_block_mut(b); }
    }
    fn temp(&mut self, e: &mut Expr) -> Option<(Ident, Expr)> {
        self.n += 1; let g = format_ident!("gd{}", self.n);
        let mut t = Temp { name: g.clone(), found: None, count: 0 }; t.visit_expr_mut(e);
        if t.count != 1 { self.err = Some("several locks in one statement".into()); return None; }
        let mut u = Uses { g: &g.to_string(), err: None, depth: 0 }; u.visit_expr_mut(e); if u.err.is_some() { self.err = u.err; }
        Some((g, acq(&t.found.unwrap())))
    }
}
pub fn run(b: &mut Block) -> Option<String> { let mut g = Guards { n: 0, err: None }; g.visit_block_mut(b); g.err }
