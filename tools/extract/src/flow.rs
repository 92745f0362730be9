//! Early returns of an inlined helper become nested branches: what follows a branch moves into the arms which fall through.
use std::collections::HashSet;
use syn::visit::{self, Visit};
use syn::*;
fn returns<T>(f: impl Fn(&mut C) -> T) -> bool { let mut c = C(false, false); f(&mut c); c.0 }
pub struct C(bool, bool);
impl<'ast> Visit<'ast> for C {
    fn visit_expr_return(&mut self, r: &'ast ExprReturn) { self.0 = true; visit::visit_expr_return(self, r); }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_item(&mut self, _: &'ast Item) {}
}
fn ret_e(e: &Expr) -> bool { returns(|c| c.visit_expr(e)) }
fn ret_s(s: &Stmt) -> bool { returns(|c| c.visit_stmt(s)) }
fn binders(f: impl Fn(&mut B)) -> HashSet<String> { let mut b = B(HashSet::new()); f(&mut b); b.0 }
pub struct B(HashSet<String>);
impl<'ast> Visit<'ast> for B { fn visit_pat_ident(&mut self, p: &'ast PatIdent) { let n = p.ident.to_string(); if !n.starts_with(char::is_uppercase) { self.0.insert(n); } visit::visit_pat_ident(self, p); } fn visit_expr(&mut self, _: &'ast Expr) {} }
fn names(ss: &[Stmt]) -> HashSet<String> {
    struct N(HashSet<String>);
    impl<'ast> Visit<'ast> for N { fn visit_ident(&mut self, i: &'ast Ident) { self.0.insert(i.to_string()); } fn visit_macro(&mut self, m: &'ast Macro) { for t in m.tokens.clone() { self.0.insert(t.to_string()); } } }
    let mut n = N(HashSet::new()); for s in ss { n.visit_stmt(s); } n.0
}
fn diverges(ss: &[Stmt]) -> bool { match ss.last() { Some(Stmt::Expr(e, _)) => div_e(e), _ => false } }
fn div_e(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true, Expr::Paren(p) => div_e(&p.expr),
        Expr::Block(b) => diverges(&b.block.stmts),
        Expr::If(i) => diverges(&i.then_branch.stmts) && i.else_branch.as_ref().map(|x| div_e(&x.1)).unwrap_or(false),
        Expr::Match(m) => m.arms.iter().all(|a| div_e(&a.body)),
        _ => false,
    }
}
fn blk(stmts: Vec<Stmt>) -> Block { Block { brace_token: Default::default(), stmts } }
fn stmts_of(e: &Expr) -> Vec<Stmt> { match e { Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(), e => vec![Stmt::Expr(e.clone(), None)] } }
fn bx(b: Block) -> Expr { Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }) }
/// what comes after the value of a branch: nothing (it is the result), or `let PAT = value; rest`, or `value; rest`
enum K<'a> { Tail, Bind(&'a Local, &'a [Stmt]), Then(&'a [Stmt]) }
fn branch(arm: Vec<Stmt>, bound: &HashSet<String>, k: &K) -> Option<Vec<Stmt>> {
    if diverges(&arm) { return seq(&arm); }
    match k {
        K::Tail => seq(&arm),
        K::Bind(l, rest) => {
            let mut arm = arm; let v = match arm.pop() { Some(Stmt::Expr(e, None)) => e, _ => return None };
            let mut b = bound.clone(); b.extend(binders(|b| for s in &arm { b.visit_stmt(s) }));
            let own = binders(|b| b.visit_pat(&l.pat)); let used = names(rest);
            if b.iter().any(|x| used.contains(x) && !own.contains(x)) { return None; }
            let mut l2 = (*l).clone(); l2.init = Some(LocalInit { eq_token: Default::default(), expr: Box::new(v), diverge: None });
            arm.push(Stmt::Local(l2)); arm.extend(rest.to_vec()); seq(&arm)
        }
        K::Then(rest) => {
            let mut b = bound.clone(); b.extend(binders(|b| for s in &arm { b.visit_stmt(s) })); let used = names(rest);
            if b.iter().any(|x| used.contains(x)) { return None; }
            let mut arm = arm; if let Some(Stmt::Expr(_, semi)) = arm.last_mut() { if semi.is_none() { *semi = Some(Default::default()); } }
            arm.extend(rest.to_vec()); seq(&arm)
        }
    }
}
fn value(e: &Expr, k: &K) -> Option<Vec<Stmt>> {
    match e {
        Expr::Paren(p) => value(&p.expr, k),
        Expr::Block(b) if b.label.is_none() => branch(b.block.stmts.clone(), &HashSet::new(), k),
        Expr::If(i) if !ret_e(&i.cond) => {
            let bound = binders(|b| { struct L<'x>(&'x mut B); impl<'ast, 'x> Visit<'ast> for L<'x> { fn visit_expr_let(&mut self, l: &'ast ExprLet) { self.0.visit_pat(&l.pat); visit::visit_expr_let(self, l); } } L(b).visit_expr(&i.cond) });
            let t = branch(i.then_branch.stmts.clone(), &bound, k)?;
            let e = match &i.else_branch { Some((_, x)) => branch(stmts_of(x), &HashSet::new(), k)?, None => match k { K::Tail => vec![], K::Then(r) => seq(r)?, K::Bind(..) => return None } };
            let mut i = i.clone(); i.then_branch = blk(t); i.else_branch = Some((Default::default(), Box::new(bx(blk(e)))));
            Some(vec![Stmt::Expr(Expr::If(i), None)])
        }
        Expr::Match(m) if !ret_e(&m.expr) => {
            let mut m = m.clone();
            for a in m.arms.iter_mut() { let bound = binders(|b| b.visit_pat(&a.pat)); let s = branch(stmts_of(&a.body), &bound, k)?; *a.body = bx(blk(s)); if a.comma.is_none() { a.comma = Some(Default::default()); } }
            Some(vec![Stmt::Expr(Expr::Match(m), None)])
        }
        _ => None,
    }
}
fn seq(ss: &[Stmt]) -> Option<Vec<Stmt>> {
    let mut out = vec![];
    for (i, s) in ss.iter().enumerate() {
        let rest = &ss[i + 1..];
        if !ret_s(s) { out.push(s.clone()); continue; }
        match s {
            Stmt::Expr(Expr::Return(r), _) => { match &r.expr { Some(x) if ret_e(x) => out.extend(value(x, &K::Tail)?), Some(x) => out.push(Stmt::Expr((**x).clone(), None)), None => {} } return Some(out); }
            Stmt::Expr(e, None) if rest.is_empty() => { out.extend(value(e, &K::Tail)?); return Some(out); }
            Stmt::Expr(e, _) => { out.extend(value(e, &K::Then(rest))?); return Some(out); }
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                if let Some((_, d)) = &init.diverge {
                    if ret_e(&init.expr) || !div_e(d) { return None; }
                    let (p, x) = (&l.pat, &init.expr); let r = bx(blk(seq(rest)?)); let d = bx(blk(seq(&stmts_of(d))?));
                    out.push(Stmt::Expr(parse_quote!(match #x { #p => #r, _ => #d }), None)); return Some(out);
                }
                out.extend(value(&init.expr, &K::Bind(l, rest))?); return Some(out);
            }
            _ => return None,
        }
    }
    Some(out)
}
/// The body without `return`s, or None where they cannot be removed (inside loops, conditions, nested expressions).
pub fn unreturn(b: &Block) -> Option<Block> { seq(&b.stmts).map(blk) }

// ---------------------------------------------------------------- loops
fn shallow(e: &Expr) -> bool { matches!(e, Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_)) }
/// plain `break`s of this loop
fn breaks(b: &Block) -> usize { struct V(usize); impl<'ast> Visit<'ast> for V { fn visit_expr(&mut self, e: &'ast Expr) { if let Expr::Break(x) = e { self.0 += if x.label.is_none() && x.expr.is_none() { 1 } else { 100 }; } if !shallow(e) { visit::visit_expr(self, e); } } } let mut v = V(0); v.visit_block(b); v.0 }
fn has_loop(s: &Stmt) -> bool { struct V(bool); impl<'ast> Visit<'ast> for V { fn visit_expr(&mut self, e: &'ast Expr) { if shallow(e) { self.0 = true; } visit::visit_expr(self, e); } fn visit_item(&mut self, _: &'ast Item) { self.0 = true; } } let mut v = V(false); v.visit_stmt(s); v.0 }
fn loops_in(ss: &[Stmt]) -> usize { struct V(usize); impl<'ast> Visit<'ast> for V { fn visit_expr(&mut self, e: &'ast Expr) { if matches!(e, Expr::Loop(_) | Expr::While(_)) { self.0 += 1; } visit::visit_expr(self, e); } } let mut v = V(0); for s in ss { v.visit_stmt(s); } v.0 }
/// `loop { .. break; .. } tail` at the end of a function: the short tail moves to the `break`s. `keep(k)`: loop k has a contract of its own for what holds behind it.
pub fn sink_tail(b: &mut Block, has_out: bool, keep: impl Fn(usize) -> bool) {
    let at = match b.stmts.iter().rposition(|s| matches!(s, Stmt::Expr(Expr::Loop(_), _))) { Some(i) => i, None => return };
    let tail: Vec<Stmt> = b.stmts[at + 1..].to_vec();
    if tail.is_empty() || tail.iter().any(has_loop) || keep(loops_in(&b.stmts[..at])) { return; }
    let n = { use quote::ToTokens; tail.iter().map(|s| s.to_token_stream().to_string().len()).sum::<usize>() }; if n > 400 { return; }
    let used = names(&tail);
    let lp = match &mut b.stmts[at] { Stmt::Expr(Expr::Loop(l), _) if l.label.is_none() => l, _ => return };
    struct P(HashSet<String>); impl<'ast> Visit<'ast> for P { fn visit_pat_ident(&mut self, p: &'ast PatIdent) { self.0.insert(p.ident.to_string()); visit::visit_pat_ident(self, p); } }
    let mut p = P(HashSet::new()); p.visit_block(&lp.body); if p.0.iter().any(|x| used.contains(x)) { return; }
    let k = breaks(&lp.body); if k == 0 || k > 4 { return; }
    let mut t = tail;
    if has_out { match t.pop() { Some(Stmt::Expr(x, None)) => { let d = div_e(&x); t.push(if d { Stmt::Expr(x, None) } else { parse_quote!(return #x;) }); } Some(o) if diverges(std::slice::from_ref(&o)) => t.push(o), _ => return } } else { t.push(parse_quote!(return;)); }
    struct S(Block); impl visit_mut::VisitMut for S { fn visit_expr_mut(&mut self, e: &mut Expr) { if shallow(e) { return; } if matches!(e, Expr::Break(_)) { *e = bx(self.0.clone()); return; } visit_mut::visit_expr_mut(self, e); } }
    let mut s = S(blk(t)); for x in lp.body.stmts.iter_mut() { visit_mut::VisitMut::visit_stmt_mut(&mut s, x); }
    b.stmts.truncate(at + 1);
    if has_out { if let Some(Stmt::Expr(_, semi)) = b.stmts.last_mut() { *semi = None; } }
}
/// Local flags which a loop assigns only on its way out (`x = ..; break`): they are unchanged at its head.
pub fn exit_flags(l: &ExprLoop, locals: &HashSet<String>) -> Vec<String> {
    struct A { all: Vec<String>, out: Vec<String>, bad: HashSet<String> }
    fn target(s: &Stmt) -> Option<String> { match s { Stmt::Expr(Expr::Assign(a), _) => match &*a.left { Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()), _ => None }, _ => None } }
    impl<'ast> Visit<'ast> for A {
        fn visit_block(&mut self, b: &'ast Block) {
            let out = matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Break(_) | Expr::Return(_), _)));
            if out { for s in &b.stmts { if let Some(n) = target(s) { self.out.push(n); } } }
            visit::visit_block(self, b);
        }
        fn visit_expr_assign(&mut self, a: &'ast ExprAssign) { if let Expr::Path(p) = &*a.left { if let Some(i) = p.path.get_ident() { self.all.push(i.to_string()); } } visit::visit_expr_assign(self, a); }
        fn visit_expr_binary(&mut self, b: &'ast ExprBinary) { if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitAndAssign(_)) { if let Expr::Path(p) = &*b.left { if let Some(i) = p.path.get_ident() { self.bad.insert(i.to_string()); } } } visit::visit_expr_binary(self, b); }
        fn visit_expr_reference(&mut self, r: &'ast ExprReference) { if r.mutability.is_some() { if let Expr::Path(p) = &*r.expr { if let Some(i) = p.path.get_ident() { self.bad.insert(i.to_string()); } } } visit::visit_expr_reference(self, r); }
        fn visit_pat_ident(&mut self, p: &'ast PatIdent) { self.bad.insert(p.ident.to_string()); }
        fn visit_expr_loop(&mut self, l: &'ast ExprLoop) { self.inner(&l.body); }
        fn visit_expr_while(&mut self, l: &'ast ExprWhile) { self.inner(&l.body); }
    }
    impl A { fn inner(&mut self, b: &Block) { let mut i = A { all: vec![], out: vec![], bad: HashSet::new() }; i.visit_block(b); self.bad.extend(i.all); self.bad.extend(i.bad); } }
    let mut a = A { all: vec![], out: vec![], bad: HashSet::new() }; a.visit_block(&l.body);
    let mut v: Vec<String> = a.out.iter().filter(|n| locals.contains(*n) && !a.bad.contains(*n) && a.all.iter().filter(|x| x == n).count() == a.out.iter().filter(|x| x == n).count()).cloned().collect(); v.sort(); v.dedup(); v
}
