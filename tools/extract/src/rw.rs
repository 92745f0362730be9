//! Rewriting of function bodies into the dialect.  Every rule is listed in /verif/DESIGN.md.
use crate::{find::Source, unit::*, R};
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind { Poll(Box<Kind>), Opt(Box<Kind>), Diff, MapDiff, Val }
use Kind::*;

struct Rw<'a> {
    src: &'a mut Source, f: &'a FnU, types: Vec<String>, contracts: Vec<String>, locals: HashSet<String>, nested: HashMap<String, (Signature, Block)>,
    env: HashMap<String, Kind>, clos: HashMap<String, ExprClosure>, fnvars: HashSet<String>, slices: HashMap<String, (Expr, Option<Expr>, Option<Expr>)>, refs: HashMap<String, bool>, proj: HashSet<String>, n: usize, pn: usize, hn: usize, ninl: usize, err: Option<String>, depth: usize,
}
fn id(s: &str) -> Ident { Ident::new(s, Span::call_site()) }
fn pe(t: TokenStream) -> Expr { parse2(t.clone()).unwrap_or_else(|e| panic!("internal: {} in {}", e, t)) }
fn path1(e: &Expr) -> Option<String> { match e { Expr::Path(p) if p.qself.is_none() && p.path.segments.len() == 1 => Some(p.path.segments[0].ident.to_string()), Expr::Paren(p) => path1(&p.expr), Expr::Group(p) => path1(&p.expr), _ => None } }
fn pathstr(e: &Expr) -> String { match e { Expr::Path(p) => p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::"), _ => String::new() } }
fn is_place(e: &Expr) -> bool { match e { Expr::Path(_) => true, Expr::Field(f) => is_place(&f.base), Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && is_place(&u.expr), Expr::Paren(p) => is_place(&p.expr), Expr::Reference(r) => is_place(&r.expr), _ => false } }
fn strip(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip(&p.expr), Expr::Group(p) => strip(&p.expr), _ => e } }
fn block_of(e: Expr) -> Block { match e { Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => b.block, e => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e, None)] } } }

// ---------------------------------------------------------------- iterator chains
enum Src { Own(Expr), Ref { place: Expr, lo: Option<Expr>, hi: Option<Expr>, mutable: bool }, Range { lo: Expr, hi: Expr } }
enum Ad { Map(Expr), Filter(Expr), FilterMap(Expr), FlatMap(Expr), Enumerate, Rev, Skip(Expr) }
fn range_parts(e: &Expr) -> Option<(Option<Expr>, Option<Expr>)> { match strip(e) { Expr::Range(r) => { let hi = match (&r.end, &r.limits) { (None, _) => None, (Some(e), RangeLimits::HalfOpen(_)) => Some((**e).clone()), (Some(e), _) => { let e = e.clone(); Some(pe(quote!((#e) + 1))) } }; Some((r.start.as_ref().map(|x| (**x).clone()), hi)) } _ => None } }
fn chain(e: &Expr) -> Option<(Src, Vec<Ad>)> {
    match strip(e) {
        Expr::MethodCall(m) => {
            let name = m.method.to_string(); let a: Vec<Expr> = m.args.iter().cloned().collect();
            match (name.as_str(), a.len()) {
                ("into_iter", 0) | ("iter", 0) | ("iter_mut", 0) => {
                    if name == "into_iter" { if let Some(x) = chain(&m.receiver) { return Some(x); } }
                    if let Expr::MethodCall(s) = strip(&m.receiver) { if (s.method == "as_mut_slice" || s.method == "as_slice") && s.args.is_empty() { return Some((Src::Ref { place: (*s.receiver).clone(), lo: None, hi: None, mutable: s.method == "as_mut_slice" }, vec![])); } }
                    if let Expr::Index(ix) = strip(&m.receiver) { if let Some((lo, hi)) = range_parts(&ix.index) { return Some((Src::Ref { place: (*ix.expr).clone(), lo, hi, mutable: name == "iter_mut" }, vec![])); } }
                    if name == "into_iter" { if let Expr::Reference(r) = strip(&m.receiver) { return Some((Src::Ref { place: (*r.expr).clone(), lo: None, hi: None, mutable: r.mutability.is_some() }, vec![])); } Some((Src::Own((*m.receiver).clone()), vec![])) }
                    else { Some((Src::Ref { place: (*m.receiver).clone(), lo: None, hi: None, mutable: name == "iter_mut" }, vec![])) }
                }
                ("drain", 1) if matches!(&a[0], Expr::Range(r) if r.start.is_none() && r.end.is_none()) => { let r = &m.receiver; Some((Src::Own(pe(quote!(#r.v_drain()))), vec![])) }
                ("map", 1) => { let (s, mut v) = chain(&m.receiver)?; v.push(Ad::Map(a[0].clone())); Some((s, v)) }
                ("filter", 1) => { let (s, mut v) = chain(&m.receiver)?; v.push(Ad::Filter(a[0].clone())); Some((s, v)) }
                ("filter_map", 1) => { let (s, mut v) = chain(&m.receiver)?; v.push(Ad::FilterMap(a[0].clone())); Some((s, v)) }
                ("flat_map", 1) => { let (s, mut v) = chain(&m.receiver)?; v.push(Ad::FlatMap(a[0].clone())); Some((s, v)) }
                ("enumerate", 0) => { let (s, mut v) = chain(&m.receiver)?; v.push(Ad::Enumerate); Some((s, v)) }
                ("rev", 0) => { let (s, mut v) = chain(&m.receiver)?; v.push(Ad::Rev); Some((s, v)) }
                ("skip", 1) => { let (s, mut v) = chain(&m.receiver)?; v.push(Ad::Skip(a[0].clone())); Some((s, v)) }
                ("copied", 0) => { let (s, mut v) = chain(&m.receiver)?; v.push(Ad::Map(pe(quote!(|x| *x)))); Some((s, v)) }
                ("cloned", 0) => { let (s, mut v) = chain(&m.receiver)?; v.push(Ad::Map(pe(quote!(|x| x.clone())))); Some((s, v)) }
                _ => None,
            }
        }
        Expr::Range(_) => { let (lo, hi) = range_parts(e)?; Some((Src::Range { lo: lo?, hi: hi? }, vec![])) }
        _ => None,
    }
}

impl<'a> Rw<'a> {
    fn unref(&mut self, a: &mut Arm) { if a.guard.is_some() { return; } let mut u = UnrefPat(vec![]); u.visit_pat_mut(&mut a.pat); if !u.0.is_empty() { let (n, b) = (&u.0, &a.body); a.body = Box::new(pe(quote!({ #(let #n = *#n;)* #b }))); } }
    fn lost<T>(&mut self, s: String) -> Option<T> { if self.err.is_none() { self.err = Some(s); } None }
    /// `x.into_iter()` iterates by reference when `x` is a parameter which is a reference to a slice or a vector.
    fn by_ref(&self, s: Src) -> Src { match s { Src::Own(e) if path1(&e).map(|n| self.refs.contains_key(&n)).unwrap_or(false) => { let mutable = self.refs[&path1(&e).unwrap()]; Src::Ref { place: e, lo: None, hi: None, mutable } }, s => s } }
    fn fresh(&mut self) -> usize { self.n += 1; self.n - 1 }
    fn fresh2(&mut self) -> usize { self.pn += 1; self.pn - 1 }

    /// Application of a closure, a function path or a callback variable to an argument expression.
    fn apply(&mut self, f: &Expr, arg: Expr) -> Expr {
        match strip(f) {
            Expr::Closure(c) if expr_returns(&c.body) && crate::flow::unreturn(&block_of((*c.body).clone())).map(|b| !contains_return(&b)).unwrap_or(false) => { let mut c = c.clone(); let b = crate::flow::unreturn(&block_of((*c.body).clone())).unwrap(); c.body = Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })); self.apply(&Expr::Closure(c), arg) }
            Expr::Closure(c) => { if expr_returns(&c.body) { self.lost::<()>("early return in a closure".into()); } let p = closure_pat(&c.inputs[0]); let b = &c.body; if let Some(n) = pat1(&p) { let k = self.infer(&arg); self.env.insert(n, k); if let (Expr::Path(_), Some(a), false) = (&arg, path1(&arg), has_mut(&p)) { if pat1(&p) == Some(a) { return pe(quote!({ #b })); } } } pe(quote!({ let #p = #arg; #b })) }
            Expr::Path(_) | Expr::Field(_) => { let f = strip(f); if matches!(f, Expr::Field(_)) { pe(quote!((#f)(#arg))) } else { pe(quote!(#f(#arg))) } }
            Expr::Reference(r) => self.apply(&r.expr.clone(), arg),
            _ => { let f = f.clone(); pe(quote!((#f)(#arg))) }
        }
    }
    /// Emits `before; while .. { elem -> sink }`.  `sink` builds the innermost statements from the element expression.
    fn emit_chain(&mut self, s: Src, ads: Vec<Ad>, sink: &mut dyn FnMut(&mut Self, Expr, usize) -> TokenStream) -> (TokenStream, usize) {
        let k = self.fresh();
        let (it, ix, lo, hi) = (format_ident!("it{}", k), format_ident!("ix{}", k), format_ident!("lo{}", k), format_ident!("hi{}", k));
        let rev = matches!(ads.first(), Some(Ad::Rev));
        let mut ads: Vec<Ad> = ads; if rev { ads.remove(0); }
        let mut skip = None; if let Some(Ad::Skip(_)) = ads.first() { if let Ad::Skip(e) = ads.remove(0) { skip = Some(e); } }
        if ads.iter().any(|a| matches!(a, Ad::Rev | Ad::Skip(_))) { self.lost::<()>("rev/skip in the middle of an iterator chain".into()); }
        let s = self.by_ref(s);
        // a map: the keys in order, with a reference to the value at each
        if let Some((place, mutable)) = self.map_place(&s) {
            if rev || skip.is_some() { self.lost::<()>("rev/skip of a map iterator".into()); }
            let ks = format_ident!("ks{}", k); let at = if mutable { quote!(#place.v_at_mut(&#ks[#ix])) } else { quote!(#place.v_at(&#ks[#ix])) };
            let el = format_ident!("el{}", k); let pre = quote!(let #ks = #place.v_keys(); let #hi: usize = #ks.len(); let mut #ix: usize = 0;);
            return self.emit_ads(k, pre, quote!(#ix < #hi), quote!(let #el = (&#ks[#ix], #at); #ix += 1;), el, ads, sink);
        }
        let s = match s { Src::Own(e) if path1(&e).map(|n| self.f.kinds.iter().any(|(a, b)| a == &n && b.trim() == "Range")).unwrap_or(false) => Src::Range { lo: pe(quote!(#e.start)), hi: pe(quote!(#e.end)) }, s => s };
        let s = match s { Src::Own(e) if path1(&e).map(|n| self.slices.contains_key(&n)).unwrap_or(false) => Src::Ref { place: e, lo: None, hi: None, mutable: false }, s => s };
        let s = match s { Src::Ref { place, lo: None, hi: None, mutable } if path1(&place).map(|n| self.slices.contains_key(&n)).unwrap_or(false) => { let (p, l, h) = self.slices[&path1(&place).unwrap()].clone(); Src::Ref { place: p, lo: l, hi: h, mutable } } s => s };
        let mut pre = TokenStream::new(); let (cond, first): (TokenStream, TokenStream); let el = format_ident!("el{}", k);
        match s {
            Src::Own(e) => {
                if skip.is_some() { self.lost::<()>("skip of an owned iterator".into()); }
                if rev { pre.extend(quote!(let mut #it = (#e).v_into_rev();)); } else { pre.extend(quote!(let mut #it = (#e).v_into();)); } cond = quote!(#it.has_next()); first = quote!(let #el = #it.next_some(); __ghost_el!(#k););
            }
            Src::Ref { place, lo: l, hi: h, mutable } => {
                if !is_place(&place) { self.lost::<()>(format!("iteration over a non-place {}", place.to_token_stream())); }
                let place = match &place { Expr::Reference(r) => (*r.expr).clone(), e => e.clone() };
                let (hasr, l2, h2) = (l.is_some() || h.is_some(), l.unwrap_or(pe(quote!(0usize))), h.unwrap_or(pe(quote!(#place.len()))));
                pre.extend(quote!(let #lo: usize = #l2; let #hi: usize = #h2;));
                if hasr { pre.extend(quote!(v_slice_bounds(#lo, #hi, #place.len());)); }
                if let Some(e) = skip { pre.extend(quote!(let #lo: usize = v_skip(#lo, #hi, #e);)); }
                let r = if mutable { quote!(&mut #place[#ix]) } else { quote!(&#place[#ix]) };
                if rev { pre.extend(quote!(let mut #ix = #hi;)); cond = quote!(#ix > #lo); first = quote!(#ix -= 1; let #el = #r;); }
                else { pre.extend(quote!(let mut #ix = #lo;)); cond = quote!(#ix < #hi); first = quote!(let #el = #r; #ix += 1;); }
            }
            Src::Range { lo: l, hi: h } => {
                if skip.is_some() { self.lost::<()>("skip of a range".into()); }
                if rev { pre.extend(quote!(let #lo: usize = #l; let mut #ix: usize = #h;)); cond = quote!(#ix > #lo); first = quote!(#ix -= 1; let #el = #ix;); }
                else { pre.extend(quote!(let mut #ix: usize = #l; let #hi: usize = #h;)); cond = quote!(#ix < #hi); first = quote!(let #el = #ix; #ix += 1;); }
            }
        }
        self.emit_ads(k, pre, cond, first, el, ads, sink)
    }
    fn map_place(&self, s: &Src) -> Option<(Expr, bool)> {
        let (e, m) = match s { Src::Own(e) => (e, true), Src::Ref { place, lo: None, hi: None, mutable } => (place, *mutable), _ => return None };
        let e = match e { Expr::Reference(r) => &*r.expr, e => e };
        let n = match strip(e) { Expr::Field(f) => match &f.member { Member::Named(n) => n.to_string(), _ => return None }, e => path1(e)? };
        if self.f.kinds.iter().any(|(a, b)| a == &n && b.trim() == "Map") { Some((e.clone(), m)) } else { None }
    }
    fn emit_ads(&mut self, k: usize, mut pre: TokenStream, cond: TokenStream, first: TokenStream, el: Ident, ads: Vec<Ad>, sink: &mut dyn FnMut(&mut Self, Expr, usize) -> TokenStream) -> (TokenStream, usize) {
        let en = format_ident!("en{}", k);
        let mut post_sink: Vec<TokenStream> = vec![]; // closers
        let mut open = first; let mut cur: Expr = pe(quote!(#el)); let mut j = 0usize; let mut cell = k;
        for a in ads {
            let v = format_ident!("v{}_{}", k, j); j += 1;
            match a {
                Ad::Map(f) => { let x = self.apply(&f, cur.clone()); open.extend(quote!(let #v = #x;)); cur = pe(quote!(#v)); }
                Ad::Filter(f) => { let x = self.apply(&f, pe(quote!(&#cur))); open.extend(quote!(if #x)); post_sink.push(quote!()); open.extend(quote!(__OPEN)); }
                Ad::FilterMap(f) => { let x = self.apply(&f, cur.clone()); open.extend(quote!(if let Some(#v) = #x)); open.extend(quote!(__OPEN)); post_sink.push(quote!()); cur = pe(quote!(#v)); }
                Ad::FlatMap(f) => { let x = self.apply(&f, cur.clone()); let k2 = self.fresh(); cell = k2; let (i2, e2) = (format_ident!("it{}", k2), format_ident!("el{}", k2)); open.extend(quote!(let mut #i2 = (#x).v_into(); while #i2.has_next())); open.extend(quote!(__OPEN)); open.extend(quote!(let #e2 = #i2.next_some();)); post_sink.push(quote!()); cur = pe(quote!(#e2)); }
                Ad::Enumerate => { pre.extend(quote!(let mut #en: usize = 0;)); open.extend(quote!(let #v = (#en, #cur); #en += 1;)); cur = pe(quote!(#v)); }
                Ad::Rev | Ad::Skip(_) => {}
            }
        }
        let _ = cell;
        let inner = sink(self, cur, k);
        // nest at __OPEN markers
        let toks: Vec<proc_macro2::TokenTree> = open.into_iter().collect();
        let mut parts: Vec<TokenStream> = vec![TokenStream::new()];
        for t in toks { if t.to_string() == "__OPEN" { parts.push(TokenStream::new()); } else { parts.last_mut().unwrap().extend(std::iter::once(t)); } }
        let mut acc = inner; let last = parts.pop().unwrap(); acc = quote!(#last #acc);
        while let Some(p) = parts.pop() { acc = quote!(#p { #acc }); }
        (quote!(#pre while #cond { #acc }), k)
    }

    pub fn infer(&self, e: &Expr) -> Kind {
        match e {
            Expr::Paren(p) => self.infer(&p.expr), Expr::Reference(r) => self.infer(&r.expr), Expr::Group(p) => self.infer(&p.expr),
            Expr::Block(b) => match b.block.stmts.last() { Some(Stmt::Expr(e, None)) => self.infer(e), _ => Val },
            Expr::Path(_) => path1(e).and_then(|n| self.env.get(&n).cloned()).unwrap_or(Val),
            Expr::Call(c) => match pathstr(&c.func).as_str() { "Some" => Opt(Box::new(self.infer(&c.args[0]))), "Poll::Ready" => Poll(Box::new(self.infer(&c.args[0]))), n => self.fnkind(n) },
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "poll_vec_change" | "poll_vec_change_unpin" => Poll(Box::new(Opt(Box::new(Diff)))),
                    "poll_map_change" | "poll_map_change_unpin" => Poll(Box::new(Opt(Box::new(MapDiff)))),
                    "poll_change" | "poll_change_unpin" | "poll_next" | "poll_next_unpin" => Poll(Box::new(Opt(Box::new(Val)))),
                    "as_pin_mut" | "take" | "pop" | "pop_front" | "get" | "get_mut" | "first" | "last" => Opt(Box::new(Val)),
                    "as_mut" | "as_ref" | "clone" => self.infer(&m.receiver),
                    "map" => match (self.infer(&m.receiver), m.args.first()) { (Poll(_), Some(Expr::Closure(c))) => Poll(Box::new(self.infer(&c.body))), (_, Some(Expr::Closure(c))) => Opt(Box::new(self.infer(&c.body))), (k, _) => k },
                    _ => self.fnkind(&n),
                }
            }
            Expr::Match(m) => { for a in &m.arms { let k = self.infer(&a.body); if k != Val { return k; } } Val }
            _ => Val,
        }
    }
    fn fnkind(&self, n: &str) -> Kind { for (a, b) in &self.f.kinds { if a == n { return parse_kind(b); } } Val }
    fn bind(&mut self, p: &Pat, k: Kind) {
        match (p, k) {
            (Pat::Ident(i), k) => { if i.subpat.is_none() { self.env.insert(i.ident.to_string(), k); } }
            (Pat::Reference(r), k) => self.bind(&r.pat, k), (Pat::Paren(r), k) => self.bind(&r.pat, k),
            (Pat::TupleStruct(t), k) => { let n = t.path.segments.last().unwrap().ident.to_string(); let k2 = match (n.as_str(), k) { ("Some", Opt(k)) | ("Ready", Poll(k)) => *k, _ => Val }; if let Some(x) = t.elems.first() { self.bind(x, k2); } }
            (Pat::Or(o), k) => for c in &o.cases { self.bind(c, k.clone()); },
            _ => {}
        }
    }

    fn inline_target(&mut self, e: &Expr) -> Option<(String, Signature, Block, Vec<Expr>)> {
        let mut owner: Option<String> = None;
        let (name, args, recv) = match e {
            Expr::Call(c) => { let p = pathstr(&c.func); let last = p.rsplit("::").next().unwrap_or("").to_string(); let first = p.split("::").next().unwrap_or("").to_string();
                let segs = p.matches("::").count(); if p.is_empty() || segs > 1 || (segs == 1 && first != "Self" && !self.types.contains(&first)) { return None; } if segs == 1 && first != "Self" { owner = Some(first); } (last, c.args.iter().cloned().collect::<Vec<_>>(), None) }
            Expr::MethodCall(m) => (m.method.to_string(), m.args.iter().cloned().collect(), Some((*m.receiver).clone())),
            _ => return None,
        };
        let wanted = self.f.inline.contains(&name);
        if recv.is_some() && !wanted { // methods: only on the own type, called on self/this
            let r = recv.as_ref().unwrap(); let r1 = path1(r).unwrap_or_default();
            // .. or a helper of another struct of the unit, when the name can mean nothing else
            if !["self", "me", "this"].contains(&r1.as_str()) { if COMMON.contains(&name.as_str()) || self.f.methods.iter().any(|m| m.0 == name) || self.f.calls.iter().any(|m| m.0 == name) || self.src.prims.contains(&name) || !self.src.only(&self.f.file, &name, &self.types) { return None; } }
        }
        // a contract: of this very function if the call names its type, of any function of this name otherwise
        if self.contracts.iter().any(|c| { let n = c.rsplit("::").next().map(|x| x.rsplit('/').next().unwrap() == name).unwrap_or(false);
            n && match (&owner, c.rsplit_once("::")) { (Some(o), Some((t, _))) => t == o || t.ends_with(&format!(" for {}", o)), _ => true } }) && !wanted { return None; }
        if self.fnvars.contains(&name) || self.clos.contains_key(&name) { return None; }
        if ["Some", "Ok", "Err", "project", "clone"].contains(&name.as_str()) { return None; }
        let (sig, b) = if let Some(x) = self.nested.get(&name) { x.clone() } else {
            let types = match &owner { Some(o) => vec![o.clone()], None => self.types.iter().filter(|t| !wanted || !["VecDiff", "MapDiff"].contains(&t.as_str())).cloned().collect() }; match self.src.helper(&self.f.file, &name, &types) { Ok(Some((p, s, mut b))) => {
                // in a helper of another type, `Self` is that type
                if let Some((t, _)) = p.rsplit_once("::") { if self.types.first().map(|o| o != t).unwrap_or(true) { struct S(Ident); impl VisitMut for S { fn visit_path_mut(&mut self, p: &mut Path) { if let Some(x) = p.segments.first_mut() { if x.ident == "Self" { x.ident = self.0.clone(); } } visit_mut::visit_path_mut(self, p); } } S(id(t)).visit_block_mut(&mut b); } }
                (s, b) }, _ => return None } };
        let mut all = vec![]; if let Some(r) = recv { all.push(r); } all.extend(args);
        if all.len() != sig.inputs.len() { return None; }
        Some((name, sig, b, all))
    }
    /// Substitutes a call by the callee's body (used for helpers without a contract of their own).
    fn inline(&mut self, sig: Signature, mut b: Block, args: Vec<Expr>) -> Block {
        self.hn += 1; self.ninl += 1; let hn = self.hn;
        Paths.visit_block_mut(&mut b); expand_macros(&mut b, &mut self.err);
        if self.f.opts.iter().any(|x| x == "locks") { if let Some(e) = crate::guard::run(&mut b) { self.lost::<()>(e); } }
        let params: Vec<(String, bool)> = sig.inputs.iter().map(|a| match a { FnArg::Receiver(r) => ("self".to_string(), r.mutability.is_some() && r.reference.is_none()), FnArg::Typed(t) => match pat1(&t.pat) { Some(n) => (n, has_mut(&t.pat)), None => ("_".into(), false) } }).collect();
        // rename colliding binders
        let mut binders = HashSet::new(); { struct B<'x>(&'x mut HashSet<String>); impl<'ast, 'x> Visit<'ast> for B<'x> { fn visit_pat_ident(&mut self, p: &'ast PatIdent) { let n = p.ident.to_string(); if !n.starts_with(char::is_uppercase) { self.0.insert(n); } visit::visit_pat_ident(self, p); } } B(&mut binders).visit_block(&b); }
        for (p, _) in &params { binders.insert(p.clone()); }
        let mut free = HashSet::new(); { struct F<'x>(&'x mut HashSet<String>); impl<'ast, 'x> Visit<'ast> for F<'x> { fn visit_expr_path(&mut self, p: &'ast ExprPath) { if p.path.segments.len() == 1 { self.0.insert(p.path.segments[0].ident.to_string()); } } } let mut f = F(&mut free); for a in &args { f.visit_expr(a); } }
        let mut ren: HashMap<String, String> = HashMap::new();
        for x in &binders { if free.contains(x) { let same = params.iter().position(|p| &p.0 == x).map(|i| path1(&args[i]).as_deref() == Some(x.as_str())).unwrap_or(false); if !same && x != "self" { ren.insert(x.clone(), format!("{}_h{}", x, hn)); } } }
        if params.first().map(|p| p.0 == "self").unwrap_or(false) { let s = strip(&args[0]); if path1(s).as_deref() != Some("self") { ren.insert("self".into(), if is_place(s) && path1(s).is_some() { path1(s).unwrap() } else { format!("me_h{}", hn) }); } }
        for (i, (p, m)) in params.iter().enumerate() { if let (false, Some(n)) = (*m, path1(strip(&args[i]))) { if self.fnvars.contains(&n) && p != "self" { ren.insert(p.clone(), n); } } }
        Rename(&ren).visit_block_mut(&mut b);
        let mut pre: Vec<Stmt> = vec![];
        for (i, (p, m)) in params.iter().enumerate() {
            let a = strip(&args[i]).clone(); let name = ren.get(p).cloned().unwrap_or(p.clone());
            // a method call takes its receiver by reference
            let a = match (&sig.inputs[i], &a) { (FnArg::Receiver(r), Expr::Field(_)) if r.reference.is_some() && is_place(&a) => { let m = &r.mutability; pe(quote!(&#m #a)) } _ => a };
            match &a {
                Expr::Closure(c) => { self.clos.insert(name, c.clone()); }
                Expr::Path(p) if p.path.segments.len() > 1 && p.path.segments.last().unwrap().ident.to_string().starts_with(char::is_lowercase) => { if let Expr::Closure(c) = pe(quote!(|vx| #a(vx))) { self.clos.insert(name, c); } }
                _ if path1(&a).map(|n| n.starts_with(char::is_uppercase)).unwrap_or(false) => { if let Expr::Closure(c) = pe(quote!(|vx| #a(vx))) { self.clos.insert(name, c); } }
                _ if path1(&a).map(|n| self.clos.contains_key(&n)).unwrap_or(false) => { let c = self.clos[&path1(&a).unwrap()].clone(); self.clos.insert(name, c); }
                _ if path1(&a).map(|n| self.fnvars.contains(&n)).unwrap_or(false) => { let n = path1(&a).unwrap(); if n != name { self.fnvars.insert(name.clone()); let (nn, a2) = (id(&name), a.clone()); pre.push(parse_quote!(let #nn = #a2;)); } }
                _ if path1(&a).as_deref() == Some(name.as_str()) && !m => {}
                // a part of a vector: the bounds are evaluated (and checked) here
                Expr::Reference(r) if matches!(strip(&r.expr), Expr::Index(x) if range_parts(&x.index).is_some() && is_place(&x.expr)) => {
                    if let Expr::Index(x) = strip(&r.expr) { let (l, h) = range_parts(&x.index).unwrap(); let place = (*x.expr).clone(); let (ln, hn2) = (format_ident!("sl{}", hn), format_ident!("sh{}", hn));
                        let (l, h) = (l.unwrap_or(pe(quote!(0usize))), h.unwrap_or(pe(quote!(#place.len()))));
                        pre.push(parse_quote!(let #ln: usize = #l;)); pre.push(parse_quote!(let #hn2: usize = #h;));
                        self.slices.insert(name, (place, Some(pe(quote!(#ln))), Some(pe(quote!(#hn2))))); } }
                _ => { if name == "_" { pre.push(parse_quote!(let _ = #a;)); } else { let nn = id(&name); let mm = if *m { quote!(mut) } else { quote!() };
                    let ty = match &sig.inputs[i] { FnArg::Typed(t) if matches!(&*t.ty, Type::Path(p) if p.path.is_ident("usize") || p.path.is_ident("bool")) => { let t = &t.ty; quote!(: #t) } _ => quote!() };
                    // handing on a mutable reference borrows it again
                    let a = match &sig.inputs[i] { FnArg::Typed(t) => match &*t.ty { Type::Reference(r) if r.mutability.is_some() && path1(&a).is_some() && !matches!(&*r.elem, Type::Path(p) if p.path.segments.last().map(|s| s.ident == "Context").unwrap_or(false)) => pe(quote!(&mut *#a)), _ => a }, _ => a };
                    pre.push(parse_quote!(let #mm #nn #ty = #a;)); } }
            }
        }
        b.stmts.retain(|s| { if let Stmt::Item(Item::Fn(f)) = s { self.nested.insert(f.sig.ident.to_string(), (f.sig.clone(), (*f.block).clone())); false } else { true } });
        pre.extend(b.stmts); Block { brace_token: Default::default(), stmts: pre }
    }
}
fn parse_kind(s: &str) -> Kind { let s = s.trim(); if let Some(r) = s.strip_prefix("Poll ") { Poll(Box::new(parse_kind(r))) } else if let Some(r) = s.strip_prefix("Opt ") { Opt(Box::new(parse_kind(r))) } else if s == "Diff" { Diff } else if s == "MapDiff" { MapDiff } else { Val } }
fn closure_pat(p: &Pat) -> Pat { match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() } }
fn pat1(p: &Pat) -> Option<String> { match p { Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => Some(i.ident.to_string()), Pat::Type(t) => pat1(&t.pat), _ => None } }
fn has_mut(p: &Pat) -> bool { match p { Pat::Ident(i) => i.mutability.is_some(), Pat::Type(t) => has_mut(&t.pat), _ => false } }

struct Rename<'x>(&'x HashMap<String, String>);
impl<'x> VisitMut for Rename<'x> {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { if let Some(n) = self.0.get(&p.ident.to_string()) { p.ident = id(n); } visit_mut::visit_pat_ident_mut(self, p); }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { if p.qself.is_none() && p.path.segments.len() == 1 { if let Some(n) = self.0.get(&p.path.segments[0].ident.to_string()) { p.path.segments[0].ident = id(n); } } }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) { if f.colon_token.is_none() { f.colon_token = Some(Default::default()); } visit_mut::visit_field_value_mut(self, f); }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) { if f.colon_token.is_none() { if let Member::Named(n) = &f.member { if self.0.contains_key(&n.to_string()) { f.colon_token = Some(Default::default()); } } } visit_mut::visit_field_pat_mut(self, f); }
}

/// panic-like and simple std macros.
fn expand_macros(b: &mut Block, err: &mut Option<String>) {
    struct M<'x>(&'x mut Option<String>);
    impl<'x> M<'x> { fn ex(&mut self, m: &Macro) -> Option<Expr> {
        let n = m.path.segments.last().unwrap().ident.to_string();
        let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
        Some(match n.as_str() {
            "unreachable" | "panic" | "unimplemented" | "todo" => { pe(quote!(v_unreachable())) }
            "assert" => { let a = args.ok()?; let c = &a[0]; pe(quote!(v_assert(#c))) }
            "debug_assert" => pe(quote!(())),
            // logging only looks at its arguments
            "trace" | "debug" | "info" | "warn" | "error" if m.path.segments.len() == 2 && m.path.segments[0].ident == "log" => pe(quote!(())),
            "assert_eq" | "debug_assert_eq" => { let a = args.ok()?; let (x, y) = (&a[0], &a[1]); if n == "assert_eq" { pe(quote!(v_assert(#x == #y))) } else { pe(quote!(())) } }
            "vec" => { let a = args.ok()?; if a.is_empty() { pe(quote!(Vec::new())) } else { let a: Vec<_> = a.iter().collect(); pe(quote!({ let mut vm = Vec::new(); #(vm.push(#a);)* vm })) } }
            "matches" => { let ts = m.tokens.clone(); struct Mm(Expr, Pat, Option<Expr>); impl parse::Parse for Mm { fn parse(i: parse::ParseStream) -> Result<Self> { let e = i.parse()?; i.parse::<Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(i)?; let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None }; let _ = i.parse::<Option<Token![,]>>(); Ok(Mm(e, p, g)) } } let Mm(e, p, g) = parse2(ts).ok()?; match g { Some(g) => pe(quote!(match #e { #p if #g => true, _ => false })), None => pe(quote!(match #e { #p => true, _ => false })) } }
            "__inv" | "__ghost" | "__ghost_el" => return None,
            _ => { if self.0.is_none() { *self.0 = Some(format!("macro {}!", n)); } return None; }
        }) } }
    impl<'x> VisitMut for M<'x> {
        fn visit_expr_mut(&mut self, e: &mut Expr) { if let Expr::Macro(m) = e { if let Some(x) = self.ex(&m.mac) { *e = x; } } visit_mut::visit_expr_mut(self, e); }
        fn visit_stmt_mut(&mut self, s: &mut Stmt) { if let Stmt::Macro(m) = s { if let Some(x) = self.ex(&m.mac) { *s = Stmt::Expr(x, Some(Default::default())); } } visit_mut::visit_stmt_mut(self, s); }
    }
    M(err).visit_block_mut(b);
}
fn contains_return(b: &Block) -> bool { struct C(bool); impl<'ast> Visit<'ast> for C { fn visit_expr_return(&mut self, _: &'ast ExprReturn) { self.0 = true; } fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {} fn visit_item(&mut self, _: &'ast Item) {} } let mut c = C(false); c.visit_block(b); c.0 }
fn expr_returns(e: &Expr) -> bool { contains_return(&Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e.clone(), None)] }) }
fn contains_try(b: &Block) -> bool { struct C(bool); impl<'ast> Visit<'ast> for C { fn visit_expr_try(&mut self, _: &'ast ExprTry) { self.0 = true; } } let mut c = C(false); c.visit_block(b); c.0 }

// `&x` in a pattern: bind the reference, then copy out of it
struct UnrefPat(Vec<Ident>);
impl VisitMut for UnrefPat { fn visit_pat_mut(&mut self, p: &mut Pat) { if let Pat::Reference(r) = p { if let (Pat::Ident(i), None) = (&*r.pat, &r.mutability) { if i.subpat.is_none() && i.by_ref.is_none() && i.mutability.is_none() { self.0.push(i.ident.clone()); *p = Pat::Ident(i.clone()); return; } } } visit_mut::visit_pat_mut(self, p); } }

impl<'a> VisitMut for Rw<'a> {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Item(i) = s { if !matches!(i, Item::Fn(_) | Item::Use(_)) { self.lost::<()>("nested item".into()); } *s = Stmt::Expr(pe(quote!(())), Some(Default::default())); return; }
        if let Stmt::Expr(Expr::ForLoop(_), semi) = s { if semi.is_none() { *semi = Some(Default::default()); } }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // statement level `for` and `while let`
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Expr(Expr::ForLoop(fl), _) => { if let Some(v) = self.for_loop(fl) { out.extend(v.stmts); } }
                s => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let (Some(n), Some(i)) = (pat1(&l.pat), &l.init) { if matches!(&*i.expr, Expr::MethodCall(m) if m.method == "project") { self.proj.insert(n); } }
        visit_mut::visit_local_mut(self, l);
        if let Some(i) = &l.init { let k = self.infer(&i.expr); let p = closure_pat(&l.pat); self.bind(&p, k); }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.err.is_some() { return; }
        self.depth += 1; if self.depth > 400 { self.lost::<()>("expression nesting".into()); self.depth -= 1; return; }
        self.rules(e);
        match e {
            Expr::Match(m) => { self.visit_expr_mut(&mut m.expr); let k = self.infer(&m.expr); for a in m.arms.iter_mut() { self.unref(a); self.bind(&a.pat.clone(), k.clone()); if let Some((_, g)) = &mut a.guard { self.visit_expr_mut(g); } self.visit_expr_mut(&mut a.body); } }
            Expr::Let(l) => { self.visit_expr_mut(&mut l.expr); let k = self.infer(&l.expr); self.bind(&l.pat.clone(), k); }
            _ => visit_mut::visit_expr_mut(self, e),
        }
        self.depth -= 1;
    }
}
impl<'a> Rw<'a> {
    fn for_loop(&mut self, fl: ExprForLoop) -> Option<Block> {
        if fl.label.is_some() { return self.lost("labelled for loop".into()); }
        let it = strip(&fl.expr).clone();
        let (s, ads) = match chain(&it) { Some(x) => x, None => match &it {
            Expr::Reference(r) if matches!(strip(&r.expr), Expr::Index(x) if range_parts(&x.index).is_some()) => { let ix = match strip(&r.expr) { Expr::Index(x) => x, _ => unreachable!() }; let (lo, hi) = range_parts(&ix.index).unwrap(); (Src::Ref { place: (*ix.expr).clone(), lo, hi, mutable: r.mutability.is_some() }, vec![]) }
            Expr::Reference(r) => (Src::Ref { place: (*r.expr).clone(), lo: None, hi: None, mutable: r.mutability.is_some() }, vec![]), _ => (Src::Own(it.clone()), vec![]) } };
        let (pat, body) = (&fl.pat, &fl.body.stmts);
        let (ts, _) = self.emit_chain(s, ads, &mut |_, el, _| quote!(let #pat = #el; #(#body)*));
        Some(parse2::<Block>(quote!({ #ts })).ok()?)
    }
    fn rules(&mut self, e: &mut Expr) {
        loop {
            let new: Option<Expr> = match e {
                Expr::ForLoop(fl) => { let fl = fl.clone(); match self.for_loop(fl) { Some(b) => Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })), None => return } }
                Expr::While(w) => match strip(&w.cond) { Expr::Let(l) => { let (p, x, b) = (&l.pat, &l.expr, &w.body); Some(pe(quote!(loop { match #x { #p => #b, _ => { break; } } }))) } _ => None },
                // a field of a projection is a reference: comparing it compares what is behind both references
                Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && [&b.left, &b.right].iter().any(|x| matches!(&***x, Expr::Field(f) if path1(&f.base).map(|n| self.proj.contains(&n)).unwrap_or(false))) => { for x in [&mut b.left, &mut b.right] { let y = (**x).clone(); **x = pe(quote!((*#y))); } None }
                Expr::MethodCall(m) => {
                    let n = m.method.to_string(); let na = m.args.len();
                    if let Some((_, g)) = self.f.methods.iter().find(|x| x.0 == n) { let (r, a, g) = (&m.receiver, m.args.iter(), parse_str::<Path>(g).expect("method")); Some(pe(quote!(#g(#r, #(#a),*)))) }
                    // Mutable::replace_with: read, call the closure, write the result
                    else if n == "replace_with" && na == 1 && matches!(strip(&m.args[0]), Expr::Closure(_)) {
                        let (r, mut f) = ((*m.receiver).clone(), strip(&m.args[0]).clone()); let k = self.fresh2(); let (a, b) = (format_ident!("rv{}", k), format_ident!("rn{}", k));
                        if let Expr::Closure(c) = &mut f { if let Some(p) = c.inputs.first().and_then(|p| pat1(&closure_pat(p))) { struct D(String); impl VisitMut for D { fn visit_expr_mut(&mut self, e: &mut Expr) { if let Expr::Unary(u) = e { if matches!(u.op, UnOp::Deref(_)) && path1(&u.expr).as_deref() == Some(&self.0) { let x = (*u.expr).clone(); *e = x; } } visit_mut::visit_expr_mut(self, e); } } D(p).visit_expr_mut(&mut c.body); } }
                        let x = self.apply(&f, pe(quote!(#a))); Some(pe(quote!({ let #a = #r.v_get(); let #b = #x; #r.set(#b) }))) }
                    else if n == "clone" && na == 0 { m.method = id("vclone"); None }
                    else if ["collect", "sum", "count", "position", "rposition", "any", "all", "find", "for_each"].contains(&n.as_str()) && chain(&m.receiver).is_some() { let m = m.clone(); self.consume(&m) }
                    // Vec::retain: take the elements out, ask for each, keep the accepted ones (a sender's log changes, hence &mut)
                    else if n == "retain" && na == 1 && is_place(&m.receiver) && (matches!(strip(&m.args[0]), Expr::Closure(_)) || path1(&m.args[0]).map(|a| self.fnvars.contains(&a) || self.clos.contains_key(&a)).unwrap_or(false)) {
                        let (r, f) = ((*m.receiver).clone(), m.args[0].clone()); let k = self.fresh(); let (it, el, out, kp) = (format_ident!("it{}", k), format_ident!("el{}", k), format_ident!("out{}", k), format_ident!("kp{}", k));
                        let sends = { struct C(bool); impl<'ast> Visit<'ast> for C { fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) { if m.method == "unbounded_send" { self.0 = true; } visit::visit_expr_method_call(self, m); } } let mut c = C(false); c.visit_expr(&f); c.0 };
                        let x = self.apply(&f, if sends { pe(quote!(&mut #el)) } else { pe(quote!(&#el)) });
                        Some(pe(quote!({ let mut #it = #r.v_drain(); let mut #out = Vec::new(); while #it.has_next() { let mut #el = #it.next_some(); __ghost_el!(#k); let #kp: bool = #x; if #kp { #out.push(#el); } } #r.append(&mut #out); }))) }
                    else if n == "drain" && na == 1 { m.method = id("v_drain_range"); None }
                    else if n == "extend" && na == 1 && matches!(path1(&m.args[0]), Some(ref a) if self.refs.get(a) == Some(&false)) { m.method = id("v_extend_ref"); None }
                    else if n == "extend" && na == 1 && chain(&m.args[0]).is_some() { let (s, ads) = chain(&m.args[0]).unwrap(); let r = m.receiver.clone(); let (ts, _) = self.emit_chain(s, ads, &mut |_, el, _| quote!(#r.push(#el);)); Some(pe(quote!({ #ts }))) }
                    else if n == "map" && na == 1 && chain(&m.receiver).is_none() {
                        let k = self.infer(&m.receiver); let (r, f) = ((*m.receiver).clone(), m.args[0].clone());
                        match k {
                            Diff | MapDiff => {
                                let (file, path) = if k == Diff { ("src/signal_vec.rs", "VecDiff::map") } else { ("src/signal_map.rs", "MapDiff::map") };
                                match self.src.find_fn(file, path) { Ok((sig, b)) => { let b = self.inline(sig, b, vec![r, f]); Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })) } Err(x) => { self.lost::<()>(x); return } }
                            }
                            Poll(_) => { let v = format_ident!("po{}", self.fresh2()); let inner = if let Poll(k) = k { *k } else { Val }; self.env.insert(v.to_string(), inner); let b = self.apply(&f, pe(quote!(#v))); Some(pe(quote!(match #r { Poll::Ready(#v) => Poll::Ready(#b), Poll::Pending => Poll::Pending }))) }
                            _ => { let v = format_ident!("op{}", self.fresh2()); let inner = if let Opt(k) = k { *k } else { Val }; self.env.insert(v.to_string(), inner); let b = self.apply(&f, pe(quote!(#v))); Some(pe(quote!(match #r { Some(#v) => Some(#b), None => None }))) }
                        }
                    }
                    else if n == "unwrap_or_else" && na == 1 { let r = &m.receiver; match strip(&m.args[0]) { Expr::Closure(c) if c.inputs.is_empty() => { let b = &c.body; let v = format_ident!("op{}", self.fresh2()); Some(pe(quote!(match #r { Some(#v) => #v, None => #b }))) } Expr::Path(p) => { let v = format_ident!("op{}", self.fresh2()); Some(pe(quote!(match #r { Some(#v) => #v, None => #p() }))) } _ => None } }
                    else if n == "is_ready" && na == 0 { let r = &m.receiver; Some(pe(quote!(match #r { Poll::Ready(_) => true, Poll::Pending => false }))) }
                    else if n == "is_pending" && na == 0 { let r = &m.receiver; Some(pe(quote!(match #r { Poll::Ready(_) => false, Poll::Pending => true }))) }
                    else if n == "then_with" && na == 1 && matches!(strip(&m.args[0]), Expr::Closure(c) if c.inputs.is_empty()) { let r = &m.receiver; let b = match strip(&m.args[0]) { Expr::Closure(c) => &c.body, _ => unreachable!() }; let v = format_ident!("op{}", self.fresh2()); Some(pe(quote!(match #r { Ordering::Equal => #b, #v => #v }))) }
                    else if n == "then" && na == 1 { let (r, b) = (&m.receiver, &m.args[0]); let k = self.fresh2(); let (v, w) = (format_ident!("op{}", k), format_ident!("rn{}", k)); Some(pe(quote!({ let (#v, #w) = (#r, #b); match #v { Ordering::Equal => #w, #v => #v } }))) }
                    else if n == "cmp" && na == 1 { let (r, b) = (&m.receiver, &m.args[0]); Some(pe(quote!(v_cmp(#r, #b)))) }
                    // binary_search_by: the results for all elements must be ordered; the contract of the search is over these
                    else if n == "binary_search_by" && na == 1 && is_place(&m.receiver) {
                        let (r, f) = ((*m.receiver).clone(), m.args[0].clone());
                        let (ts, k) = self.emit_chain(Src::Ref { place: r, lo: None, hi: None, mutable: false }, vec![Ad::Map(f)], &mut |_, el, k| { let o = format_ident!("out{}", k); quote!(#o.push(#el);) }); let o = format_ident!("out{}", k); Some(pe(quote!({ let mut #o: Vec<Ordering> = Vec::new(); #ts v_bsearch(&#o) }))) }
                    // sort_by: the results for all pairs must be a total order; the contract of the sort is over these
                    else if (n == "sort_unstable_by" || n == "sort_by") && na == 1 && is_place(&m.receiver) && matches!(strip(&m.args[0]), Expr::Closure(c) if c.inputs.len() == 2) {
                        let r = (*m.receiver).clone(); let (pa, pb, b) = match strip(&m.args[0]) { Expr::Closure(c) => (closure_pat(&c.inputs[0]), closure_pat(&c.inputs[1]), (*c.body).clone()), _ => unreachable!() };
                        let k = self.fresh(); let (hi, o, ix, jx, row) = (format_ident!("hi{}", k), format_ident!("out{}", k), format_ident!("ix{}", k), format_ident!("jx{}", k), format_ident!("row{}", k)); let stable = n == "sort_by";
                        Some(pe(quote!({ let #hi: usize = #r.len(); let mut #o: Vec<Vec<Ordering>> = Vec::new(); let mut #ix: usize = 0; while #ix < #hi { let mut #row: Vec<Ordering> = Vec::new(); let mut #jx: usize = 0; while #jx < #hi { #row.push({ let #pa = &#r[#ix]; let #pb = &#r[#jx]; #b }); #jx += 1; } #o.push(#row); #ix += 1; } v_sort_by(&mut #r, &#o, #stable) }))) }
                    else if n == "binary_search" && na == 1 { m.method = id("v_binary_search"); None }
                    else if n == "unwrap_err" && na == 0 { let r = &m.receiver; let v = format_ident!("op{}", self.fresh2()); Some(pe(quote!(match #r { Err(#v) => #v, Ok(_) => v_unreachable() }))) }
                    else if n == "expect" && na == 1 { let r = &m.receiver; Some(pe(quote!(#r.unwrap()))) }
                    else if n == "unwrap_or" && na == 1 { let (r, d) = (&m.receiver, &m.args[0]); let v = format_ident!("op{}", self.fresh2()); Some(pe(quote!(match #r { Some(#v) => #v, None => #d }))) }
                    else if n == "and_then" && na == 1 { let v = format_ident!("op{}", self.fresh2()); let (r, f) = ((*m.receiver).clone(), m.args[0].clone()); let b = self.apply(&f, pe(quote!(#v))); Some(pe(quote!(match #r { Some(#v) => #b, None => None }))) }
                    else if n == "map_or" && na == 2 { let v = format_ident!("op{}", self.fresh2()); let (r, d, f) = ((*m.receiver).clone(), m.args[0].clone(), m.args[1].clone()); let b = self.apply(&f, pe(quote!(#v))); Some(pe(quote!(match #r { Some(#v) => #b, None => #d }))) }
                    else { self.try_inline(e) }
                }
                Expr::Call(c) => {
                    let fe = strip(&c.func).clone(); let nm = path1(&fe);
                    { let ps = pathstr(&fe); for (f, t) in [("mem::replace", "replace"), ("mem::swap", "swap"), ("mem::take", "v_mem_take")] { if ps == f || ps == format!("std::{}", f) || ps == format!("core::{}", f) { c.func = Box::new(Expr::Path(ExprPath { attrs: vec![], qself: None, path: id(t).into() })); return; } } }
                    if (pathstr(&fe) == "drop" || pathstr(&fe) == "mem::drop") && c.args.len() == 1 { c.func = Box::new(pe(quote!(v_drop))); return; }
                    if pathstr(&fe).ends_with("Sum::sum") && c.args.len() == 1 { if let Some((s, ads)) = chain(&c.args[0]) { if let (Src::Ref { place, lo: None, hi: None, .. }, true) = (&s, ads.is_empty()) { *e = pe(quote!(v_sum(&*#place))); continue; } } }
                    if let Some(cl) = nm.as_ref().and_then(|n| self.clos.get(n).cloned()) {
                        if cl.inputs.len() == 1 { let a = c.args[0].clone(); Some(self.apply(&Expr::Closure(cl), a)) }
                        else { let ps: Vec<Pat> = cl.inputs.iter().map(closure_pat).collect(); let a: Vec<_> = c.args.iter().collect(); let mut cl = cl; if expr_returns(&cl.body) { match crate::flow::unreturn(&block_of((*cl.body).clone())) { Some(b) if !contains_return(&b) => cl.body = Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })), _ => { self.lost::<()>("early return in a closure".into()); } } }
                            // a reference handed through keeps its name
                            let mut b = (*cl.body).clone(); let mut ren = HashMap::new(); let (mut p2, mut a2) = (vec![], vec![]);
                            for (p, x) in ps.iter().zip(a.iter()) { match (pat1(p), path1(x)) { (Some(p), Some(x)) if x == "self" || x == "me" => { ren.insert(p, x); } _ => { p2.push(p.clone()); a2.push((*x).clone()); } } }
                            if !ren.is_empty() { Rename(&ren).visit_expr_mut(&mut b); }
                            if p2.is_empty() { Some(pe(quote!({ #b }))) } else if p2.len() == 1 { let (p, x) = (&p2[0], &a2[0]); Some(pe(quote!({ let #p = #x; #b }))) } else { Some(pe(quote!({ let (#(#p2),*) = (#(#a2),*); #b }))) } }
                    }
                    else if nm.as_ref().map(|n| self.fnvars.contains(n)).unwrap_or(false) || matches!(&fe, Expr::Field(f) if matches!(&f.member, Member::Named(n) if self.fnvars.contains(&n.to_string()))) {
                        let a = &c.args; Some(pe(quote!(#fe.call_cb(#a)))) }
                    // a callback under another name, or called where it is taken out
                    else if !self.f.fnvars.is_empty() && (matches!(&fe, Expr::MethodCall(_)) || nm.as_ref().map(|n| self.locals.contains(n) && !self.nested.contains_key(n)).unwrap_or(false)) {
                        let a = &c.args; Some(pe(quote!(#fe.call_cb(#a)))) }
                    else { self.try_inline(e) }
                }
                _ => None,
            };
            match new { Some(x) => { *e = x; if self.err.is_some() { return; } } None => return }
        }
    }
    fn try_inline(&mut self, e: &Expr) -> Option<Expr> {
        let (name, sig, b, args) = self.inline_target(e)?;
        let b = if contains_return(&b) { match crate::flow::unreturn(&b) { Some(b) => b, None => return self.lost(format!("call of {} (no contract, has early returns)", name)) } } else { b };
        if contains_try(&b) { return self.lost(format!("call of {} (no contract, has early returns)", name)); }
        if self.hn > 40 { return self.lost("recursive helper".into()); }
        let b = self.inline(sig, b, args);
        Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }))
    }
    fn consume(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let (s, ads) = chain(&m.receiver)?; let s = self.by_ref(s);
        let n = m.method.to_string();
        Some(match n.as_str() {
            "collect" => { let (ts, k) = self.emit_chain(s, ads, &mut |_, el, k| { let o = format_ident!("out{}", k); quote!(#o.push(#el);) }); let o = format_ident!("out{}", k); pe(quote!({ let mut #o = Vec::new(); #ts #o })) }
            "sum" if matches!((&s, ads.is_empty()), (Src::Ref { lo: None, hi: None, .. }, true)) => { match &s { Src::Ref { place, .. } => pe(quote!(v_sum(&*#place))), _ => unreachable!() } }
            "sum" => { let (ts, k) = self.emit_chain(s, ads, &mut |_, el, k| { let o = format_ident!("out{}", k); quote!(#o += #el;) }); let o = format_ident!("out{}", k); pe(quote!({ let mut #o: usize = 0; #ts #o })) }
            "count" => { let (ts, k) = self.emit_chain(s, ads, &mut |_, _, k| { let o = format_ident!("out{}", k); quote!(#o += 1;) }); let o = format_ident!("out{}", k); pe(quote!({ let mut #o: usize = 0; #ts #o })) }
            "for_each" => { let f = m.args[0].clone(); let (ts, _) = self.emit_chain(s, ads, &mut |me, el, _| { let b = me.apply(&f, el); quote!(#b;) }); pe(quote!({ #ts })) }
            "any" | "all" => { let f = m.args[0].clone(); let any = n == "any"; let (ts, k) = self.emit_chain(s, ads, &mut |me, el, k| { let o = format_ident!("out{}", k); let b = me.apply(&f, el); if any { quote!(if #b { #o = true; break; }) } else { quote!(if !(#b) { #o = false; break; }) } }); let o = format_ident!("out{}", k); let init = !any; pe(quote!({ let mut #o: bool = #init; #ts #o })) }
            "find" => { let f = m.args[0].clone(); let (ts, k) = self.emit_chain(s, ads, &mut |me, el, k| { let o = format_ident!("out{}", k); let b = me.apply(&f, pe(quote!(&#el))); quote!(if #b { #o = Some(#el); break; }) }); let o = format_ident!("out{}", k); pe(quote!({ let mut #o = None; #ts #o })) }
            "rposition" if matches!((&s, ads.is_empty()), (Src::Ref { lo: None, hi: None, .. }, true)) => { let f = m.args[0].clone(); let (ts, k) = self.emit_chain(s, vec![Ad::Rev], &mut |me, el, k| { let (o, ix) = (format_ident!("out{}", k), format_ident!("ix{}", k)); let b = me.apply(&f, el); quote!(if #b { #o = Some(#ix); break; }) }); let o = format_ident!("out{}", k); pe(quote!({ let mut #o: Option<usize> = None; #ts #o })) }
            "position" => { let f = m.args[0].clone(); let kk = self.n; let ctr = format_ident!("pos{}", kk); let (ts, k) = self.emit_chain(s, ads, &mut |me, el, k| { let o = format_ident!("out{}", k); let b = me.apply(&f, el); quote!(if #b { #o = Some(#ctr); break; } #ctr += 1;) }); let o = format_ident!("out{}", k); pe(quote!({ let mut #o: Option<usize> = None; let mut #ctr: usize = 0; #ts #o })) }
            _ => return None,
        })
    }
}

// ---------------------------------------------------------------- return / break push-down
#[derive(Clone)]
enum Sink { Ret, Brk(Ident), Unit }
fn diverges(e: &Expr) -> bool { match e { Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) => true, Expr::Loop(l) => !loop_breaks(&l.body), Expr::Call(c) => pathstr(&c.func) == "v_unreachable", Expr::Block(b) => match b.block.stmts.last() { Some(Stmt::Expr(e, _)) => diverges(e), _ => false }, Expr::Paren(p) => diverges(&p.expr), _ => false } }
fn loop_breaks(b: &Block) -> bool { struct C(bool); impl<'ast> Visit<'ast> for C { fn visit_expr_break(&mut self, _: &'ast ExprBreak) { self.0 = true; } fn visit_expr_loop(&mut self, _: &'ast ExprLoop) {} fn visit_expr_while(&mut self, _: &'ast ExprWhile) {} fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {} } let mut c = C(false); for s in &b.stmts { c.visit_stmt(s); } c.0 }
fn ctor(p: &str) -> bool { ["Some", "Ok", "Err", "Poll::Ready"].contains(&p) }
fn branching(e: &Expr) -> bool { match e { Expr::Match(_) | Expr::If(_) | Expr::Block(_) => true, Expr::Paren(p) => branching(&p.expr), Expr::Call(c) => ctor(&pathstr(&c.func)) && c.args.len() == 1 && branching(&c.args[0]), _ => false } }
fn push(e: Expr, s: &Sink, wrap: &[Expr]) -> Expr {
    if diverges(&e) { if let Expr::Return(ExprReturn { expr: Some(x), .. }) = &e { if matches!(s, Sink::Ret) || true { return push((**x).clone(), &Sink::Ret, &[]); } }
        if let Expr::Block(mut b) = e { if let Some(Stmt::Expr(l, semi)) = b.block.stmts.pop() { let l2 = push(l, s, wrap); b.block.stmts.push(Stmt::Expr(l2, semi)); } return Expr::Block(b); }
        return e; }
    match e {
        Expr::Paren(p) => push(*p.expr, s, wrap),
        Expr::Match(mut m) => { for a in m.arms.iter_mut() { let b = std::mem::replace(&mut *a.body, Expr::Verbatim(TokenStream::new())); *a.body = push(b, s, wrap); } Expr::Match(m) }
        Expr::If(mut i) if i.else_branch.is_some() => {
            let b = push(Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() }), s, wrap); i.then_branch = block_of(b);
            let (t, eb) = i.else_branch.take().unwrap(); let x = push(*eb, s, wrap); let x = match x { Expr::Block(_) | Expr::If(_) => x, x => pe(quote!({ #x })) }; i.else_branch = Some((t, Box::new(x))); Expr::If(i) }
        Expr::Block(mut b) if b.label.is_none() => {
            match b.block.stmts.pop() {
                Some(Stmt::Expr(l, None)) => { let x = push(l, s, wrap); b.block.stmts.push(Stmt::Expr(x, None)); Expr::Block(b) }
                Some(o) => { b.block.stmts.push(o); fin(Expr::Block(b), s, wrap) }
                None => fin(Expr::Block(b), s, wrap),
            }
        }
        Expr::Call(c) if ctor(&pathstr(&c.func)) && c.args.len() == 1 && branching(&c.args[0]) => { let mut w = wrap.to_vec(); w.push((*c.func).clone()); push(c.args[0].clone(), s, &w) }
        e => fin(e, s, wrap),
    }
}
fn fin(mut e: Expr, s: &Sink, wrap: &[Expr]) -> Expr {
    for w in wrap.iter().rev() { e = pe(quote!(#w(#e))); }
    match s { Sink::Ret => pe(quote!(return #e)), Sink::Brk(i) => pe(quote!({ #i = #e; break; })), Sink::Unit => pe(quote!({ #e; break; })) }
}
struct PushDown { err: Option<String> }
fn breaks_to(b: &mut Block, i: &Ident) {
    struct V<'x>(&'x Ident);
    impl<'x> VisitMut for V<'x> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Break(ExprBreak { expr: Some(x), label: None, .. }) = e { let x = (**x).clone(); *e = push(x, &Sink::Brk(self.0.clone()), &[]); }
            if let Expr::Loop(_) | Expr::While(_) | Expr::Closure(_) = e { return; }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut v = V(i); for s in b.stmts.iter_mut() { v.visit_stmt_mut(s); }
}
fn has_break_value(b: &Block) -> bool { struct C(bool); impl<'ast> Visit<'ast> for C { fn visit_expr_break(&mut self, b: &'ast ExprBreak) { if b.expr.is_some() { self.0 = true; } } fn visit_expr_loop(&mut self, _: &'ast ExprLoop) {} fn visit_expr_while(&mut self, _: &'ast ExprWhile) {} fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {} } let mut c = C(false); for s in &b.stmts { c.visit_stmt(s); } c.0 }
impl VisitMut for PushDown {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Local(mut l) => {
                    let isl = matches!(&l.init, Some(i) if matches!(&*i.expr, Expr::Loop(x) if has_break_value(&x.body)));
                    if isl {
                        let init = l.init.take().unwrap(); let name = pat1(&l.pat);
                        match (name, *init.expr) { (Some(n), Expr::Loop(mut lp)) => { let n = id(&n); breaks_to(&mut lp.body, &n); out.push(Stmt::Local(l)); out.push(Stmt::Expr(Expr::Loop(lp), Some(Default::default()))); } _ => { self.err = Some("pattern bound to a loop value".into()); } }
                    } else { out.push(Stmt::Local(l)); }
                }
                s => out.push(s),
            }
        }
        b.stmts = out; visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Break(ExprBreak { expr: Some(x), label: None, .. }) = e { let x = (**x).clone(); *e = push(x, &Sink::Unit, &[]); }
        if let Expr::Return(ExprReturn { expr: Some(x), .. }) = e { if branching(x) { let x = (**x).clone(); *e = push(x, &Sink::Ret, &[]); } }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- final markers
struct Mark<'x> { bools: HashMap<String, bool>, flags: HashMap<usize, Vec<String>>, auto: Auto, loops: usize, ghosts: &'x [(String, String)], used: Vec<usize>, calls: &'x [(String, String)], arm: HashMap<String, usize>, lets: HashMap<String, usize> }
impl<'x> Mark<'x> {
    fn find(&mut self, key: &str) -> Option<TokenStream> { let mut o = TokenStream::new(); for (i, (k, _)) in self.ghosts.iter().enumerate() { if k == key { self.used.push(i); o.extend(quote!(__ghost!(#i);)); } } if o.is_empty() { None } else { Some(o) } }
}
fn stmts(t: TokenStream) -> Vec<Stmt> { parse2::<Block>(quote!({ #t })).unwrap().stmts }
impl<'x> VisitMut for Mark<'x> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let lk = self.loops; let is_loop = matches!(&s, Stmt::Expr(Expr::Loop(_) | Expr::While(_), _));
            if is_loop { if let Some(t) = self.find(&format!("before {}", lk)) { out.extend(stmts(t)); } }
            if let Stmt::Expr(Expr::Loop(l), _) = &s { let v = crate::flow::exit_flags(l, &self.bools.keys().cloned().collect()); let v: Vec<String> = v.iter().map(|n| format!("{} == {}", n, self.bools[n])).collect(); if !v.is_empty() { self.flags.insert(lk, v); } }
            if let Stmt::Local(l) = &s { if let (Some(n), Some(i)) = (pat1(&l.pat), &l.init) { if let Expr::Lit(ExprLit { lit: Lit::Bool(x), .. }) = &*i.expr { self.bools.insert(n, x.value); } else { self.bools.remove(&n); } } }
            self.visit_stmt_mut(&mut s);
            let name = if let Stmt::Local(l) = &s { pat1(&l.pat) } else { None };
            out.push(s);
            if is_loop { if let Some(t) = self.find(&format!("after {}", lk)) { out.extend(stmts(t)); } }
            if let Some(n) = name { let c = self.lets.entry(n.clone()).or_insert(0); let c0 = *c; *c += 1; let mut t = self.find(&format!("let {} {}", n, c0)); if t.is_none() && c0 == 0 { t = self.find(&format!("let {}", n)); } if let Some(t) = t { out.extend(stmts(t)); } }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Loop(_) | Expr::While(_) => {
                let k = self.loops; self.loops += 1;
                if let Expr::While(w) = e { self.visit_expr_mut(&mut w.cond); }
                let body = match e { Expr::Loop(l) => &mut l.body, Expr::While(l) => &mut l.body, _ => unreachable!() };
                self.visit_block_mut(body);
                let mut head = quote!(__inv!(#k);); if let Some(t) = self.find(&format!("begin {}", k)) { head.extend(t); }
                let tail = self.find(&format!("end {}", k));
                let old = std::mem::take(&mut body.stmts); body.stmts = stmts(head); body.stmts.extend(old);
                if let Some(t) = &tail {   // the end of the body is also reached by `continue`
                    struct C<'y>(&'y TokenStream); impl<'y> VisitMut for C<'y> { fn visit_expr_loop_mut(&mut self, _: &mut ExprLoop) {} fn visit_expr_while_mut(&mut self, _: &mut ExprWhile) {} fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
                        fn visit_expr_mut(&mut self, e: &mut Expr) { if matches!(e, Expr::Continue(c) if c.label.is_none()) { let t = self.0; *e = pe(quote!({ #t continue; })); return; } visit_mut::visit_expr_mut(self, e); } }
                    C(t).visit_block_mut(body);
                }
                if let Some(t) = tail { if let Some(Stmt::Expr(_, semi)) = body.stmts.last_mut() { if semi.is_none() { *semi = Some(Default::default()); } } body.stmts.extend(stmts(t)); }
                return;
            }
            Expr::Match(m) => {
                if unguard(m, self.calls, &self.auto) { return self.visit_expr_mut(e); }
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    let mut keys = vec![]; { struct P<'y>(&'y mut Vec<String>); impl<'ast, 'y> Visit<'ast> for P<'y> { fn visit_path(&mut self, p: &'ast Path) { self.0.push(p.segments.last().unwrap().ident.to_string()); } fn visit_pat_ident(&mut self, p: &'ast PatIdent) { if p.ident == "None" { self.0.push("None".into()); } } } P(&mut keys).visit_pat(&a.pat); }
                    let key = keys.join("."); let c = self.arm.entry(key.clone()).or_insert(0); let c0 = *c; *c += 1;
                    let mut t = self.find(&format!("arm {} {}", key, c0)); if t.is_none() { t = self.find(&format!("arm {}", key)); }
                    if let Some((_, g)) = &mut a.guard { self.visit_expr_mut(g); }
                    self.visit_expr_mut(&mut a.body);
                    if let Some(t) = t { let b = (*a.body).clone(); let mut blk = block_of(b); let mut v = stmts(t); v.extend(blk.stmts); blk.stmts = v; *a.body = Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk }); }
                }
                return;
            }
            Expr::Assign(a) => { if let Some(n) = path1(&a.left) { self.bools.remove(&n); } }
            Expr::Reference(r) if r.mutability.is_some() => { if let Some(n) = path1(&r.expr) { self.bools.remove(&n); } }
            Expr::MethodCall(m) => { let mut hit = false; for (n, g) in self.calls { if m.method == n.as_str() { hit = true; for g in split_args(g) { m.args.push(g); } } }
                if !hit { if let Some(g) = self.auto.method(m) { m.args.push(pe(quote!(Tracked(#g)))); } } }
            Expr::Call(c) => { let mut hit = false; let p = pathstr(&c.func); for (n, g) in self.calls { if p == *n || p.rsplit("::").next() == Some(n.as_str()) { hit = true; for g in split_args(g) { c.args.push(g); } } }
                if !hit { if let Some(g) = self.auto.path(&p) { c.args.push(pe(quote!(Tracked(#g)))); } } }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// Names of std methods: a helper of this name is not looked up by name alone.
const COMMON: &[&str] = &["new", "from", "into", "clone", "drop", "take", "replace", "swap", "wake", "wake_by_ref", "load", "store", "poll", "deref", "deref_mut", "set", "get", "get_mut", "push", "pop", "insert", "remove", "clear", "len", "is_empty", "iter", "iter_mut", "into_iter", "drain", "retain", "extend", "map", "and_then", "unwrap", "expect", "as_ref", "as_mut", "lock", "read", "write", "upgrade", "downgrade", "as_pin_mut", "project", "first", "last", "contains", "keys", "values", "eq", "cmp", "is_none", "is_some", "is_null", "release", "waker", "split_at", "position", "find", "filter", "collect", "push_back", "push_front", "pop_front", "pop_back", "front", "back", "append", "truncate", "reserve", "unwrap_or", "ok", "err", "compare_exchange", "compare_exchange_weak", "fetch_add", "fetch_sub", "fetch_update", "as_slice", "sort", "reverse", "next", "poll_change", "poll_vec_change", "poll_map_change", "poll_next", "call", "min", "max"];
fn with_flags(inv: String, v: Option<&Vec<String>>) -> String {
    let v = match v { Some(v) => v, None => return inv };
    let x: String = v.iter().map(|n| format!("{}, ", n)).collect();
    match inv.trim_start().strip_prefix("invariant_except_break") { Some(r) => format!("  invariant_except_break {}{}", x, r), None => format!("  invariant_except_break {}\n{}", x, inv) }
}
pub fn ghost_param(h: &str) -> Option<String> {
    let sig = h.split("\n").filter(|l| !l.trim_start().starts_with("#[") && !l.trim_start().starts_with("//")).collect::<Vec<_>>().join(" ");
    let sig = sig.split(" requires ").next().unwrap().split(" ensures ").next().unwrap().to_string();
    if sig.matches("Tracked(").count() != 1 { return None; }
    let r = &sig[sig.find("Tracked(").unwrap() + 8..]; let n = r[..r.find(')')?].trim().to_string(); if r[r.find(')')? + 1..].trim_start().starts_with(": Tracked<&mut") { Some(n) } else { None }
}
/// Ghost arguments of calls the unit file does not mention (an edit moved them here): taken from the callee's contract.
struct Auto { me: String, own: Option<String>, fns: Vec<(String, String, Option<String>)>, prims: Vec<(String, String)> }
impl Auto {
    fn new(f: &FnU, u: &Unit, cs: &[(String, Option<String>)]) -> Auto {
        let split = |p: &str| -> (String, String) { let m = p.split('/').next().unwrap(); match m.rsplit_once("::") { Some((a, b)) => (a.rsplit(' ').next().unwrap().to_string(), b.to_string()), None => (String::new(), m.to_string()) } };
        let prim = |n: &str| n.starts_with("acq_") || n.starts_with("compare_exchange") || n.starts_with("fetch_");
        let prims = u.items.iter().filter_map(|i| if let crate::unit::UItem::Fn(f) = i { Some(f) } else { None }).flat_map(|f| f.calls.iter().filter(|c| prim(&c.0)).cloned()).collect();
        Auto { me: split(&f.path).0, own: ghost_param(&f.header), fns: cs.iter().filter(|c| !c.0.contains('/')).map(|c| { let (t, n) = split(&c.0); (t, n, c.1.clone()) }).collect(), prims }
    }
    fn same(&self, g: &Option<String>) -> Option<Ident> { match (g, &self.own) { (Some(_), Some(o)) => Some(id(o)), _ => None } }
    fn method(&self, m: &ExprMethodCall) -> Option<Ident> {
        let n = m.method.to_string(); let r = path1(&m.receiver).unwrap_or_default();
        if let Some((_, g)) = self.prims.iter().find(|p| p.0 == n) { let g = Some(g.clone()); return self.same(&g); }
        if r == "self" || r == "me" { if let Some(c) = self.fns.iter().find(|c| c.0 == self.me && c.1 == n) { return self.same(&c.2); } }
        if COMMON.contains(&n.as_str()) { return None; }
        let v: Vec<_> = self.fns.iter().filter(|c| c.1 == n).collect(); if !v.is_empty() && v.iter().all(|c| c.2.is_some()) { return self.same(&v[0].2); }
        None
    }
    fn path(&self, p: &str) -> Option<Ident> {
        let (t, n) = match p.rsplit_once("::") { Some((t, n)) => (if t == "Self" { self.me.clone() } else { t.to_string() }, n.to_string()), None => (String::new(), p.to_string()) };
        self.fns.iter().find(|c| c.0 == t && c.1 == n).and_then(|c| self.same(&c.2))
    }
}
/// `P if g => A, _ => B` becomes `P => if g { A } else { B }, _ => B` when g has an effect on the ghost state.
fn unguard(m: &mut ExprMatch, calls: &[(String, String)], auto: &Auto) -> bool {
    struct G<'x>(&'x [(String, String)], &'x Auto, bool);
    impl<'ast, 'x> Visit<'ast> for G<'x> { fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) { if self.0.iter().any(|c| m.method == c.0) || self.1.method(m).is_some() { self.2 = true; } visit::visit_expr_method_call(self, m); } }
    let n = m.arms.len(); if n < 2 { return false; }
    let last = &m.arms[n - 1]; if last.guard.is_some() || !matches!(last.pat, Pat::Wild(_)) { return false; }
    let (k, other) = (n - 2, (*last.body).clone());
    let g = match &m.arms[k].guard { Some((_, g)) => (**g).clone(), None => return false };
    let mut v = G(calls, auto, false); v.visit_expr(&g); if !v.2 { return false; }
    let a = (*m.arms[k].body).clone(); m.arms[k].guard = None; *m.arms[k].body = pe(quote!(if #g { #a } else { #other })); if m.arms[k].comma.is_none() { m.arms[k].comma = Some(Default::default()); }
    true
}
fn all_binders(b: &Block) -> HashSet<String> { struct B(HashSet<String>); impl<'ast> Visit<'ast> for B { fn visit_pat_ident(&mut self, p: &'ast PatIdent) { let n = p.ident.to_string(); if !n.starts_with(char::is_uppercase) { self.0.insert(n); } visit::visit_pat_ident(self, p); } } let mut x = B(HashSet::new()); x.visit_block(b); x.0 }
fn split_args(g: &str) -> Vec<Expr> { use syn::parse::Parser; punctuated::Punctuated::<Expr, Token![,]>::parse_terminated.parse_str(g).expect("ghost args").into_iter().collect() }
// a field reached through Pin's Deref/DerefMut
struct PinDeref(HashSet<String>); impl VisitMut for PinDeref { fn visit_expr_unary_mut(&mut self, u: &mut ExprUnary) { if let (UnOp::Deref(_), Some(n)) = (&u.op, path1(&u.expr)) { if n == "me" && self.0.contains(&n) { let n = id(&n); u.expr = Box::new(pe(quote!(#n.pointer))); return; } } visit_mut::visit_expr_unary_mut(self, u); } fn visit_expr_field_mut(&mut self, f: &mut ExprField) { if let Some(n) = path1(&f.base) { if self.0.contains(&n) { let n = id(&n); if f.member.to_token_stream().to_string() != "pointer" { f.base = Box::new(pe(quote!(#n.pointer))); } return; } } visit_mut::visit_expr_field_mut(self, f); } }
// the locals which a projection binds to pinned fields
fn pinned_locals(b: &Block, src: &mut Source, u: &Unit) -> HashSet<String> {
    let mut pins = HashSet::new();
    for i in &u.items { if let crate::unit::UItem::Struct(s) = i { if let Ok(st) = src.find_struct(&s.file, &s.name) { for f in &st.fields { if f.attrs.iter().any(|a| a.path().is_ident("pin")) { pins.insert((format!("{}Proj", s.name), f.ident.as_ref().unwrap().to_string())); } } } } }
    struct L<'x>(&'x HashSet<(String, String)>, HashSet<String>);
    impl<'ast, 'x> Visit<'ast> for L<'x> { fn visit_pat_struct(&mut self, p: &'ast PatStruct) { let n = p.path.segments.last().unwrap().ident.to_string(); for f in &p.fields { if let (Member::Named(m), Some(v)) = (&f.member, pat1(&f.pat)) { if self.0.contains(&(n.clone(), m.to_string())) { self.1.insert(v); } } } } }
    let mut l = L(&pins, HashSet::new()); l.visit_block(b); l.1
}
/// The list which a chain collects is called `outK`; where a `for` loop pushes to a list of its own, the invariant speaks about that one.
fn with_output(inv: String, k: usize, t: &str, at: usize) -> String {
    let o = format!("out{}", k);
    if !inv.contains(&o) || t.contains(&format!("let mut {}", o)) { return inv; }
    let word = |c: char| c.is_alphanumeric() || c == '_';
    let (mut best, list) = (None, inv.contains(&format!("{}@", o)));
    for (i, _) in t[..at].match_indices("let mut ") {
        let n: String = t[i + 8..].chars().take_while(|c| word(*c)).collect(); let rest = &t[i + 8 + n.len()..]; let stmt = &rest[..rest.find(';').unwrap_or(0)];
        if ["en", "ix", "pos", "lo", "hi", "it"].iter().any(|x| n.strip_prefix(x).map(|r| r.chars().all(|c| c.is_ascii_digit())).unwrap_or(false)) { continue; }
        let eq = match stmt.find('=') { Some(e) => stmt[e + 1..].trim_start(), None => continue };
        let push = format!("{}.push(", n); let uses = t[at..].matches(&push).count();
        if list && uses == 1 && (eq.starts_with("Vec::new") || eq.starts_with("Vec::with_capacity")) { best = Some(n.clone()); }
        if !list && eq == "0" && (t[at..].contains(&format!("{} += 1", n)) || t[at..].contains(&format!("{} = {} + 1", n, n))) { best = Some(n); }
    }
    let n = match best { Some(n) => n, None => return inv };
    let mut r = String::new(); let mut s = inv.as_str();
    while let Some(i) = s.find(&o) {
        let e = i + o.len(); let whole = !s[..i].chars().last().map(word).unwrap_or(false) && !s[e..].chars().next().map(word).unwrap_or(false);
        r.push_str(&s[..i]); r.push_str(if whole { &n } else { &o }); s = &s[e..];
    }
    r.push_str(s); r
}
// absolute paths lose their module part; unsafe blocks become blocks
struct Paths; impl VisitMut for Paths {
    fn visit_path_mut(&mut self, p: &mut Path) {
        let f = p.segments.first().map(|s| s.ident.to_string()).unwrap_or_default();
        if p.segments.len() == 2 && f == "Box" && p.segments[1].ident == "pin" { p.segments[0].ident = id("PBox"); }
        if p.segments.len() > 1 && (p.leading_colon.is_some() || ["std", "core", "crate"].contains(&f.as_str())) { p.leading_colon = None; let k = p.segments.iter().position(|s| s.ident.to_string().starts_with(char::is_uppercase)).unwrap_or(p.segments.len() - 1); p.segments = p.segments.iter().skip(k).cloned().collect(); }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) { if let Expr::Unsafe(u) = e { let b = u.block.clone(); *e = if let ([Stmt::Expr(x, None)], true) = (&b.stmts[..], true) { x.clone() } else { Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }) }; } visit_mut::visit_expr_mut(self, e); }
}
struct SelfMe; impl VisitMut for SelfMe { fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { if p.path.is_ident("self") { p.path = parse_quote!(me); } } }

pub fn rustfmt(t: &str) -> String {
    use std::io::Write; use std::process::*;
    let r = (|| -> std::io::Result<Option<String>> { let mut c = Command::new("rustfmt").args(["--edition", "2021", "--config", "max_width=160"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()?; c.stdin.take().unwrap().write_all(t.as_bytes())?; let o = c.wait_with_output()?; Ok(if o.status.success() { String::from_utf8(o.stdout).ok() } else { None }) })();
    match r { Ok(Some(s)) => s, _ => t.to_string() }
}

pub fn body(src: &mut Source, f: &FnU, u: &Unit, contracts0: &[(String, Option<String>)]) -> R<(String, usize)> {
    let contracts: Vec<String> = contracts0.iter().map(|c| c.0.clone()).collect();
    let (sig, mut b) = src.find_fn(&f.file, &f.path)?;
    if sig.asyncness.is_some() || sig.unsafety.is_some() { return Err(format!("{}: async/unsafe", f.path)); }
    let main = f.path.split('/').next().unwrap(); let ty = main.rsplit_once("::").map(|x| x.0.rsplit(' ').next().unwrap().to_string());
    let mut types: Vec<String> = vec![];
    if let Some(t) = ty { types.push(t.clone()); if let Some(base) = t.strip_suffix("Proj") { types.push(base.into()); } else { types.push(format!("{}Proj", t)); } }
    for i in &u.items { if let crate::unit::UItem::Struct(s) | crate::unit::UItem::Enum(s) = i { if !types.contains(&s.name) { types.push(s.name.clone()); } } }
    Paths.visit_block_mut(&mut b);
    let mut err = None;
    if !f.captures.is_empty() {   // a closure which is stored becomes the tuple of what it captures
        struct Cap<'x>(&'x [(usize, String)], usize); impl<'x> VisitMut for Cap<'x> { fn visit_expr_mut(&mut self, e: &mut Expr) { if let Expr::Closure(_) = e { let k = self.1; self.1 += 1; if let Some((_, t)) = self.0.iter().find(|x| x.0 == k) { *e = parse_str(t).expect("captures"); return; } } visit_mut::visit_expr_mut(self, e); } }
        Cap(&f.captures, 0).visit_block_mut(&mut b);
    }
    expand_macros(&mut b, &mut err);
    if f.opts.iter().any(|x| x == "locks") { if let Some(e) = crate::guard::run(&mut b) { return Err(format!("{}: {}", f.path, e)); } }
    let mut nested = HashMap::new();
    b.stmts.retain(|s| { if let Stmt::Item(syn::Item::Fn(f)) = s { nested.insert(f.sig.ident.to_string(), (f.sig.clone(), (*f.block).clone())); false } else { true } });
    let refs: HashMap<String, bool> = sig.inputs.iter().filter_map(|a| match a { FnArg::Typed(t) => match &*t.ty { Type::Reference(r) => pat1(&t.pat).map(|n| (n, r.mutability.is_some())), _ => None }, _ => None }).collect();
    let mut rw = Rw { src, f, types, contracts: contracts.to_vec(), locals: all_binders(&b), nested, env: HashMap::new(), clos: HashMap::new(), fnvars: f.fnvars.iter().cloned().collect(), slices: HashMap::new(), refs, proj: HashSet::new(), n: 0, pn: 0, hn: 0, ninl: 0, err, depth: 0 };
    // helper calls in tail position may contain returns
    for _ in 0..4 {
        let tail = match b.stmts.last() { Some(Stmt::Expr(Expr::Return(ExprReturn { expr: Some(x), .. }), _)) => Some((**x).clone()), Some(Stmt::Expr(x, None)) => Some(x.clone()), _ => None };
        if let Some(x) = tail { if let Some((_, sig, hb, args)) = rw.inline_target(&x) { let ib = rw.inline(sig, hb, args); b.stmts.pop(); b.stmts.extend(ib.stmts); continue; } }
        break;
    }
    rw.visit_block_mut(&mut b);
    // `let &x = y` is `let x = *y`
    struct RefLet; impl VisitMut for RefLet { fn visit_local_mut(&mut self, l: &mut Local) {
        while let (Pat::Reference(r), Some(i)) = (&l.pat, &mut l.init) { let p = (*r.pat).clone(); let e = match strip(&i.expr) { Expr::Reference(x) => (*x.expr).clone(), x => pe(quote!(*#x)) }; i.expr = Box::new(e); l.pat = p; }
        visit_mut::visit_local_mut(self, l); } }
    RefLet.visit_block_mut(&mut b);
    let (ninl, err) = (rw.ninl, rw.err.clone());
    if let Some(e) = err { return Err(format!("{}: {}", f.path, e)); }
    // returns
    let has_out = !matches!(sig.output, ReturnType::Default) && !f.opts.iter().any(|x| x == "notail");
    if has_out { if let Some(Stmt::Expr(_, None)) = b.stmts.last() { if let Some(Stmt::Expr(x, None)) = b.stmts.pop() {
        let x = if let Expr::Loop(l) = &x { if has_break_value(&l.body) { let mut l = l.clone(); let v = id("lv"); breaks_to(&mut l.body, &v); b.stmts.push(parse_quote!(let lv;)); b.stmts.push(Stmt::Expr(Expr::Loop(l), Some(Default::default()))); pe(quote!(lv)) } else { x } } else { x };
        let x = if matches!(x, Expr::Loop(_)) { x } else if branching(&x) { push(x, &Sink::Ret, &[]) } else { x }; b.stmts.push(Stmt::Expr(x, None)); } } }
    let mut pd = PushDown { err: None }; pd.visit_block_mut(&mut b); if let Some(e) = pd.err { return Err(e); }
    if !f.ghosts.iter().any(|g| g.0 == "finish" || g.0.starts_with("after ")) { crate::flow::sink_tail(&mut b, !matches!(sig.output, ReturnType::Default), |k| f.invs.iter().any(|i| i.0 == k && i.1.contains("ensures"))); }
    if f.header.contains("me:") { SelfMe.visit_block_mut(&mut b); }
    { let mut pins = pinned_locals(&b, src, u); if f.header.contains("me: Pin<&mut") { pins.insert("me".into()); } PinDeref(pins).visit_block_mut(&mut b); }
    let mut mk = Mark { bools: HashMap::new(), flags: HashMap::new(), auto: Auto::new(f, u, contracts0), loops: 0, ghosts: &f.ghosts, used: vec![], calls: &f.calls, arm: HashMap::new(), lets: HashMap::new() };
    mk.visit_block_mut(&mut b);
    let (loops, used, flags) = (mk.loops, mk.used.clone(), mk.flags.clone());
    if let Some(n) = f.loops { if n != loops { return Err(format!("{}: has {} loops, the contract knows {}", f.path, loops, n)); } }
    let maxinv = f.invs.iter().map(|x| x.0 + 1).max().unwrap_or(0); if f.loops.is_none() && maxinv != loops { return Err(format!("{}: has {} loops, the contract knows {}", f.path, loops, maxinv)); }
    let mut pre = vec![];
    for a in &sig.inputs { match a { FnArg::Receiver(r) if r.mutability.is_some() && r.reference.is_none() && f.opts.iter().any(|x| x == "own") => {}, FnArg::Receiver(r) if r.mutability.is_some() && r.reference.is_none() => pre.push("let mut me = me;".to_string()), FnArg::Typed(t) => if has_mut(&t.pat) { if let Some(n) = pat1(&t.pat) { pre.push(format!("let mut {0} = {0};", n)); } } else if let Pat::Wild(_) = *t.pat {}, _ => {} } }
    for (i, (k, _)) in f.ghosts.iter().enumerate() { if k != "begin" && k != "finish" && !used.contains(&i) && !k.starts_with("el ") && !k.ends_with('?') { return Err(format!("{}: no place for ghost code '{}'", f.path, k)); } }
    let text = rustfmt(&format!("fn __f() {}", b.to_token_stream()));
    let (i, j) = (text.find('{').unwrap(), text.rfind('}').unwrap());
    let mut t = text[i + 1..j].to_string();
    for (a, b) in &f.subst { t = t.replace(a, b); }
    // markers
    let mut out = String::new(); let mut r = t.as_str();
    loop {
        let (a, g, e) = (r.find("__inv!("), r.find("__ghost!("), r.find("__ghost_el!("));
        let p = [a, g, e].iter().filter_map(|x| *x).min(); let p = match p { Some(p) => p, None => break };
        let q = p + r[p..].find(')').unwrap(); let o = p + r[p..].find('(').unwrap(); let num: usize = r[o + 1..q].trim().trim_end_matches("usize").parse().unwrap(); let end = q + r[q..].find(';').map(|x| x + 1).unwrap();
        if Some(p) == a {
            let mut head = r[..p].trim_end().to_string(); if !head.ends_with('{') { return Err("internal: invariant marker".into()); } head.pop();
            out.push_str(&head); let inv = f.invs.iter().find(|x| x.0 == num).map(|x| x.1.clone()).unwrap_or_default(); let inv = crate::find::macros(&inv, src, u)?; let inv = with_flags(inv, flags.get(&num)); let inv = with_output(inv, num, &t, p + (t.len() - r.len())); out.push('\n'); out.push_str(inv.trim_end()); out.push_str("\n{");
        } else if Some(p) == g { out.push_str(&r[..p]); out.push_str(&crate::find::macros(&f.ghosts[num].1, src, u)?); }
        else { out.push_str(&r[..p]); for (k, v) in &f.ghosts { if k == &format!("el {}", num) { out.push_str(v); } } }
        r = &r[end..];
    }
    out.push_str(r);
    let begin: String = f.ghosts.iter().filter(|x| x.0 == "begin").map(|x| x.1.clone()).collect(); let finish: String = f.ghosts.iter().filter(|x| x.0 == "finish").map(|x| x.1.clone()).collect();
    Ok((format!("{{\n{}{}\n{}\n{}}}", begin, pre.join("\n"), out.trim_end(), finish), ninl))
}
