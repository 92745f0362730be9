//! Finding items in /repo's sources and emitting type definitions.
use crate::{unit::*, R};
use quote::ToTokens;
use std::collections::HashMap;
use syn::visit::{self, Visit};
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Source { repo: String, files: HashMap<String, File>, pub prims: std::collections::HashSet<String> }
impl Source {
    pub fn new(r: &str) -> Source { Source { repo: r.into(), files: HashMap::new(), prims: Default::default() } }
    pub fn file(&mut self, f: &str) -> R<&File> {
        if !self.files.contains_key(f) {
            let path = match f.strip_prefix("@exp/") { Some(x) => format!("{}/{}", std::env::var("VPX_EXP").unwrap_or_default(), x), None => format!("{}/{}", self.repo, f) };
            let t = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", f, e))?;
            let ts: proc_macro2::TokenStream = t.parse().map_err(|_| format!("{}: not Rust tokens", f))?;
            self.files.insert(f.into(), syn::parse2(keywords(ts)).map_err(|e| format!("{}: {}", f, e))?);
        }
        Ok(&self.files[f])
    }
    pub fn find_struct(&mut self, f: &str, name: &str) -> R<ItemStruct> {
        fn go(it: &[Item], n: &str) -> Option<ItemStruct> { for i in it { match i { Item::Struct(s) if s.ident == n => return Some(s.clone()), Item::Mod(m) => if let Some((_, x)) = &m.content { if let Some(s) = go(x, n) { return Some(s); } }, _ => {} } } None }
        go(&self.file(f)?.items, name).ok_or(format!("struct {} not found in {}", name, f))
    }
    pub fn find_enum(&mut self, f: &str, name: &str) -> R<ItemEnum> {
        fn go(it: &[Item], n: &str) -> Option<ItemEnum> { for i in it { match i { Item::Enum(s) if s.ident == n => return Some(s.clone()), Item::Mod(m) => if let Some((_, x)) = &m.content { if let Some(s) = go(x, n) { return Some(s); } }, _ => {} } } None }
        go(&self.file(f)?.items, name).ok_or(format!("enum {} not found in {}", name, f))
    }
    /// Paths: `name`, `Type::name`, `Trait for Type::name`, each optionally followed by `/nested`.
    pub fn find_fn(&mut self, f: &str, path: &str) -> R<(Signature, Block)> {
        let (main, nested) = match path.split_once('/') { Some((a, b)) => (a, Some(b)), None => (path, None) };
        let items = self.file(f)?.items.clone();
        let mut all = vec![]; collect(&items, &mut all);
        let hits: Vec<(Signature, Block)> = all.into_iter().filter(|(p, _, _)| p == main).map(|(_, s, b)| (s, b)).collect();
        if hits.is_empty() { return Err(format!("function {} not found in {}", main, f)); }
        let (s, mut b) = hits.into_iter().next().unwrap();
        if f.starts_with("@exp/") { gensyms(&mut b); }
        match nested { None => Ok((s, b)),
            Some(n) if n.starts_with('#') => {
                let k: usize = n[1..].parse().map_err(|_| "bad closure number")?;
                let mut cl = vec![]; Closures(&mut cl).visit_block(&b);
                let c = cl.get(k).cloned().ok_or(format!("closure {} not found in {}", path, f))?;
                let ps: Vec<Pat> = c.inputs.iter().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }).collect();
                let sig: ItemFn = parse_quote!(fn __c(#(#ps: ()),*) -> _ {});
                let b = match *c.body { Expr::Block(x) if x.label.is_none() => x.block, e => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e, None)] } };
                Ok((sig.sig, b)) }
            Some(n) => {
            for st in &b.stmts { if let Stmt::Item(Item::Fn(x)) = st { if x.sig.ident == n { return Ok((x.sig.clone(), (*x.block).clone())); } } }
            // a nested fn may have been moved out
            let mut all = vec![]; collect(&items, &mut all);
            all.into_iter().find(|(p, _, _)| p == n).map(|(_, s, b)| (s, b)).ok_or(format!("function {} not found in {}", path, f)) } }
    }
    /// Exactly one function of the file has this name, and it is a method of one of the types.
    pub fn only(&mut self, f: &str, name: &str, types: &[String]) -> bool {
        let items = match self.file(f) { Ok(x) => x.items.clone(), Err(_) => return false }; let mut all = vec![]; collect(&items, &mut all);
        let v: Vec<_> = all.iter().filter(|(p, _, _)| p.rsplit("::").next() == Some(name)).collect();
        v.len() == 1 && types.iter().any(|t| v[0].0 == format!("{}::{}", t, name))
    }
    /// All functions a helper call could mean: free functions and methods of any of the given type names.
    pub fn helper(&mut self, f: &str, name: &str, types: &[String]) -> R<Option<(String, Signature, Block)>> {
        let items = self.file(f)?.items.clone(); let mut all = vec![]; collect(&items, &mut all);
        for (p, s, b) in all { if p == name { return Ok(Some((p, s, b))); } for t in types { if p == format!("{}::{}", t, name) { return Ok(Some((p, s, b))); } } }
        Ok(None)
    }
}
/// Names which are keywords of the verifier get an underscore.
fn keywords(t: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    use proc_macro2::*;
    t.into_iter().map(|x| match x {
        TokenTree::Ident(i) if ["exists", "forall", "choose", "has", "proof", "spec", "requires", "ensures", "invariant", "decreases", "tracked", "ghost", "assume"].contains(&i.to_string().as_str()) => TokenTree::Ident(Ident::new(&format!("{}_", i), i.span())),
        TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), keywords(g.stream())); n.set_span(g.span()); TokenTree::Group(n) }
        x => x }).collect()
}
struct Closures<'x>(&'x mut Vec<ExprClosure>);
impl<'ast, 'x> Visit<'ast> for Closures<'x> { fn visit_expr_closure(&mut self, c: &'ast ExprClosure) { self.0.push(c.clone()); visit::visit_expr_closure(self, c); } }
/// generated names (gensym!) in order of first appearance: g0, g1, ...
fn gensyms(b: &mut Block) {
    struct G(Vec<String>);
    impl VisitMut for G { fn visit_ident_mut(&mut self, i: &mut Ident) { let n = i.to_string(); if n.starts_with("__gensym_") { let k = match self.0.iter().position(|x| *x == n) { Some(k) => k, None => { self.0.push(n); self.0.len() - 1 } }; *i = Ident::new(&format!("g{}", k), proc_macro2::Span::call_site()); } } }
    G(vec![]).visit_block_mut(b);
}
fn tyname(t: &Type) -> String { match t { Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), Type::Reference(r) => format!("&{}", tyname(&r.elem)), _ => "?".into() } }
fn test_cfg(a: &[Attribute]) -> bool { a.iter().any(|x| x.path().is_ident("cfg") && x.to_token_stream().to_string().contains("test")) }
pub fn collect(items: &[Item], out: &mut Vec<(String, Signature, Block)>) {
    for i in items { match i {
        Item::Fn(f) if !test_cfg(&f.attrs) => out.push((f.sig.ident.to_string(), f.sig.clone(), (*f.block).clone())),
        Item::Impl(im) => { let ty = tyname(&im.self_ty); let pre = match &im.trait_ { Some((_, p, _)) => format!("{} for {}", p.segments.last().unwrap().ident, ty), None => ty };
            for x in &im.items { if let ImplItem::Fn(f) = x { out.push((format!("{}::{}", pre, f.sig.ident), f.sig.clone(), f.block.clone())); } } }
        Item::Trait(t) => { for x in &t.items { if let TraitItem::Fn(f) = x { if let Some(b) = &f.default { out.push((format!("{}::{}", t.ident, f.sig.ident), f.sig.clone(), b.clone())); } } } }
        Item::Mod(m) if !test_cfg(&m.attrs) => if let Some((_, x)) = &m.content { collect(x, out) },
        _ => {}
    } }
}

fn split_top(s: &str) -> Vec<String> { let mut d = 0; let mut v = vec![String::new()]; for c in s.chars() { match c { '<' | '(' => d += 1, '>' | ')' => d -= 1, _ => {} } if c == ',' && d == 0 { v.push(String::new()); } else { v.last_mut().unwrap().push(c); } } v }
pub struct SInfo { pub name: String, pub proj: String, pub fields: Vec<(String, String, bool)>, pub gen_decl: String, pub gen_use: String, pub wh: String, pub has_proj: bool }
pub fn sinfo(src: &mut Source, s: &StructU) -> R<SInfo> {
    let st = src.find_struct(&s.file, &s.name)?;
    let mut proj = None; let mut has = false;
    for a in &st.attrs { let p = a.path().to_token_stream().to_string(); if p.ends_with("pin_project") { has = true; if let Meta::List(l) = &a.meta { let t = l.tokens.to_string(); if let Some(x) = t.split(',').find_map(|x| x.trim().strip_prefix("project =").or(x.trim().strip_prefix("project="))) { proj = Some(x.trim().to_string()); } } } }
    let proj = proj.unwrap_or(format!("{}AutoProj", s.name));
    let mut fields = vec![];
    let mut k = 0;
    for f in &st.fields {
        let n = match &f.ident { Some(i) => i.to_string(), None => { k += 1; format!("{}", k - 1) } };
        let pin = f.attrs.iter().any(|a| a.path().is_ident("pin"));
        let ty = s.fields.iter().find(|x| x.0 == n).map(|x| x.1.clone()).unwrap_or(f.ty.to_token_stream().to_string());
        if ty == "-" { continue; }
        fields.push((n, ty, pin));
    }
    for (n, _) in &s.fields { if !st.fields.iter().any(|f| f.ident.as_ref().map(|i| i == n).unwrap_or(n.chars().all(|c| c.is_ascii_digit()))) { return Err(format!("field {} of {} not found", n, s.name)); } }
    let gen_use = { let v: Vec<String> = st.generics.params.iter().map(|p| match p { GenericParam::Type(t) => t.ident.to_string(), GenericParam::Lifetime(l) => l.lifetime.to_string(), GenericParam::Const(c) => c.ident.to_string() }).collect(); if v.is_empty() { String::new() } else { format!("<{}>", v.join(", ")) } };
    let gen_decl = st.generics.to_token_stream().to_string();
    let wh = st.generics.where_clause.to_token_stream().to_string();
    let (gen_decl, wh) = if let Some(h) = &s.head { match h.split_once(" where ") { Some((a, b)) => (a.trim().to_string(), format!("where {}", b)), None => (h.trim().to_string(), String::new()) } } else { (gen_decl, wh) };
    let gen_use = if s.head.is_some() { let inner = gen_decl.trim_start_matches('<').trim_end_matches('>'); let v: Vec<String> = split_top(inner).iter().map(|x| x.split(':').next().unwrap().trim().to_string()).filter(|x| !x.is_empty()).collect(); if v.is_empty() { String::new() } else { format!("<{}>", v.join(", ")) } } else { gen_use };
    Ok(SInfo { name: s.name.clone(), proj, fields, gen_decl, gen_use, wh, has_proj: has && !s.noproj })
}
pub fn emit_struct(src: &mut Source, s: &StructU, _u: &Unit) -> R<String> {
    let i = sinfo(src, s)?;
    let st = src.find_struct(&s.file, &s.name)?;
    let mut o = String::new();
    let tuple = matches!(st.fields, Fields::Unnamed(_));
    let pr: Vec<String> = split_top(i.gen_use.trim_start_matches('<').trim_end_matches('>')).iter().map(|x| x.trim().to_string()).filter(|x| !x.is_empty() && !x.starts_with('\'')).collect();
    for p in &pr { o.push_str(&format!("#[verifier::reject_recursive_types({})]\n", p)); }
    o.push_str(&s.attrs);
    if tuple { o.push_str(&format!("pub struct {}{}({}) {};\n", i.name, i.gen_decl, i.fields.iter().map(|f| format!("pub {}", f.1)).collect::<Vec<_>>().join(", "), i.wh)); }
    else { o.push_str(&format!("pub struct {}{} {} {{ {} }}\n", i.name, i.gen_decl, i.wh, i.fields.iter().map(|f| format!("pub {}: {}", f.0, f.1)).collect::<Vec<_>>().join(", "))); }
    if i.has_proj {
        let inner_decl = i.gen_decl.trim_start_matches('<').trim_end_matches('>').trim().to_string();
        let inner_use = i.gen_use.trim_start_matches('<').trim_end_matches('>').trim().to_string();
        for p in &pr { o.push_str(&format!("#[verifier::reject_recursive_types({})]\n", p)); }
        o.push_str(&format!("pub struct {}<'pin, {}> {} {{ {} }}\n", i.proj, inner_decl, i.wh, i.fields.iter().map(|f| if f.2 { format!("pub {}: Pin<&'pin mut {}>", f.0, f.1) } else { format!("pub {}: &'pin mut {}", f.0, f.1) }).collect::<Vec<_>>().join(", ")));
        o.push_str(&format!("impl<'pin, {}> Pin<&'pin mut {}{}> {} {{\n  pub fn project(self) -> (r: {}<'pin, {}>)\n    ensures ", inner_decl, i.name, i.gen_use, i.wh, i.proj, inner_use));
        for f in &i.fields { let p = if f.2 { ".pointer" } else { "" }; o.push_str(&format!("*r.{0}{1} == old(self.pointer).{0}, *final(r.{0}{1}) == final(self.pointer).{0}, ", f.0, p)); }
        o.push_str(&format!("\n  {{ {} {{ {} }} }}\n}}\n", i.proj, i.fields.iter().map(|f| if f.2 { format!("{0}: Pin {{ pointer: &mut self.pointer.{0} }}", f.0) } else { format!("{0}: &mut self.pointer.{0}", f.0) }).collect::<Vec<_>>().join(", ")));
    }
    Ok(o)
}
pub fn emit_enum(src: &mut Source, s: &StructU) -> R<String> {
    let e = src.find_enum(&s.file, &s.name)?;
    let mut o = String::new();
    for p in &e.generics.params { if let GenericParam::Type(t) = p { if s.attrs.is_empty() { o.push_str(&format!("#[verifier::reject_recursive_types({})]\n", t.ident)); } } }
    o.push_str(&s.attrs);
    let vs: Vec<String> = e.variants.iter().map(|v| { let mut v = v.clone(); v.attrs.clear(); for f in v.fields.iter_mut() { f.attrs.clear(); } v.to_token_stream().to_string() }).collect();
    o.push_str(&format!("pub enum {}{} {{ {} }}\n", e.ident, s.head.clone().unwrap_or(e.generics.to_token_stream().to_string()), vs.join(", ")));
    for a in &e.attrs { if let Meta::List(l) = &a.meta { if a.path().to_token_stream().to_string().ends_with("pin_project") { if let Some(proj) = l.tokens.to_string().split(',').find_map(|x| x.trim().strip_prefix("project =").map(|x| x.trim().to_string())) {
        // projection of an enum with one-field variants
        let pr: Vec<String> = e.generics.params.iter().filter_map(|p| if let GenericParam::Type(t) = p { Some(t.ident.to_string()) } else { None }).collect(); let us = pr.join(", ");
        let mut vs = vec![]; let mut en = vec![]; let mut ar = vec![];
        for v in &e.variants { if v.fields.len() != 1 { return Err(format!("enum {}: variant {}", e.ident, v.ident)); } let f = v.fields.iter().next().unwrap(); let pin = f.attrs.iter().any(|a| a.path().is_ident("pin")); let ty = f.ty.to_token_stream(); let n = &v.ident;
            vs.push(if pin { format!("{}(Pin<&'pin mut {}>)", n, ty) } else { format!("{}(&'pin mut {})", n, ty) });
            let p = if pin { ".pointer" } else { "" };
            en.push(format!("{0}::{1}(x) => r is {1} && *r->{1}_0{2} == x && *final(self.pointer) == {0}::{1}::<{3}>(*final(r->{1}_0{2}))", e.ident, n, p, us));
            ar.push(if pin { format!("{0}::{1}(x) => {2}::{1}(Pin {{ pointer: x }})", e.ident, n, proj) } else { format!("{0}::{1}(x) => {2}::{1}(x)", e.ident, n, proj) }); }
        for p in &pr { o.push_str(&format!("#[verifier::reject_recursive_types({})]\n", p)); }
        o.push_str(&format!("pub enum {}<'pin, {}> {{ {} }}\nimpl<'pin, {}> Pin<&'pin mut {}<{}>> {{\n  pub fn project(self) -> (r: {}<'pin, {}>)\n    ensures (match *old(self.pointer) {{ {} }})\n  {{ match self.pointer {{ {} }} }}\n}}\n", proj, us, vs.join(", "), us, e.ident, us, proj, us, en.join(", "), ar.join(", ")));
    } } } }
    Ok(o)
}
/// Text macros usable in contracts and invariants:
/// `{{frame STRUCT VAR ME}}`: every reference in the projection held in VAR still finalises to the field of ME it was made from;
/// `{{frames STRUCT ME f g ...}}`: same for destructured projections (one variable per field).
/// `{{keep STRUCT SELF}}` / `{{keepinv STRUCT SELF}}`: for a method on `&mut Projection` (contract / loop invariant): the references inside are not re-pointed.
pub fn macros(t: &str, src: &mut Source, u: &Unit) -> R<String> {
    let mut o = String::new(); let mut r = t;
    while let Some(i) = r.find("{{") {
        let j = match r[i..].find("}}") { Some(j) => j + i, None => break };
        o.push_str(&r[..i]);
        let w: Vec<&str> = r[i + 2..j].split_whitespace().collect();
        let known = ["frame", "frames", "keep", "keepinv"];
        if w.is_empty() || !known.contains(&w[0]) { o.push_str(&r[i..j + 2]); r = &r[j + 2..]; continue; }
        let su = u.items.iter().find_map(|x| if let crate::unit::UItem::Struct(s) = x { if s.name == w[1] { Some(s.clone()) } else { None } } else { None }).ok_or(format!("no @struct {}", w[1]))?;
        let si = sinfo(src, &su)?;
        let mut v = vec![];
        for f in &si.fields {
            let p = if f.2 { ".pointer" } else { "" };
            match w[0] {
                "frame" => v.push(format!("*final({0}.{1}{2}) == final({3}.pointer).{1}", w[2], f.0, p, w[3])),
                "frames" => { if w[3..].contains(&f.0.as_str()) { v.push(format!("*final({0}{1}) == final({2}.pointer).{0}", f.0, p, w[2])) } }
                "keepinv" => v.push(format!("*final({0}.{1}{2}) == *final(old({0}).{1}{2})", w[2], f.0, p)),
                _ => v.push(format!("*final(final({0}).{1}{2}) == *final(old({0}).{1}{2})", w[2], f.0, p)),
            }
        }
        o.push_str(&v.join(", ")); r = &r[j + 2..];
    }
    o.push_str(r); Ok(o)
}
