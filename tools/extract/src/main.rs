//! Mechanical extraction of functions of /repo into the Verus dialect.  See /verif/DESIGN.md, "What the extraction does".
mod unit; mod find; mod rw; mod guard; mod flow;
use std::fmt::Write;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 { eprintln!("usage: vpextract UNIT.vu REPO PRELUDE_DIR OUT.rs"); std::process::exit(2); }
    match run(&a[1], &a[2], &a[3]) {
        Ok((text, info)) => { std::fs::write(&a[4], text).unwrap(); std::fs::write(format!("{}.map", a[4]), info).unwrap(); }
        Err(e) => { eprintln!("LOST: {}", e); std::process::exit(3); }
    }
}

pub type R<T> = Result<T, String>;

fn run(unit: &str, repo: &str, prelude: &str) -> R<(String, String)> {
    let u = unit::parse(&std::fs::read_to_string(unit).map_err(|e| format!("{}: {}", unit, e))?)?;
    let mut src = find::Source::new(repo);
    let mut out = String::new(); let mut info = String::new();
    out.push_str("#![allow(unused_imports, unused_mut, unused_variables, unused_assignments, dead_code, unused_parens, unused_braces, unreachable_code, non_shorthand_field_patterns, non_camel_case_types, private_interfaces)]\n#![feature(never_type)]\n");
    out = out.replace("#![feature(never_type)]\n", "");
    out.push_str("use vstd::prelude::*;\nuse std::collections::VecDeque;\nuse core::task::{Poll, Context};\n");
    for p in &u.preludes { let t = std::fs::read_to_string(format!("{}/{}", prelude, p)).map_err(|e| format!("{}: {}", p, e))?; writeln!(out, "// ==== prelude {}", p).unwrap(); out.push_str(&t); out.push('\n'); }
    out.push_str("verus! {\n");
    if u.items.iter().any(|i| matches!(i, unit::UItem::Lemmas(_))) { out.push_str("broadcast use lm::group;\n"); }
    let contracts: Vec<(String, Option<String>)> = u.items.iter().filter_map(|i| if let unit::UItem::Fn(f) = i { Some((f.path.clone(), rw::ghost_param(&f.header))) } else { None }).collect();
    src.prims = names(&out); for i in &u.items { if let unit::UItem::Code(t) = i { src.prims.extend(names(t)); } }
    let mut lem = String::new();
    for it in &u.items {
        match it {
            unit::UItem::Lemmas(t) => lem.push_str(t),
            unit::UItem::Code(t) => { out.push_str(t); out.push('\n'); }
            unit::UItem::Struct(s) => { let t = find::emit_struct(&mut src, s, &u)?; writeln!(out, "// @@ITEM struct {} {}", s.file, s.name).unwrap(); out.push_str(&t); out.push('\n'); writeln!(info, "struct\t{}\t{}", s.file, s.name).unwrap(); }
            unit::UItem::Enum(s) => { let t = find::emit_enum(&mut src, s)?; writeln!(out, "// @@ITEM enum {} {}", s.file, s.name).unwrap(); out.push_str(&t); out.push('\n'); writeln!(info, "enum\t{}\t{}", s.file, s.name).unwrap(); }
            unit::UItem::Fn(f) => {
                let (body, ninl) = rw::body(&mut src, f, &u, &contracts)?;
                writeln!(out, "// @@FN {} {}", f.file, f.path).unwrap();
                if let Some(h) = &f.imp { writeln!(out, "{} {{", h).unwrap(); }
                out.push_str(&find::macros(&f.header, &mut src, &u)?); out.push('\n');
                out.push_str(&body); out.push('\n');
                if f.imp.is_some() { out.push_str("}\n"); }
                writeln!(out, "// @@END").unwrap();
                writeln!(info, "fn\t{}\t{}\t{}", f.file, f.path, ninl).unwrap();
            }
        }
    }
    out.push_str("}\n");
    if !lem.is_empty() { out.push_str("// ==== lemmas\nmod lm { use super::*; verus! {\n"); out.push_str(&lem); out.push_str("}}\nuse lm::*;\n"); }
    out.push_str("fn main() {}\n");
    Ok((out, info))
}

/// functions which the preludes define
fn names(t: &str) -> std::collections::HashSet<String> { t.split("fn ").skip(1).map(|x| x.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()).collect() }
