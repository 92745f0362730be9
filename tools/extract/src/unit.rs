//! The unit files (*.vu): which items of /repo are put under which contract.
use crate::R;
#[derive(Debug, Default, Clone)]
pub struct FnU { pub file: String, pub path: String, pub imp: Option<String>, pub header: String, pub invs: Vec<(usize, String)>, pub ghosts: Vec<(String, String)>, pub calls: Vec<(String, String)>, pub subst: Vec<(String, String)>, pub fnvars: Vec<String>, pub inline: Vec<String>, pub methods: Vec<(String, String)>, pub kinds: Vec<(String, String)>, pub captures: Vec<(usize, String)>, pub loops: Option<usize>, pub opts: Vec<String> }
#[derive(Debug, Default, Clone)]
pub struct StructU { pub file: String, pub name: String, pub fields: Vec<(String, String)>, pub head: Option<String>, pub noproj: bool, pub attrs: String, pub only: bool }
#[derive(Debug, Clone)]
pub enum UItem { Lemmas(String), Code(String), Struct(StructU), Enum(StructU), Fn(FnU) }
#[derive(Debug, Default, Clone)]
pub struct Unit { pub preludes: Vec<String>, pub items: Vec<UItem>, pub opts: Vec<String> }

pub fn parse(t: &str) -> R<Unit> {
    let mut u = Unit::default();
    let lines: Vec<&str> = t.lines().collect(); let mut i = 0;
    let block = |i: &mut usize| -> String { let mut s = String::new(); *i += 1; while *i < lines.len() && !lines[*i].starts_with('@') { s.push_str(lines[*i]); s.push('\n'); *i += 1; } s };
    while i < lines.len() {
        let l = lines[i];
        if let Some(r) = l.strip_prefix("@prelude ") { u.preludes.extend(r.split_whitespace().map(|x| x.to_string())); i += 1; }
        else if let Some(r) = l.strip_prefix("@opt ") { u.opts.extend(r.split_whitespace().map(|x| x.to_string())); i += 1; }
        else if l.starts_with("@lemmas") { let b = block(&mut i); u.items.push(UItem::Lemmas(b)); }
        else if l.starts_with("@code") { let b = block(&mut i); u.items.push(UItem::Code(b)); }
        else if l.starts_with("@struct ") || l.starts_with("@enum ") {
            let w: Vec<&str> = l.split_whitespace().collect();
            let mut s = StructU { file: w[1].into(), name: w[2].into(), ..Default::default() };
            let b = block(&mut i);
            for x in b.lines() { let x = x.trim(); if x.is_empty() || x.starts_with("//") { continue; }
                if let Some(r) = x.strip_prefix("head:") { s.head = Some(r.trim().into()); }
                else if let Some(r) = x.strip_prefix("attr:") { s.attrs.push_str(r); s.attrs.push('\n'); }
                else if x == "noproj" { s.noproj = true; }
                else if let Some((a, b)) = x.split_once(':') { s.fields.push((a.trim().into(), b.trim().into())); } else { return Err(format!("unit file: {}", x)); } }
            if l.starts_with("@enum") { u.items.push(UItem::Enum(s)) } else { u.items.push(UItem::Struct(s)) }
        }
        else if let Some(r) = l.strip_prefix("@fn ") {
            let (file, path) = r.split_once(' ').ok_or("bad @fn")?;
            let mut f = FnU { file: file.into(), path: path.trim().into(), ..Default::default() };
            i += 1; let mut cur = String::from("header");
            while i < lines.len() && (!lines[i].starts_with('@') || lines[i].starts_with("@@")) {
                let x = lines[i];
                if let Some(r) = x.strip_prefix("@@") {
                    let r = r.trim();
                    let (k, v) = r.split_once(' ').unwrap_or((r, ""));
                    match k {
                        "impl" => f.imp = Some(format!("impl {}", v)),
                        "inv" => { let k: usize = v.trim().parse().map_err(|_| "bad inv")?; f.invs.push((k, String::new())); cur = "inv".into(); i += 1; continue; }
                        "ghost" => { f.ghosts.push((v.trim().into(), String::new())); cur = "ghost".into(); i += 1; continue; }
                        "call" => { let (a, b) = v.split_once("=>").ok_or("bad call")?; f.calls.push((a.trim().into(), b.trim().into())); }
                        "subst" => { let (a, b) = v.split_once("=>").ok_or("bad subst")?; f.subst.push((a.trim().into(), b.trim().into())); }
                        "method" => { let (a, b) = v.split_once("=>").ok_or("bad method")?; f.methods.push((a.trim().into(), b.trim().into())); }
                        "kind" => { let (a, b) = v.split_once("=>").ok_or("bad kind")?; f.kinds.push((a.trim().into(), b.trim().into())); }
                        "captures" => { let (a, b) = v.split_once("=>").ok_or("bad captures")?; f.captures.push((a.trim().parse().map_err(|_| "bad captures")?, b.trim().into())); }
                        "fnvars" => f.fnvars.extend(v.split_whitespace().map(|x| x.to_string())),
                        "inline" => f.inline.extend(v.split_whitespace().map(|x| x.to_string())),
                        "opt" => f.opts.extend(v.split_whitespace().map(|x| x.to_string())),
                        "loops" => f.loops = Some(v.trim().parse().map_err(|_| "bad loops")?),
                        "spec" => {}
                        _ => return Err(format!("unit file: unknown @@{}", k)),
                    }
                    cur = "header".into();
                } else {
                    let t = match cur.as_str() { "header" => &mut f.header, "inv" => &mut f.invs.last_mut().unwrap().1, _ => &mut f.ghosts.last_mut().unwrap().1 };
                    t.push_str(x); t.push('\n');
                }
                i += 1;
            }
            u.items.push(UItem::Fn(f));
        }
        else if l.trim().is_empty() || l.starts_with("//") || l.starts_with('#') { i += 1; }
        else { return Err(format!("unit file line {}: {}", i + 1, l)); }
    }
    Ok(u)
}
