mod core; mod vec; mod maps; mod signals; mod conc;
use crate::core::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

static BEAT: AtomicU64 = AtomicU64::new(0);
type Case = fn(&mut Rng, usize) -> Res;
fn table() -> Vec<(&'static str, &'static str, Case)> {
    vec![
        ("C01", "c01_copy", vec::c01_copy), ("C01", "c01_clone", vec::c01_clone), ("C02", "c02_apply", vec::c02_apply), ("C02", "c03_map", vec::c03_map), ("C03", "c03_map", vec::c03_map),
        ("C04", "c04_filter", vec::c04_filter), ("C04", "c04_filter_map", vec::c04_filter_map), ("C05", "c05_sort", vec::c05_sort), ("C06", "c06_chain", vec::c06_chain), ("C07", "c07_flatten", vec::c07_flatten), ("C08", "c08_enumerate", vec::c08_enumerate),
        ("C09", "c09_len", vec::c09_len), ("C09", "c09_is_empty", vec::c09_is_empty), ("C09", "c09_sum", vec::c09_sum), ("C09", "c09_map", vec::c09_map), ("C09", "c09_cloned", vec::c09_cloned),
        ("C10", "c10_map_signal", vec::c10_map_signal), ("C11", "c11_filter_signal", vec::c11_filter_signal), ("C12", "c12_delay_remove", vec::c12_delay_remove),
        ("C13", "c13_copy", maps::c13_copy), ("C13", "c13_clone", maps::c13_clone), ("C14", "c14_keys", maps::c14_keys), ("C14", "c14_copy", maps::c14_copy),
        ("C15", "c15_map_value", maps::c15_map_value), ("C15", "c15_map_value_signal", maps::c15_map_value_signal), ("C15", "c15_key", maps::c15_key), ("C15", "c15_for_each", maps::c15_for_each),
        ("C16", "c16_map", signals::c16_map), ("C16", "c16_inspect", signals::c16_inspect), ("C16", "c16_dedupe", signals::c16_dedupe), ("C16", "c16_dedupe_cloned", signals::c16_dedupe_cloned), ("C16", "c16_dedupe_map", signals::c16_dedupe_map), ("C16", "c16_dedupe_map_mut", signals::c16_dedupe_map_mut), ("C16", "c16_eq", signals::c16_eq), ("C16", "c16_neq", signals::c16_neq), ("C16", "c16_not", signals::c16_not), ("C16", "c16_filter_map", signals::c16_filter_map), ("C16", "c16_option", signals::c16_option), ("C16", "c16_result", signals::c16_result), ("C16", "c16_always", signals::c16_always), ("C16", "c16_first", signals::c16_first), ("C16", "c16_stop_if", signals::c16_stop_if), ("C17", "c17_map_ref1", signals::c17_map_ref1), ("C17", "c17_map_ref2", signals::c17_map_ref2), ("C17", "c17_map_ref3", signals::c17_map_ref3), ("C17", "c17_map_mut2", signals::c17_map_mut2), ("C17", "c17_map_mut_keeps", signals::c17_map_mut_keeps), ("C17", "c17_and", signals::c17_and), ("C17", "c17_or", signals::c17_or), ("C18", "c18_flatten", signals::c18_flatten), ("C18", "c18_switch", signals::c18_switch), ("C19", "c19_from_future", signals::c19_from_future), ("C19", "c19_from_stream", signals::c19_from_stream), ("C19", "c19_map_future", signals::c19_map_future), ("C19", "c19_throttle", signals::c19_throttle), ("C20", "c20_to_future", signals::c20_to_future), ("C20", "c20_wait_for", signals::c20_wait_for), ("C20", "c20_to_stream", signals::c20_to_stream), ("C20", "c20_to_signal_vec", signals::c20_to_signal_vec), ("C20", "c20_sample", signals::c20_sample), ("C20", "c20_for_each", signals::c20_for_each), 
        ("C22", "c22_model", conc::c22_model), ("C22", "c22_swap_threads", conc::c22_swap_threads), ("C23", "c23_hooked", conc::c23_hooked), ("C23", "c23_threads", conc::c23_threads), ("C23", "c23_gated", conc::c23_gated), ("C24", "c24_gated", conc::c24_gated), ("C25", "c25_gated", conc::c25_gated), ("C26", "c26_gated", conc::c26_gated), ("C24", "c24_hooked", conc::c24_hooked), ("C24", "c24_threads", conc::c24_threads), ("C24", "c24_close_race", conc::c24_close_race), ("C25", "c25_seq", conc::c25_seq), ("C25", "c25_hooked", conc::c25_hooked), ("C25", "c25_threads", conc::c25_threads), ("C26", "c26_hooked", conc::c26_hooked), ("C26", "c26_threads", conc::c26_threads), 
        ("C20", "c20_vec_sinks", vec::c20_vec_sinks), ("C21", "c21_switch_vec", vec::c21_switch_vec),
    ]
}
fn mode(prop: &str) -> u8 { match prop { "C27" => 1, "C28" => 2, _ => 0 } }
fn run(case: Case, seed: u64, size: usize, trace: bool, mode: u8) -> Result<(), String> {
    TRACE.with(|t| *t.borrow_mut() = if trace { Some(vec![]) } else { None }); REPOLL.with(|r| r.set(None));
    let r = catch_unwind(AssertUnwindSafe(|| case(&mut Rng::new(seed), size)));
    if mode == 2 { return Ok(()); } // only polls which never return count (see the watchdog)
    if mode == 1 { return match REPOLL.with(|r| r.get()) { Some(n) => Err(format!("{} was polled again after it had reported its end", n)), None => Ok(()) }; }
    match r { Ok(x) => x, Err(p) => Err(format!("panicked: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    if a.len() < 2 { eprintln!("usage: vpharness search PROP SEED SECONDS REPLAY [CASE] | replay FILE | list"); std::process::exit(2); }
    if a[1] == "list" { for (p, n, _) in table() { println!("{} {}", p, n); } return; }
    if a[1] == "replay" {
        let s = std::fs::read_to_string(&a[2]).expect("replay file"); let mut prop = String::new(); let mut name = String::new(); let mut seed = 0; let mut size = 0;
        for l in s.lines() { if let Some(x) = l.strip_prefix("# replay ") { let f: Vec<&str> = x.split(' ').collect(); prop = f[0].into(); name = f[1].into(); seed = f[2].parse().unwrap(); size = f[3].parse().unwrap(); break; } }
        let case = table().into_iter().find(|x| x.1 == name).expect("case").2;
        std::thread::spawn(|| { std::thread::sleep(Duration::from_secs(20)); println!("still running after 20 s: hangs"); std::process::exit(1); });
        let r = run(case, seed, size, true, mode(&prop)); TRACE.with(|t| for l in t.borrow().as_ref().unwrap() { println!("{}", l); });
        match r { Ok(()) => { println!("holds"); } Err(e) => { println!("VIOLATED: {}", e); std::process::exit(1); } } return;
    }
    let prop = a[2].clone(); let seed: u64 = a[3].parse().unwrap(); let secs: f64 = a[4].parse().unwrap(); let replay = a[5].clone();
    let only = a.get(6).cloned(); let rep = mode(&prop);
    let mut seen = std::collections::HashSet::new();
    let cases: Vec<_> = table().into_iter().filter(|c| (rep != 0 || c.0 == prop) && only.as_ref().map_or(true, |o| o == c.1) && seen.insert(c.1)).collect();
    if cases.is_empty() { println!("no scenarios for {}", prop); return; }
    let per = secs / cases.len() as f64; let mut total = 0u64;
    let cur = std::sync::Arc::new(std::sync::Mutex::new((String::new(), 0u64, 0usize)));
    { let (cur, replay, prop) = (cur.clone(), replay.clone(), prop.clone()); std::thread::spawn(move || { let mut last = 0; let mut same = 0; loop { std::thread::sleep(Duration::from_secs(1)); let b = BEAT.load(Ordering::SeqCst); if b == last { same += 1; } else { same = 0; last = b; } if same >= 25 { let c = cur.lock().unwrap().clone(); std::fs::write(&replay, format!("# replay {} {} {} {}\noperation never returned (deadlock or endless loop)\n", prop, c.0, c.1, c.2)).unwrap(); println!("FOUND {}: operation never returned (deadlock or endless loop)", c.0); std::process::exit(1); } } }); }
    for (_, name, case) in cases {
        let t0 = Instant::now(); let mut n = 0u64; let mut distinct = std::collections::HashSet::new();
        while n < 64 || t0.elapsed().as_secs_f64() < per {
            for _ in 0..64 {
                let size = 2 + (n as usize % 48) / 2; let s = seed.wrapping_mul(1_000_003).wrapping_add(n); n += 1; BEAT.fetch_add(1, Ordering::SeqCst);
                if n % 16 == 1 || true { *cur.lock().unwrap() = (name.to_string(), s, size); }
                let measure = n <= 3000; let res = run(case, s, size, measure, rep);
                if measure && res.is_ok() { use std::hash::{Hash, Hasher}; TRACE.with(|t| { let t = t.borrow(); let t = t.as_ref().unwrap(); if t.iter().any(|l| !l.starts_with("poll -> Pending")) && t.len() > 1 { let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); distinct.insert(h.finish()); } }); }
                if let Err(first_err) = res {
                    // look for a shorter failing script
                    let (mut bs, mut bn) = (s, size);
                    'o: for z in 1..size { for k in 0..400u64 { if run(case, s.wrapping_add(k * 7919), z, false, rep).is_err() { bs = s.wrapping_add(k * 7919); bn = z; break 'o; } } }
                    let e = run(case, bs, bn, true, rep).err().unwrap_or(format!("{} (in a free-running schedule; running the script again may need several attempts)", first_err));
                    let mut out = format!("# replay {} {} {} {}\n# reproduce: vpharness replay <this file>\n", prop, name, bs, bn);
                    TRACE.with(|t| for l in t.borrow().as_ref().unwrap() { out.push_str(l); out.push('\n'); }); out.push_str(&format!("VIOLATED: {}\n", e));
                    std::fs::write(&replay, out).unwrap(); println!("FOUND {}: {}", name, e); std::process::exit(1);
                }
            }
        }
        total += n; println!("clean {} {} scripts {} distinct among the first {}", name, n, distinct.len(), n.min(3000));
    }
    println!("TOTAL {}", total);
}
