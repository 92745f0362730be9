//! Signal-map scenarios: C13..C15.
use crate::core::*;
use crate::{ensure, fail, tr};
use futures_signals::signal_map::{MapDiff, MutableBTreeMap, MutableSignalMap, SignalMap, SignalMapExt};
use futures_signals::signal_vec::SignalVec;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

fn gen_map<V>(r: &mut Rng, cur: &[u32], mk: &mut dyn FnMut(&mut Rng) -> V) -> MapDiff<u32, V> {
    loop {
        let k = r.n(5) as u32; let has = cur.contains(&k);
        match r.n(12) {
            0 => { let m = r.n(32); let mut e = vec![]; for k in 0..5u32 { if m >> k & 1 == 1 { e.push((k, mk(r))); } } return MapDiff::Replace { entries: e }; }
            1..=4 if !has => return MapDiff::Insert { key: k, value: mk(r) },
            5..=7 if has => return MapDiff::Update { key: k, value: mk(r) },
            8..=10 if has => return MapDiff::Remove { key: k },
            11 if r.p(1, 2) => return MapDiff::Clear {},
            _ => {}
        }
    }
}
fn keys_after(cur: &mut Vec<u32>, d: &MapDiff<u32, u32>) { match d { MapDiff::Replace { entries } => *cur = entries.iter().map(|x| x.0).collect(), MapDiff::Insert { key, .. } => cur.push(*key), MapDiff::Remove { key } => cur.retain(|x| x != key), MapDiff::Clear {} => cur.clear(), _ => {} } }
struct MapSrc { src: Src<MapDiff<u32, u32>>, keys: RefCell<Vec<u32>>, got: Rc<RefCell<BTreeMap<u32, u32>>>, entered: Rc<RefCell<Vec<u32>>>, last: Rc<RefCell<Option<MapDiff<u32, u32>>>> }
impl MapSrc {
    fn new(env: &Env) -> MapSrc { let got: Rc<RefCell<BTreeMap<u32, u32>>> = Default::default(); let entered: Rc<RefCell<Vec<u32>>> = Default::default(); let last = Rc::new(RefCell::new(None)); let (g, e, l) = (got.clone(), entered.clone(), last.clone());
        let src = Src::new(env, "source").hook(move |d: &MapDiff<u32, u32>| { tr!("  source delivers {:?}", d); apply_map(&mut g.borrow_mut(), d).expect("harness fed an invalid diff"); match d { MapDiff::Replace { entries } => e.borrow_mut().extend(entries.iter().map(|x| x.1)), MapDiff::Insert { value, .. } | MapDiff::Update { value, .. } => e.borrow_mut().push(*value), _ => {} } *l.borrow_mut() = Some(d.clone()); });
        MapSrc { src, keys: RefCell::new(vec![]), got, entered, last } }
    fn feed(&self, r: &mut Rng, mk: &mut dyn FnMut(&mut Rng) -> u32) { let d = gen_map(r, &self.keys.borrow(), mk); keys_after(&mut self.keys.borrow_mut(), &d); tr!("feed {:?}", d); self.src.feed(d); }
}
fn counter() -> impl FnMut(&mut Rng) -> u32 { let mut n = 0; move |_| { n += 1; n } }
fn same<A: PartialEq + std::fmt::Debug>(what: &str, got: &A, want: &A) -> Res { ensure!(got == want, "{}: {:?}, expected {:?}", what, got, want); Ok(()) }
fn act<'a>(s: &'a MapSrc, mk: &'a mut dyn FnMut(&mut Rng) -> u32) -> impl FnMut(&mut Rng, bool) + 'a { move |r, closing| { if closing || rnd_close(r) { if !s.src.closed() { s.src.close(); } } if s.src.closed() { return; } for _ in 0..1 + r.n(2) { s.feed(r, mk); } } }

pub fn c15_map_value(r: &mut Rng, size: usize) -> Res {
    let env = Env::new(); let s = MapSrc::new(&env); let mut mk = counter(); let calls: Rc<RefCell<Vec<u32>>> = Default::default(); let c2 = calls.clone(); let mut n = 0;
    let sig = MM(s.src.mock()).map_value(move |x| { c2.borrow_mut().push(x); n += 1; (x, n) }); let mut k = 0;
    drive_map(&env, r, size, sig, &mut act(&s, &mut mk), &mut |_, e| { same("closure calls", &*calls.borrow(), &*s.entered.borrow())?; match e {
        Ev::Item(d, rep) => { let src = s.last.borrow().clone().unwrap(); let mut f = |x: u32| { k += 1; (x, k) };
            let want = match src { MapDiff::Replace { entries } => MapDiff::Replace { entries: entries.into_iter().map(|(a, b)| (a, f(b))).collect() }, MapDiff::Insert { key, value } => MapDiff::Insert { key, value: f(value) }, MapDiff::Update { key, value } => MapDiff::Update { key, value: f(value) }, MapDiff::Remove { key } => MapDiff::Remove { key }, MapDiff::Clear {} => MapDiff::Clear {} };
            same("map_value diff", d, &want)?; same("map_value", &rep.iter().map(|(k, v)| (*k, v.0)).collect(), &*s.got.borrow()) }
        Ev::Idle(rep) => same("map_value", &rep.iter().map(|(k, v)| (*k, v.0)).collect(), &*s.got.borrow()), Ev::End(_) => { ensure!(s.src.ended(), "ended before its source"); Ok(()) } } })
}
struct Elem { src: Src<u32>, cur: Rc<RefCell<u32>> }
pub fn c15_map_value_signal(r: &mut Rng, size: usize) -> Res {
    let env = Env::new(); let s = MapSrc::new(&env); let mut mk = counter(); let els: Rc<RefCell<HashMap<u32, Elem>>> = Default::default(); let (e2, l2) = (env.clone(), els.clone()); let calls: Rc<RefCell<Vec<u32>>> = Default::default(); let c2 = calls.clone();
    let sig = MM(s.src.mock()).map_value_signal(move |x| { c2.borrow_mut().push(x); let cur = Rc::new(RefCell::new(0)); let c = cur.clone(); let src = Src::new(&e2, "value signal").hook(move |v| { tr!("  signal of {} delivers {}", x, v); *c.borrow_mut() = *v; }); src.feed(x * 1000); let m = MS(src.mock()); l2.borrow_mut().insert(x, Elem { src, cur }); m });
    let want = || s.got.borrow().iter().map(|(k, v)| (*k, *els.borrow()[v].cur.borrow())).collect::<BTreeMap<_, _>>(); let mut n = 0;
    drive_map(&env, r, size, sig, &mut |r: &mut Rng, closing| {
        if closing { s.src.close(); for e in els.borrow().values() { if !e.src.closed() { e.src.close(); } } return; }
        for _ in 0..1 + r.n(3) { if r.p(1, 2) { if !s.src.closed() { if rnd_close(r) { s.src.close() } else { s.feed(r, &mut mk) } } } else { let e = els.borrow(); let mut ks: Vec<u32> = e.iter().filter(|(_, x)| !x.src.dropped() && !x.src.closed()).map(|(k, _)| *k).collect(); ks.sort(); if !ks.is_empty() { let k = ks[r.n(ks.len())]; if r.p(1, 6) { tr!("close signal of {}", k); e[&k].src.close(); } else { n += 1; tr!("feed signal of {} {}", k, n); e[&k].src.feed(n); } } } }
    }, &mut |_, e| { same("closure calls", &*calls.borrow(), &*s.entered.borrow())?; match e { Ev::Item(..) => Ok(()), Ev::Idle(rep) => same("map_value_signal", rep, &want()), Ev::End(rep) => { if let Some(n) = env.live() { fail!("ended although {} has not ended", n); } same("map_value_signal", rep, &want()) } } })
}
pub fn c15_key(r: &mut Rng, size: usize) -> Res {
    let env = Env::new(); let s = MapSrc::new(&env); let mut mk = counter(); let key = r.n(3) as u32; let sig = MM(s.src.mock()).key_cloned(key);
    let want = || s.got.borrow().get(&key).cloned();
    drive_sig(&env, r, size, sig, &mut act(&s, &mut mk), &mut |_, e| match e {
        Ev::Item(v, _) => same("key_cloned", v, &want()),
        Ev::Idle(out) => { ensure!(!out.is_empty(), "key_cloned went idle without a first value"); same("key_cloned", out.last().unwrap(), &want()) }
        Ev::End(out) => { ensure!(s.src.ended(), "ended before its source"); ensure!(!out.is_empty(), "ended without a value"); same("key_cloned", out.last().unwrap(), &want()) } })
}
pub fn c15_for_each(r: &mut Rng, size: usize) -> Res {
    let env = Env::new(); let s = MapSrc::new(&env); let mut mk = counter(); let got: Rc<RefCell<BTreeMap<u32, u32>>> = Default::default(); let g = got.clone(); let bad = Rc::new(RefCell::new(None)); let b = bad.clone();
    let mut f = Box::pin(MM(s.src.mock()).for_each(move |d| { if let Err(e) = apply_map(&mut g.borrow_mut(), &d) { *b.borrow_mut() = Some(e); } std::future::ready(()) }));
    drive_poll(&env, r, size, &mut |cx| f.as_mut().poll(cx).map(|_| None::<()>), &mut act(&s, &mut mk), &mut |_, e| { if let Some(e) = bad.borrow().clone() { fail!("{}", e); } match e { Ev::Item(..) => Ok(()), Ev::Idle(_) => same("for_each", &*got.borrow(), &*s.got.borrow()), Ev::End(_) => { ensure!(s.src.ended(), "ended before its source"); same("for_each", &*got.borrow(), &*s.got.borrow()) } } })
}
// ---- C13 / C14
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Cl(u32);
trait Subs<K, V> { fn poll(&mut self, env: &Env, model: &BTreeMap<K, V>, all: bool) -> Result<bool, String>; fn woken(&mut self, changed: bool) -> Res; fn end(&mut self, env: &Env, model: &BTreeMap<K, V>) -> Res; }
struct MapSub<K, V> { s: Option<MutableSignalMap<K, V>>, rep: BTreeMap<K, V>, w: Option<std::sync::Arc<CountWaker>> }
impl<K: Ord + Clone + std::fmt::Debug, V: Clone + PartialEq + std::fmt::Debug> Subs<K, V> for MapSub<K, V> {
    fn poll(&mut self, env: &Env, model: &BTreeMap<K, V>, all: bool) -> Result<bool, String> { loop { let s = match self.s.as_mut() { Some(s) => s, None => return Ok(false) };
        match env.poll(|cx| Pin::new(s).poll_map_change(cx)) { Poll::Ready(Some(d)) => { tr!("  map subscriber gets {:?}", d); apply_map(&mut self.rep, &d)?; if !all { return Ok(true); } } Poll::Ready(None) => { self.s = None; ensure!(self.rep == *model, "map subscriber ended with {:?}, expected {:?}", self.rep, model); return Ok(false); } Poll::Pending => { self.w = Some(env.last.borrow().clone()); ensure!(self.rep == *model, "map subscriber has {:?}, expected {:?}", self.rep, model); return Ok(false); } } } }
    fn woken(&mut self, changed: bool) -> Res { if let (Some(w), Some(_)) = (&self.w, &self.s) { if changed { ensure!(w.get() > 0, "an idle map subscriber was not woken by an edit"); } if w.get() > 0 { self.w = None; } } Ok(()) }
    fn end(&mut self, env: &Env, model: &BTreeMap<K, V>) -> Res { self.poll(env, model, true)?; ensure!(self.s.is_none(), "a map subscriber does not end after the map is gone"); Ok(()) }
}
struct VecSub<S: SignalVec, F> { s: Option<Pin<Box<S>>>, rep: Vec<S::Item>, f: F, upd: bool, w: Option<std::sync::Arc<CountWaker>> }
impl<K, V, S: SignalVec, F: Fn(&BTreeMap<K, V>) -> Vec<S::Item>> Subs<K, V> for VecSub<S, F> where S::Item: Clone + PartialEq + std::fmt::Debug {
    fn poll(&mut self, env: &Env, model: &BTreeMap<K, V>, all: bool) -> Result<bool, String> { loop { let s = match self.s.as_mut() { Some(s) => s, None => return Ok(false) };
        match env.poll(|cx| s.as_mut().poll_vec_change(cx)) { Poll::Ready(Some(d)) => { tr!("  vec subscriber gets {:?}", d); apply_ok(&mut self.rep, &d)?; if !all { return Ok(true); } } Poll::Ready(None) => { self.s = None; let w = (self.f)(model); ensure!(self.rep == w, "vec subscriber ended with {:?}, expected {:?}", self.rep, w); return Ok(false); } Poll::Pending => { self.w = Some(env.last.borrow().clone()); let w = (self.f)(model); ensure!(self.rep == w, "vec subscriber has {:?}, expected {:?}", self.rep, w); return Ok(false); } } } }
    fn woken(&mut self, changed: bool) -> Res { if let (Some(w), Some(_)) = (&self.w, &self.s) { if changed { ensure!(w.get() > 0, "an idle vec subscriber was not woken by an edit"); } if w.get() > 0 { self.w = None; } } Ok(()) }
    fn end(&mut self, env: &Env, model: &BTreeMap<K, V>) -> Res { self.poll(env, model, true)?; ensure!(self.s.is_none(), "a vec subscriber does not end after the map is gone"); Ok(()) }
}
macro_rules! btree { ($name:ident, $t:ty, $mk:expr, $insert:ident, $replace:ident, $newsub:expr) => {
pub fn $name(r: &mut Rng, size: usize) -> Res {
    let env = Env::new(); let mk = $mk; let mut n = 0; let mut val = move || { n += 1; mk(n) };
    let mut model: BTreeMap<$t, $t> = BTreeMap::new(); for _ in 0..r.n(3) { model.insert(mk(r.n(6) as u32), val()); }
    let m = MutableBTreeMap::with_values(model.clone()); let newsub = $newsub; tr!("start {:?}", model);
    let mut subs: Vec<Box<dyn Subs<$t, $t>>> = vec![];
    for _ in 0..size {
        match r.n(20) { 0 | 1 if subs.len() < 3 => { tr!("new subscriber"); subs.push(newsub(r, &m)); continue; } 2 if !subs.is_empty() => { let i = r.n(subs.len()); tr!("drop subscriber {}", i); subs.remove(i); continue; }
            3 | 4 if !subs.is_empty() => { let i = r.n(subs.len()); tr!("poll subscriber {}", i); let all = r.p(1, 2); subs[i].poll(&env, &model, all)?; continue; } _ => {} }
        let before = model.clone(); let k = mk(r.n(6) as u32); let mut l = m.lock_mut();
        match r.n(8) { 0..=3 => { let v = val(); tr!("insert {:?} {:?}", k, v); let a = l.$insert(k.clone(), v.clone()); let b = model.insert(k, v); ensure!(a == b, "insert returned {:?}, expected {:?}", a, b); }
            4 | 5 => { tr!("remove {:?}", k); let a = l.remove(&k); let b = model.remove(&k); ensure!(a == b, "remove returned {:?}, expected {:?}", a, b); }
            6 => { let mut x = BTreeMap::new(); for _ in 0..r.n(4) { x.insert(mk(r.n(6) as u32), val()); } tr!("replace {:?}", x); l.$replace(x.clone()); model = x; }
            _ => { if r.p(1, 2) { tr!("clear"); l.clear(); model.clear(); } } }
        ensure!(*l == model, "MutableBTreeMap holds {:?}, expected {:?}", *l, model); drop(l);
        let _ = &before; for s in subs.iter_mut() { s.woken(false)?; }
    }
    drop(m); for s in subs.iter_mut() { s.end(&env, &model)?; } Ok(())
} } }
btree!(c13_copy, u32, |x: u32| x, insert, replace, |_: &mut Rng, m: &MutableBTreeMap<u32, u32>| -> Box<dyn Subs<u32, u32>> { Box::new(MapSub { s: Some(m.signal_map()), rep: BTreeMap::new(), w: None }) });
btree!(c13_clone, Cl, |x: u32| Cl(x), insert_cloned, replace_cloned, |_: &mut Rng, m: &MutableBTreeMap<Cl, Cl>| -> Box<dyn Subs<Cl, Cl>> { Box::new(MapSub { s: Some(m.signal_map_cloned()), rep: BTreeMap::new(), w: None }) });
btree!(c14_keys, Cl, |x: u32| Cl(x), insert_cloned, replace_cloned, |r: &mut Rng, m: &MutableBTreeMap<Cl, Cl>| -> Box<dyn Subs<Cl, Cl>> { if r.p(1, 2) { Box::new(VecSub { s: Some(Box::pin(m.signal_vec_keys())), rep: vec![], f: |m: &BTreeMap<Cl, Cl>| m.keys().cloned().collect::<Vec<_>>(), upd: false, w: None }) } else { Box::new(VecSub { s: Some(Box::pin(m.entries_cloned())), rep: vec![], f: |m: &BTreeMap<Cl, Cl>| m.iter().map(|(a, b)| (a.clone(), b.clone())).collect::<Vec<_>>(), upd: true, w: None }) } });
btree!(c14_copy, u32, |x: u32| x, insert, replace, |r: &mut Rng, m: &MutableBTreeMap<u32, u32>| -> Box<dyn Subs<u32, u32>> { if r.p(1, 2) { Box::new(VecSub { s: Some(Box::pin(m.signal_vec_keys())), rep: vec![], f: |m: &BTreeMap<u32, u32>| m.keys().cloned().collect::<Vec<_>>(), upd: false, w: None }) } else { Box::new(VecSub { s: Some(Box::pin(m.signal_vec_entries())), rep: vec![], f: |m: &BTreeMap<u32, u32>| m.iter().map(|(a, b)| (*a, *b)).collect::<Vec<_>>(), upd: true, w: None }) } });
