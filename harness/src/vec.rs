//! Signal-vec scenarios: C01..C12, C21.
use crate::core::*;
use crate::{ensure, fail, tr};
use futures_signals::signal::{Signal, SignalExt, ReadOnlyMutable};
use futures_signals::signal_vec::{MutableVec, MutableSignalVec, SignalVec, SignalVecExt, VecDiff};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
use std::future::Future;

pub type Case = fn(&mut Rng, usize) -> Res;
fn counter() -> impl FnMut(&mut Rng) -> u32 { let mut n = 0; move |r: &mut Rng| { n += 1; n * 8 + r.n(8) as u32 } }
fn close1<T: 'static>(closing: bool, r: &mut Rng, s: &Src<T>) -> bool { if !s.closed() && (closing || rnd_close(r)) { s.close(); true } else { s.closed() } }
const CAP: usize = 6;

fn feeder<'a>(s: &'a VecSrc<u32>, mk: &'a mut dyn FnMut(&mut Rng) -> u32) -> impl FnMut(&mut Rng, bool) + 'a {
    move |r, closing| { if close1(closing, r, &s.src) { return; } for _ in 0..1 + r.n(2) { s.feed(r, CAP, mk); } }
}
fn same<A: PartialEq + std::fmt::Debug>(what: &str, got: &[A], want: &[A]) -> Res { ensure!(got == want, "{}: contents {:?}, expected {:?}", what, got, want); Ok(()) }

// ---- C02
pub fn c02_apply(r: &mut Rng, size: usize) -> Res {
    let mut mk = counter(); let mut v: Vec<u32> = (0..r.n(CAP)).map(|_| mk(r)).collect(); let mut w = v.clone();
    for _ in 0..size { let d = gen_diff(r, v.len(), CAP, &mut mk); tr!("apply {:?} to {:?}", d, v); apply_ok(&mut w, &d)?; d.apply_to_vec(&mut v); same("apply_to_vec", &v, &w)?; }
    Ok(())
}
// ---- C03 (and C02's map part)
pub fn c03_map(r: &mut Rng, size: usize) -> Res {
    let env = Env::new(); let s = VecSrc::new(&env, "source"); let mut mk = counter();
    let calls = Rc::new(RefCell::new(vec![])); let c2 = calls.clone();
    let sig = s.mock(); let mut n = 0u32;
    let sig = sig.map(move |x: u32| { c2.borrow_mut().push(x); n += 1; (x, n) });
    let mut k = 0u32;
    drive_vec(&env, r, size, sig, &mut feeder(&s, &mut mk), &mut |_, e| {
        same("closure calls", &calls.borrow(), &s.entered.borrow())?;
        match e {
            Ev::Item(d, rep) => { let src = s.last.borrow().clone().unwrap(); let want = map_diff(&src, &mut |x| { k += 1; (*x, k) }); ensure!(*d == want, "map: emitted {:?}, expected {:?}", d, want); same("map", &rep.iter().map(|x| x.0).collect::<Vec<_>>(), &s.cur()) }
            Ev::Idle(rep) => same("map", &rep.iter().map(|x| x.0).collect::<Vec<_>>(), &s.cur()),
            Ev::End(_) => { ensure!(s.src.ended(), "ended before its source"); Ok(()) }
        }
    })
}
// ---- C04
pub fn c04_filter(r: &mut Rng, size: usize) -> Res {
    let env = Env::new(); let s = VecSrc::new(&env, "source"); let mut mk = counter(); let calls = Rc::new(RefCell::new(vec![])); let c2 = calls.clone(); let mode = r.n(3);
    let keep = move |x: &u32| match mode { 0 => x % 2 == 0, 1 => x % 8 != 0, _ => x % 8 < 2 };
    let sig = s.mock().filter(move |x| { c2.borrow_mut().push(*x); keep(x) });
    drive_vec(&env, r, size, sig, &mut feeder(&s, &mut mk), &mut |_, e| {
        same("closure calls", &calls.borrow(), &s.entered.borrow())?;
        match e { Ev::Item(_, rep) | Ev::Idle(rep) | Ev::End(rep) => same("filter", rep, &s.cur().into_iter().filter(|x| keep(x)).collect::<Vec<_>>())? }
        if let Ev::End(_) = e { ensure!(s.src.ended(), "ended before its source"); } Ok(())
    })
}
pub fn c04_filter_map(r: &mut Rng, size: usize) -> Res {
    let env = Env::new(); let s = VecSrc::new(&env, "source"); let mut mk = counter(); let calls = Rc::new(RefCell::new(vec![])); let c2 = calls.clone(); let mode = r.n(3);
    let keep = move |x: u32| if match mode { 0 => x % 2 == 0, 1 => x % 8 != 0, _ => x % 8 < 2 } { Some((x, "v")) } else { None };
    let sig = s.mock().filter_map(move |x| { c2.borrow_mut().push(x); keep(x) });
    drive_vec(&env, r, size, sig, &mut feeder(&s, &mut mk), &mut |_, e| {
        same("closure calls", &calls.borrow(), &s.entered.borrow())?;
        match e { Ev::Item(_, rep) | Ev::Idle(rep) | Ev::End(rep) => same("filter_map", rep, &s.cur().into_iter().filter_map(|x| keep(x)).collect::<Vec<_>>())? }
        if let Ev::End(_) = e { ensure!(s.src.ended(), "ended before its source"); } Ok(())
    })
}
// ---- C05
pub fn c05_sort(r: &mut Rng, size: usize) -> Res {
    let env = Env::new(); let s = VecSrc::new(&env, "source"); let mut mk = counter(); let mode = r.n(3);
    let key = move |x: &u32| match mode { 0 => x % 2, 1 => x % 8, _ => 7 - x % 8 };
    let sig = s.mock().sort_by_cloned(move |a, b| key(a).cmp(&key(b)));
    let want = |s: &VecSrc<u32>| { let mut v = s.cur(); v.sort_by(|a, b| key(a).cmp(&key(b))); v };
    let since = Cell::new(0usize); let seen = RefCell::new(s.last.borrow().clone());
    if r.p(1, 6) { s.start(r, 60, &mut mk); } // a long initial list
    drive_vec(&env, r, size, sig, &mut feeder(&s, &mut mk), &mut |_, e| {
        let _ = (&since, &seen);
        match e {
            Ev::Item(_, rep) => { let w = want(&s); if *rep != w { // only a two-diff change may be half done
                    ensure!(since.get() == 0, "sort: contents {:?}, expected {:?}", rep, w); since.set(1); } else { since.set(0); } Ok(()) }
            Ev::Idle(rep) => { ensure!(since.get() == 0, "sort: second diff never followed"); same("sort", rep, &want(&s)) }
            Ev::End(rep) => { ensure!(s.src.ended(), "ended before its source"); same("sort", rep, &want(&s)) }
        }
    })
}
// ---- C06
pub fn c06_chain(r: &mut Rng, size: usize) -> Res {
    let env = Env::new(); let a = VecSrc::new(&env, "left"); let b = VecSrc::new(&env, "right"); let mut mk = counter();
    let sig = a.mock().chain(b.mock());
    let want = || { let mut v = a.cur(); v.extend(b.cur()); v };
    drive_vec(&env, r, size, sig, &mut |r: &mut Rng, closing| {
        if closing { a.src.close(); b.src.close(); return; }
        for _ in 0..1 + r.n(3) { let s = if r.p(1, 2) { &a } else { &b }; if !close1(false, r, &s.src) { s.feed(r, 4, &mut mk); } }
    }, &mut |_, e| match e {
        Ev::Item(..) => Ok(()), Ev::Idle(rep) => same("chain", rep, &want()),
        Ev::End(rep) => { ensure!(a.src.ended() && b.src.ended(), "ended although a source has not ended"); same("chain", rep, &want()) }
    })
}
// ---- C07: outer list of inner list sources (handles by index into a table)
#[derive(Clone)]
struct Inner(Rc<VecSrc<u32>>);
impl std::fmt::Debug for Inner { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0.src.0.borrow().name) } }
const NAMES: [&str; 16] = ["i0", "i1", "i2", "i3", "i4", "i5", "i6", "i7", "i8", "i9", "i10", "i11", "i12", "i13", "i14", "i15+"];
struct Sv(MV<u32>);
impl SignalVec for Sv { type Item = u32; fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<u32>>> { Pin::new(&mut self.0).poll_vec_change(cx) } }
pub fn c07_flatten(r: &mut Rng, size: usize) -> Res {
    let env = Env::new(); let outer: VecSrc<Inner> = VecSrc::new(&env, "outer");
    let all: Rc<RefCell<Vec<Inner>>> = Rc::new(RefCell::new(vec![])); let cnt = Rc::new(RefCell::new(counter()));
    let (e2, a2, c2) = (env.clone(), all.clone(), cnt.clone());
    let mut mk = move |r: &mut Rng| { let s = VecSrc::new(&e2, NAMES[a2.borrow().len().min(15)]); s.src.0.borrow_mut().idle_only = true;
        for _ in 0..r.n(3) { s.feed(r, 3, &mut *c2.borrow_mut()); } if r.p(1, 5) { s.src.close(); } let i = Inner(Rc::new(s)); a2.borrow_mut().push(i.clone()); i };
    // map handles to mock vecs outside the library
    struct Conv(MV<Inner>);
    impl SignalVec for Conv { type Item = Sv; fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<Sv>>> {
        Pin::new(&mut self.0).poll_vec_change(cx).map(|o| o.map(|d| map_diff(&d, &mut |i: &Inner| { i.0.src.0.borrow_mut().idle_only = false; Sv(i.0.mock()) }))) } }
    let sig = Conv(outer.mock()).flatten();
    let want = || outer.cur().iter().flat_map(|i| i.0.cur()).collect::<Vec<u32>>();
    drive_vec(&env, r, size, sig, &mut |r: &mut Rng, closing| {
        if closing { outer.src.close(); for i in all.borrow().iter() { i.0.src.close(); } return; }
        for _ in 0..1 + r.n(3) {
            if r.p(1, 3) { if !close1(false, r, &outer.src) { outer.feed(r, 3, &mut mk); } }
            else { let cur = all.borrow().clone(); if cur.len() > 0 { let k = cur.len() - 1 - r.n(cur.len().min(4)); let s = &cur[k].0; if !s.src.dropped() && !s.src.closed() { if r.p(1, 12) { s.src.close() } else { s.feed(r, 3, &mut *cnt.borrow_mut()) } } } }
        }
    }, &mut |_, e| match e {
        Ev::Item(..) => Ok(()), Ev::Idle(rep) => same("flatten", rep, &want()),
        Ev::End(rep) => { if let Some(n) = env.live() { fail!("ended although {} has not ended", n); } same("flatten", rep, &want()) }
    })
}
// ---- C08
#[derive(Clone)]
struct En(ReadOnlyMutable<Option<usize>>, u32);
impl std::fmt::Debug for En { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}@{:?}", self.1, self.0.get()) } }
struct EnV<S>(Pin<Box<S>>);
impl<S: SignalVec<Item = (ReadOnlyMutable<Option<usize>>, u32)>> SignalVec for EnV<S> { type Item = En; fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<En>>> { self.0.as_mut().poll_vec_change(cx).map(|o| o.map(|d| map_diff(&d, &mut |x| En(x.0.clone(), x.1)))) } }
pub fn c08_enumerate(r: &mut Rng, size: usize) -> Res {
    let env = Env::new(); let s = VecSrc::new(&env, "source"); let mut mk = counter();
    let sig = EnV(Box::pin(s.mock().enumerate()));
    let seen: RefCell<Vec<(ReadOnlyMutable<Option<usize>>, Option<usize>)>> = RefCell::new(vec![]); // handles of removed elements must be None
    let live: RefCell<Vec<ReadOnlyMutable<Option<usize>>>> = RefCell::new(vec![]);
    drive_vec(&env, r, size, sig, &mut feeder(&s, &mut mk), &mut |_, e| {
        let rep = match &e { Ev::Item(d, rep) => { let src = s.last.borrow().clone().unwrap(); let want = map_diff(&src, &mut |x| *x); let got = map_diff(d, &mut |x: &En| x.1); ensure!(got == want, "enumerate: emitted {:?}, expected {:?}", got, want);
                // which handles left the list?  every element keeps its own handle, in list order
                let upd = match &src { VecDiff::UpdateAt { index, .. } => Some(*index), _ => None };
                let mut l = live.borrow_mut(); let mut hs: Vec<Option<ReadOnlyMutable<Option<usize>>>> = l.iter().cloned().map(Some).collect();
                match &src { VecDiff::Replace { .. } | VecDiff::Clear {} => { for h in l.iter() { seen.borrow_mut().push((h.clone(), None)); } } VecDiff::RemoveAt { index } => { seen.borrow_mut().push((l[*index].clone(), None)); } VecDiff::Pop {} => { seen.borrow_mut().push((l[l.len() - 1].clone(), None)); } _ => {} }
                let _ = (&mut hs, upd); *l = rep.iter().map(|x| x.0.clone()).collect(); rep }
            Ev::Idle(rep) => rep, Ev::End(rep) => { ensure!(s.src.ended(), "ended before its source"); rep } };
        same("enumerate", &rep.iter().map(|x| x.1).collect::<Vec<_>>(), &s.cur())?;
        for (i, x) in rep.iter().enumerate() { ensure!(x.0.get() == Some(i), "enumerate: element {} at position {} has index {:?}", x.1, i, x.0.get()); }
        for (h, w) in seen.borrow().iter() { ensure!(h.get() == *w, "enumerate: a removed element's index is {:?}", h.get()); }
        Ok(())
    })
}
// ---- C09
fn track<T: Clone + PartialEq + std::fmt::Debug + 'static, S: Signal<Item = T>>(what: &'static str, r: &mut Rng, size: usize, dedupe: bool, mk_sig: impl FnOnce(MV<u32>) -> S, f: impl Fn(&[u32]) -> T) -> Res {
    let env = Env::new(); let s = VecSrc::new(&env, "source"); let mut mk = counter(); let sig = mk_sig(s.mock());
    drive_sig(&env, r, size, sig, &mut feeder(&s, &mut mk), &mut |_, e| match e {
        Ev::Item(v, out) => { ensure!(*v == f(&s.cur()), "{}: reported {:?}, expected {:?}", what, v, f(&s.cur())); if dedupe && out.len() > 1 { ensure!(out[out.len() - 2] != *v, "{}: reported {:?} twice", what, v); } Ok(()) }
        Ev::Idle(out) => { ensure!(!out.is_empty(), "{}: went idle without a first value", what); ensure!(*out.last().unwrap() == f(&s.cur()), "{}: idle with last value {:?}, expected {:?}", what, out.last(), f(&s.cur())); Ok(()) }
        Ev::End(out) => { ensure!(s.src.ended(), "ended before its source"); ensure!(!out.is_empty(), "{}: ended without a value", what); ensure!(*out.last().unwrap() == f(&s.cur()), "{}: ended with last value {:?}, expected {:?}", what, out.last(), f(&s.cur())); Ok(()) }
    })
}
pub fn c09_len(r: &mut Rng, size: usize) -> Res { track("len", r, size, false, |s| s.len(), |v| v.len()) }
pub fn c09_is_empty(r: &mut Rng, size: usize) -> Res { track("is_empty", r, size, true, |s| s.is_empty(), |v| v.is_empty()) }
pub fn c09_sum(r: &mut Rng, size: usize) -> Res { track("sum", r, size, false, |s| s.sum(), |v| v.iter().sum::<u32>()) }
pub fn c09_map(r: &mut Rng, size: usize) -> Res { track("to_signal_map", r, size, false, |s| s.to_signal_map(|x| format!("{:?}", x)), |v| format!("{:?}", v)) }
pub fn c09_cloned(r: &mut Rng, size: usize) -> Res { track("to_signal_cloned", r, size, false, |s| s.to_signal_cloned(), |v| v.to_vec()) }

// ---- C10 / C11: one signal per element. Each element signal has an initial value ready.
struct Elem<T> { src: Src<T>, cur: Rc<RefCell<Option<T>>> }
type Elems<T> = Rc<RefCell<HashMap<u32, Elem<T>>>>;
fn new_elem<T: Clone + 'static + std::fmt::Debug>(env: &Env, els: &Elems<T>, id: u32, init: T) -> MS<T> {
    let cur = Rc::new(RefCell::new(None)); let c = cur.clone();
    let src = Src::new(env, "element signal").hook(move |v: &T| { tr!("  signal of {} delivers {:?}", id, v); *c.borrow_mut() = Some(v.clone()); });
    src.feed(init); let m = MS(src.mock()); els.borrow_mut().insert(id, Elem { src, cur }); m
}
fn act_elems<T: Clone + 'static + std::fmt::Debug>(r: &mut Rng, closing: bool, s: &VecSrc<u32>, mk: &mut dyn FnMut(&mut Rng) -> u32, els: &Elems<T>, val: &mut dyn FnMut(&mut Rng) -> T) {
    let pick = |r: &mut Rng| -> Option<u32> { let e = els.borrow(); let mut k: Vec<u32> = e.iter().filter(|(_, x)| !x.src.dropped() && !x.src.closed()).map(|(k, _)| *k).collect(); k.sort(); if k.is_empty() { None } else { Some(k[r.n(k.len())]) } };
    if closing { s.src.close(); for (_, e) in els.borrow().iter() { if !e.src.dropped() && !e.src.closed() { e.src.close(); } } return; }
    for _ in 0..1 + r.n(3) {
        if r.p(1, 2) { if !close1(false, r, &s.src) { s.feed(r, 5, mk); } }
        else if let Some(k) = pick(r) { let e = els.borrow(); if r.p(1, 6) { tr!("close signal of {}", k); e[&k].src.close(); } else { let v = val(r); tr!("feed signal of {} {:?}", k, v); e[&k].src.feed(v); } }
    }
}
fn kept<T>(s: &VecSrc<u32>, els: &Elems<T>) -> Res where T: Clone + 'static { for x in s.cur() { let e = els.borrow(); ensure!(!e[&x].src.dropped() || e[&x].src.ended(), "the signal of present element {} was dropped before it ended", x); } Ok(()) }
pub fn c10_map_signal(r: &mut Rng, size: usize) -> Res {
    let env = Env::new(); let s = VecSrc::new(&env, "source"); let mut mk = counter(); let els: Elems<(u32, u32)> = Default::default();
    let (e2, l2) = (env.clone(), els.clone()); let calls = Rc::new(RefCell::new(vec![])); let c2 = calls.clone();
    let sig = s.mock().map_signal(move |x| { c2.borrow_mut().push(x); new_elem(&e2, &l2, x, (x, 0)) });
    let want = || s.cur().iter().map(|x| els.borrow()[x].cur.borrow().unwrap()).collect::<Vec<_>>();
    let n = Cell::new(0u32);
    drive_vec(&env, r, size, sig, &mut |r: &mut Rng, c| act_elems(r, c, &s, &mut mk, &els, &mut |_| { n.set(n.get() + 1); (0, n.get()) }), &mut |_, e| { same("closure calls", &calls.borrow(), &s.entered.borrow())?; match e {
        Ev::Item(..) => Ok(()), Ev::Idle(rep) => { kept(&s, &els)?; same("map_signal", rep, &want()) }
        Ev::End(rep) => { if let Some(n) = env.live() { fail!("ended although {} has not ended", n); } same("map_signal", rep, &want()) } } })
}
pub fn c11_filter_signal(r: &mut Rng, size: usize) -> Res {
    let env = Env::new(); let s = VecSrc::new(&env, "source"); let mut mk = counter(); let els: Elems<bool> = Default::default();
    let (e2, l2) = (env.clone(), els.clone()); let calls = Rc::new(RefCell::new(vec![])); let c2 = calls.clone();
    let sig = s.mock().filter_signal_cloned(move |x| { c2.borrow_mut().push(*x); new_elem(&e2, &l2, *x, x % 2 == 0) });
    let want = || s.cur().into_iter().filter(|x| els.borrow()[x].cur.borrow().unwrap()).collect::<Vec<_>>();
    drive_vec(&env, r, size, sig, &mut |r: &mut Rng, c| act_elems(r, c, &s, &mut mk, &els, &mut |r| r.p(1, 2)), &mut |_, e| { same("closure calls", &calls.borrow(), &s.entered.borrow())?; match e {
        Ev::Item(..) => Ok(()), Ev::Idle(rep) => { kept(&s, &els)?; same("filter_signal_cloned", rep, &want()) }
        Ev::End(rep) => { if let Some(n) = env.live() { fail!("ended although {} has not ended", n); } same("filter_signal_cloned", rep, &want()) } } })
}
// ---- C12
pub fn c12_delay_remove(r: &mut Rng, size: usize) -> Res {
    let env = Env::new(); let s = VecSrc::new(&env, "source"); let mut mk = counter();
    let futs: Rc<RefCell<HashMap<u32, Src<()>>>> = Default::default(); let (e2, f2) = (env.clone(), futs.clone()); let calls = Rc::new(RefCell::new(vec![])); let c2 = calls.clone();
    let pre = r.n(3);
    let sig = s.mock().delay_remove(move |x| { c2.borrow_mut().push(*x); let f: Src<()> = Src::new(&e2, "removal future").oneshot(); f.0.borrow_mut().idle_only = true; if pre == 0 && x % 4 == 0 { f.feed(()); } let m = MF(f.mock()); f2.borrow_mut().insert(*x, f); m });
    // removed by the source (not replaced by UpdateAt): their futures become required
    let removed: Rc<RefCell<Vec<u32>>> = Default::default(); let prev: Rc<RefCell<Vec<u32>>> = Default::default();
    { let (rm, pv, f3) = (removed.clone(), prev.clone(), futs.clone()); let old = s.src.0.borrow_mut().hook.take().unwrap(); let mut old = old; let got = s.got.clone();
      s.src.0.borrow_mut().hook = Some(Box::new(move |d: &VecDiff<u32>| { old(d); let now = got.borrow().clone(); let upd = matches!(d, VecDiff::UpdateAt { .. });
        for x in pv.borrow().iter() { if !now.contains(x) && !upd { rm.borrow_mut().push(*x); if let Some(f) = f3.borrow().get(x) { f.0.borrow_mut().idle_only = false; } } } *pv.borrow_mut() = now; })); }
    let check = |rep: &Vec<u32>, fin: bool| -> Res {
        let cur = s.cur(); let inner: Vec<u32> = rep.iter().cloned().filter(|x| cur.contains(x)).collect(); same("delay_remove (source elements)", &inner, &cur)?;
        for x in rep.iter() { if !cur.contains(x) { ensure!(removed.borrow().contains(x), "delay_remove: {} is neither in the source nor removed", x); ensure!(!futs.borrow()[x].ended(), "delay_remove: {} is still listed although its removal future completed", x); ensure!(!fin, "ended while {} was still waiting for its removal", x); } }
        for x in removed.borrow().iter() { ensure!(rep.contains(x) || futs.borrow()[x].ended(), "delay_remove: {} left before its removal future completed", x); }
        Ok(()) };
    drive_vec(&env, r, size, sig, &mut |r: &mut Rng, c| {
        if c { s.src.close(); for f in futs.borrow().values() { if !f.dropped() && f.empty() && !f.ended() { f.feed(()); } } return; }
        for _ in 0..1 + r.n(2) { if r.p(2, 3) { if !close1(false, r, &s.src) { s.feed(r, 5, &mut mk); } } else {
            let f = futs.borrow(); let mut ks: Vec<u32> = f.iter().filter(|(_, f)| !f.dropped() && !f.ended() && f.empty()).map(|x| *x.0).collect(); ks.sort(); if !ks.is_empty() { let k = ks[r.n(ks.len())]; tr!("complete removal future of {}", k); f[&k].feed(()); } } }
    }, &mut |_, e| { same("closure calls", &calls.borrow(), &s.entered.borrow())?; match e {
        Ev::Item(_, rep) => { for x in removed.borrow().iter() { let _ = (x, rep); } Ok(()) } Ev::Idle(rep) => check(rep, false),
        Ev::End(rep) => { if let Some(n) = env.live() { fail!("ended although {} has not ended", n); } check(rep, true) } } })
}
// ---- C21
pub fn c21_switch_vec(r: &mut Rng, size: usize) -> Res {
    let env = Env::new(); let outer: Src<u32> = Src::new(&env, "outer"); let cnt = Rc::new(RefCell::new(counter()));
    let all: Rc<RefCell<Vec<Rc<VecSrc<u32>>>>> = Default::default(); let (e2, a2, c2) = (env.clone(), all.clone(), cnt.clone()); let mut rr = Rng::new(r.u());
    let shown: Rc<Cell<bool>> = Rc::new(Cell::new(false));
    let sig = MS(outer.mock()).switch_signal_vec(move |_| { let s = VecSrc::new(&e2, NAMES[a2.borrow().len().min(15)]); let kind = rr.n(4); if kind > 0 { for _ in 0..rr.n(3) { s.feed(&mut rr, 3, &mut *c2.borrow_mut()); } } if rr.p(1, 3) { s.src.close(); } let m = s.mock(); a2.borrow_mut().push(Rc::new(s)); m });
    let want = || all.borrow().last().map(|s| s.cur()).unwrap_or(vec![]);
    let _ = &shown; let mut n = 0;
    drive_vec(&env, r, size, sig, &mut |r: &mut Rng, c| {
        if c { outer.close(); for s in all.borrow().iter() { if !s.src.closed() { s.src.close(); } } return; }
        for _ in 0..1 + r.n(2) { if r.p(1, 3) { if !close1(false, r, &outer) { n += 1; tr!("feed outer {}", n); outer.feed(n); } } else if let Some(s) = all.borrow().last() { if !close1(r.p(1, 12), r, &s.src) { s.feed(r, 3, &mut *cnt.borrow_mut()); } } }
    }, &mut |_, e| match e {
        Ev::Item(_, rep) => { same("switch_signal_vec", rep, &want()) } Ev::Idle(rep) => same("switch_signal_vec", rep, &want()),
        Ev::End(rep) => { if let Some(n) = env.live() { fail!("ended although {} has not ended", n); } same("switch_signal_vec", rep, &want()) } })
}
// ---- C01
#[derive(Clone, Debug, PartialEq)]
struct Cl(u32);
struct Sub<T> { s: Option<MutableSignalVec<T>>, rep: Vec<T>, w: Option<std::sync::Arc<CountWaker>> }
impl<T: Clone + std::fmt::Debug + PartialEq> Sub<T> {
    fn poll(&mut self, env: &Env) -> Result<bool, String> { // true: got a diff
        let s = match self.s.as_mut() { Some(s) => s, None => return Ok(false) };
        match env.poll(|cx| Pin::new(s).poll_vec_change(cx)) { Poll::Ready(Some(d)) => { tr!("  subscriber gets {:?}", d); apply_ok(&mut self.rep, &d)?; Ok(true) } Poll::Ready(None) => { self.s = None; Ok(false) } Poll::Pending => { self.w = Some(env.last.borrow().clone()); Ok(false) } }
    }
}
macro_rules! mutable_vec { ($name:ident, $t:ty, $mk:expr, $push:ident, $insert:ident, $set:ident, $replace:ident, $sub:ident, $diff:expr) => {
pub fn $name(r: &mut Rng, size: usize) -> Res {
    let env = Env::new(); let mut c = counter(); let mk = $mk; let mut mk = |r: &mut Rng| -> $t { mk(c(r)) };
    let mut model: Vec<$t> = (0..r.n(4)).map(|_| mk(r)).collect(); let mv = MutableVec::new_with_values(model.clone());
    tr!("start {:?}", model);
    let mut subs: Vec<Sub<$t>> = vec![];
    for _ in 0..size {
        match r.n(24) {
            0 | 1 if subs.len() < 3 => { tr!("new subscriber"); subs.push(Sub { s: Some(mv.$sub()), rep: vec![], w: None }); continue; }
            2 if subs.len() > 0 => { let i = r.n(subs.len()); tr!("drop subscriber {}", i); subs.remove(i); continue; }
            3 | 4 if subs.len() > 0 => { let i = r.n(subs.len()); tr!("poll subscriber {}", i); if r.p(1, 2) { while subs[i].poll(&env)? {} same("subscriber", &subs[i].rep, &model)?; } else { subs[i].poll(&env)?; } continue; }
            _ => {}
        }
        let before = model.clone(); let n = model.len(); let mut l = mv.lock_mut();
        match r.n(16) {
            0 => { let v = mk(r); tr!("push {:?}", v); l.$push(v.clone()); model.push(v); }
            1 => { let v = mk(r); let i = r.n(n + 1); tr!("insert {} {:?}", i, v); l.$insert(i, v.clone()); model.insert(i, v); }
            2 if n > 0 => { let v = mk(r); let i = r.n(n); tr!("set {} {:?}", i, v); l.$set(i, v.clone()); model[i] = v; }
            3 if n > 0 => { let i = r.n(n); tr!("remove {}", i); let x = l.remove(i); ensure!(x == model.remove(i), "remove returned {:?}", x); }
            4 => { tr!("pop"); let x = l.pop(); ensure!(x == model.pop(), "pop returned {:?}", x); }
            5 if n > 0 => { let (a, b) = (r.n(n), r.n(n)); tr!("move {} {}", a, b); l.move_from_to(a, b); let x = model.remove(a); model.insert(b, x); }
            6 if n > 0 => { let (a, b) = (r.n(n), r.n(n)); tr!("swap {} {}", a, b); l.swap(a, b); model.swap(a, b); }
            7 => { tr!("reverse"); l.reverse(); model.reverse(); }
            8 => { let m = r.n(256); tr!("retain mask {:b}", m); let mut k = 0; l.retain(|_| { k += 1; m >> (k % 8) & 1 == 1 }); k = 0; model.retain(|_| { k += 1; m >> (k % 8) & 1 == 1 }); }
            9 => { let a = r.n(n + 1); let b = a + r.n(n + 1 - a); tr!("drain {}..{}", a, b); let (x, y): (Vec<_>, Vec<_>) = match r.n(4) {
                    0 => (l.drain(a..b).collect(), model.drain(a..b).collect()), 1 if b > a => (l.drain(a..=b - 1).collect(), model.drain(a..=b - 1).collect()), 2 => (l.drain(a..).collect(), model.drain(a..).collect()), 3 if a > 0 => { let (lo, hi) = (std::ops::Bound::Excluded(a - 1), std::ops::Bound::Excluded(b)); (l.drain((lo, hi)).collect(), model.drain((lo, hi)).collect()) } _ => (l.drain(..b).collect(), model.drain(..b).collect()) }; ensure!(x == y, "drain returned {:?}", x); }
            10 => { let m = r.n(n + 3); tr!("truncate {}", m); l.truncate(m); model.truncate(m); }
            11 if r.p(1, 2) => { tr!("clear"); l.clear(); model.clear(); }
            12 => { let v: Vec<$t> = (0..r.n(4)).map(|_| mk(r)).collect(); tr!("replace {:?}", v); l.$replace(v.clone()); model = v; }
            13 => { let v: Vec<$t> = (0..r.n(3)).map(|_| mk(r)).collect(); tr!("extend {:?}", v); l.extend(v.clone()); model.extend(v); }
            14 | 15 => { let d = gen_diff(r, n, 8, &mut mk); tr!("apply {:?}", d); apply_ok(&mut model, &d)?; futures_signals::signal_vec::MutableVecLockMut::apply_vec_diff(&mut l, d); }
            _ => {}
        }
        same("MutableVec", &l, &model)?; drop(l);
        if before != model { for s in &subs { if let (Some(w), Some(_)) = (&s.w, &s.s) { ensure!(w.get() > 0, "an idle subscriber was not woken by an edit"); } } }
        for s in subs.iter_mut() { if let Some(w) = &s.w { if w.get() > 0 { s.w = None; } } }
    }
    drop(mv);
    for s in subs.iter_mut() { while s.poll(&env)? {} ensure!(s.s.is_none(), "a subscriber does not end after the MutableVec is gone"); same("subscriber at end", &s.rep, &model)?; }
    Ok(())
} } }
mutable_vec!(c01_copy, u32, |x| x, push, insert, set, replace, signal_vec, 0);
mutable_vec!(c01_clone, Cl, |x| Cl(x), push_cloned, insert_cloned, set_cloned, replace_cloned, signal_vec_cloned, 0);

// ---- always / from_stream / for_each / to_stream / signal_vec::always, for C03 & C20 & C27
pub fn c20_vec_sinks(r: &mut Rng, size: usize) -> Res {
    let env = Env::new(); let s = VecSrc::new(&env, "source"); let mut mk = counter();
    match r.n(3) {
        0 => { let mut st = Box::pin(s.mock().to_stream()); use futures_core::Stream;
            drive_poll(&env, r, size, &mut |cx| st.as_mut().poll_next(cx), &mut feeder(&s, &mut mk), &mut |_, e| match e { Ev::Item(d, _) => { ensure!(Some(d.clone()) == *s.last.borrow(), "to_stream changed a diff"); Ok(()) } Ev::Idle(_) => Ok(()), Ev::End(_) => { ensure!(s.src.ended(), "ended before its source"); Ok(()) } }) }
        1 => { let got = Rc::new(RefCell::new(vec![])); let g = got.clone(); let last = s.last.clone(); let log = Rc::new(RefCell::new(vec![])); let lg = log.clone();
            let mut f = Box::pin(s.mock().for_each(move |d| { lg.borrow_mut().push(last.borrow().clone() == Some(d.clone())); apply_ok(&mut g.borrow_mut(), &d).unwrap(); std::future::ready(()) }));
            drive_poll(&env, r, size, &mut |cx| f.as_mut().poll(cx).map(|_| None::<()>), &mut feeder(&s, &mut mk), &mut |_, e| { ensure!(log.borrow().iter().all(|x| *x), "for_each changed a diff"); match e { Ev::Item(..) => Ok(()), Ev::Idle(_) => same("for_each", &got.borrow(), &s.cur()), Ev::End(_) => { ensure!(s.src.ended(), "ended before its source"); same("for_each", &got.borrow(), &s.cur()) } } }) }
        _ => { s.src.0.borrow_mut().idle_only = true; let src: Src<u32> = Src::new(&env, "stream"); let log: Rc<RefCell<Vec<u32>>> = Default::default(); let l2 = log.clone(); let src = src.hook(move |x| l2.borrow_mut().push(*x)); let sig = futures_signals::signal_vec::from_stream(MT(src.mock()));
            drive_vec(&env, r, size, sig, &mut |r: &mut Rng, c| { if !close1(c, r, &src) { let v = mk(r); src.feed(v); } }, &mut |_, e| match e { Ev::Item(_, rep) | Ev::Idle(rep) => same("from_stream", rep, &log.borrow()), Ev::End(rep) => { ensure!(src.ended(), "ended before its source"); same("from_stream", rep, &log.borrow()) } }) }
    }
}
