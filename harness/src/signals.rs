//! Signal scenarios: C16..C20.
use crate::core::*;
use crate::{ensure, fail, tr};
use futures_signals::signal::{self, Signal, SignalExt};
use futures_signals::signal_vec::{SignalVecExt, VecDiff, SignalVec};
use futures_signals::{map_ref, map_mut};
use futures_core::Stream;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

/// A source of signal values: always has a value ready for the first poll.
pub struct SigSrc<T> { pub src: Src<T>, pub got: Rc<RefCell<Vec<T>>> }
impl<T: Clone + std::fmt::Debug + 'static> SigSrc<T> {
    pub fn new(env: &Env, name: &'static str, first: T) -> SigSrc<T> {
        let got = Rc::new(RefCell::new(vec![])); let g = got.clone();
        let src = Src::new(env, name).hook(move |v: &T| { tr!("  {} delivers {:?}", name, v); g.borrow_mut().push(v.clone()); });
        tr!("feed {} {:?}", name, first); src.feed(first); SigSrc { src, got }
    }
    pub fn mock(&self) -> MS<T> { MS(self.src.mock()) }
    pub fn got(&self) -> Vec<T> { self.got.borrow().clone() }
    pub fn last(&self) -> Option<T> { self.got.borrow().last().cloned() }
    pub fn feed(&self, v: T) { tr!("feed {} {:?}", self.src.0.borrow().name, v); self.src.feed(v); }
}
fn close1<T: 'static>(closing: bool, r: &mut Rng, s: &Src<T>) -> bool { if s.dropped() { return true; } if !s.closed() && (closing || rnd_close(r)) { s.close(); true } else { s.closed() } }
fn feeder<'a>(s: &'a SigSrc<u32>) -> impl FnMut(&mut Rng, bool) + 'a { move |r, closing| { if close1(closing, r, &s.src) { return; } for _ in 0..1 + r.n(3) { s.feed(r.n(4) as u32); } } }
fn same<A: PartialEq + std::fmt::Debug>(what: &str, got: &[A], want: &[A]) -> Res { ensure!(got == want, "{}: reported {:?}, expected {:?}", what, got, want); Ok(()) }
/// One source, one output; everything reported must be `want(all values delivered so far)`.
fn single<S: Signal>(r: &mut Rng, size: usize, what: &str, mk: &mut dyn FnMut(MS<u32>) -> S, want: &mut dyn FnMut(&[u32]) -> Vec<S::Item>) -> Res where S::Item: Clone + PartialEq + std::fmt::Debug {
    let env = Env::new(); let s = SigSrc::new(&env, "source", r.n(4) as u32); let sig = mk(s.mock());
    drive_sig(&env, r, size, sig, &mut feeder(&s), &mut |_, e| match e {
        Ev::Item(_, out) | Ev::Idle(out) => same(what, out, &want(&s.got())),
        Ev::End(out) => { ensure!(s.src.ended(), "{} ended before its source", what); same(what, out, &want(&s.got())) } })
}
pub fn c16_map(r: &mut Rng, size: usize) -> Res { let calls = Rc::new(RefCell::new(vec![])); let c = calls.clone(); let mut n = 0; single(r, size, "map", &mut |m| { let c = c.clone(); m.map(move |x| { n += 1; c.borrow_mut().push(x); (x, n) }) }, &mut |g| { assert!(*calls.borrow() == g, "closure calls {:?}, source values {:?}", calls.borrow(), g); g.iter().enumerate().map(|(i, x)| (*x, i + 1)).collect() }) }
pub fn c16_inspect(r: &mut Rng, size: usize) -> Res { let calls = Rc::new(RefCell::new(vec![])); let c = calls.clone(); single(r, size, "inspect", &mut |m| { let c = c.clone(); m.inspect(move |x| c.borrow_mut().push(*x)) }, &mut |g| { assert!(*calls.borrow() == g, "closure calls {:?}, source values {:?}", calls.borrow(), g); g.to_vec() }) }
fn dd(g: &[u32]) -> Vec<u32> { let mut v = g.to_vec(); v.dedup(); v }
pub fn c16_dedupe(r: &mut Rng, size: usize) -> Res { single(r, size, "dedupe", &mut |m| m.dedupe(), &mut |g| dd(g)) }
pub fn c16_dedupe_cloned(r: &mut Rng, size: usize) -> Res { single(r, size, "dedupe_cloned", &mut |m| m.dedupe_cloned(), &mut |g| dd(g)) }
pub fn c16_dedupe_map(r: &mut Rng, size: usize) -> Res { let mut n = 0; single(r, size, "dedupe_map", &mut |m| m.dedupe_map(move |x| { n += 1; (*x, n) }), &mut |g| dd(g).into_iter().enumerate().map(|(i, x)| (x, i + 1)).collect()) }
pub fn c16_dedupe_map_mut(r: &mut Rng, size: usize) -> Res { // the callback may change the value; later values are compared with the changed one
    single(r, size, "dedupe_map", &mut |m| m.dedupe_map(move |x| { let o = *x; *x = (*x + 1) % 4; o }), &mut |g| { let mut old = None; let mut out = vec![]; for x in g { if old != Some(*x) { out.push(*x); old = Some((*x + 1) % 4); } } out }) }
pub fn c16_eq(r: &mut Rng, size: usize) -> Res { single(r, size, "eq", &mut |m| m.eq(1), &mut |g| { let mut v: Vec<bool> = g.iter().map(|x| *x == 1).collect(); v.dedup(); v }) }
pub fn c16_neq(r: &mut Rng, size: usize) -> Res { single(r, size, "neq", &mut |m| m.neq(1), &mut |g| { let mut v: Vec<bool> = g.iter().map(|x| *x != 1).collect(); v.dedup(); v }) }
pub fn c16_not(r: &mut Rng, size: usize) -> Res { single(r, size, "not", &mut |m| signal::not(m.map(|x| x % 2 == 0)), &mut |g| g.iter().map(|x| x % 2 != 0).collect()) }
pub fn c16_filter_map(r: &mut Rng, size: usize) -> Res { let calls = Rc::new(RefCell::new(vec![])); let c = calls.clone();
    single(r, size, "filter_map", &mut |m| { let c = c.clone(); m.filter_map(move |x| { c.borrow_mut().push(x); if x % 2 == 0 { Some(x * 10) } else { None } }) }, &mut |g| { assert!(*calls.borrow() == g, "closure calls {:?}, source values {:?}", calls.borrow(), g);
        let mut v = vec![]; for (i, x) in g.iter().enumerate() { if x % 2 == 0 { v.push(Some(x * 10)); } else if i == 0 { v.push(None); } } v }) }
pub fn c16_option(r: &mut Rng, size: usize) -> Res { if r.p(1, 4) { let env = Env::new(); let mut n = 0; return drive_sig(&env, r, size, signal::option(None::<MS<u32>>), &mut |_, _| {}, &mut |_, e| { match e { Ev::Item(d, _) => { n += 1; ensure!(n == 1 && d.is_none(), "option(None) reported {:?}", d); } Ev::Idle(_) => fail!("option(None) went idle"), Ev::End(_) => { ensure!(n == 1, "option(None) ended without a value"); } } Ok(()) }); }
    single(r, size, "option", &mut |m| signal::option(Some(m)), &mut |g| g.iter().map(|x| Some(*x)).collect()) }
pub fn c16_result(r: &mut Rng, size: usize) -> Res { if r.p(1, 4) { let env = Env::new(); let mut n = 0; return drive_sig(&env, r, size, signal::result(Err::<MS<u32>, &'static str>("e")), &mut |_, _| {}, &mut |_, e| { match e { Ev::Item(d, _) => { n += 1; ensure!(n == 1 && *d == Err("e"), "result(Err) reported {:?}", d); } Ev::Idle(_) => fail!("result(Err) went idle"), Ev::End(_) => { ensure!(n == 1, "result(Err) ended without a value"); } } Ok(()) }); }
    single(r, size, "result", &mut |m| signal::result(Ok::<_, &'static str>(m)), &mut |g| g.iter().map(|x| Ok(*x)).collect()) }
pub fn c16_always(r: &mut Rng, size: usize) -> Res { let env = Env::new(); let v = r.n(9); let mut n = 0; drive_sig(&env, r, size, signal::always(v), &mut |_, _| {}, &mut |_, e| { match e { Ev::Item(d, _) => { n += 1; ensure!(n == 1 && *d == v, "always reported {:?}", d); } Ev::Idle(_) => fail!("always went idle"), Ev::End(_) => { ensure!(n == 1, "always ended without a value"); } } Ok(()) }) }
pub fn c16_first(r: &mut Rng, size: usize) -> Res { let env = Env::new(); let s = SigSrc::new(&env, "source", r.n(4) as u32); let sig = s.mock().first();
    drive_sig(&env, r, size, sig, &mut feeder(&s), &mut |_, e| match e { Ev::Item(_, out) => { same("first", out, &s.got()[..1])?; ensure!(s.got().len() == 1, "first took more than one value"); Ok(()) } Ev::Idle(_) => fail!("first went idle"), Ev::End(out) => same("first", out, &s.got()[..1]) }) }
pub fn c16_stop_if(r: &mut Rng, size: usize) -> Res { let env = Env::new(); let s = SigSrc::new(&env, "source", r.n(4) as u32); let calls = Rc::new(RefCell::new(vec![])); let c = calls.clone(); let stop = r.n(4) as u32; let sig = s.mock().stop_if(move |x| { c.borrow_mut().push(*x); *x == stop });
    drive_sig(&env, r, size, sig, &mut feeder(&s), &mut |_, e| { same("stop_if calls", &calls.borrow(), &s.got())?; match e { Ev::Item(_, out) => same("stop_if", out, &s.got()), Ev::Idle(out) => { ensure!(s.last() != Some(stop), "stop_if did not stop"); same("stop_if", out, &s.got()) }
        Ev::End(out) => { ensure!(s.src.ended() || s.last() == Some(stop), "stop_if ended early"); same("stop_if", out, &s.got()) } } }) }

// ---- C17
fn multi<S: Signal<Item = (u32, u32, u32)>>(r: &mut Rng, size: usize, k: usize, mk: &mut dyn FnMut(Vec<MS<u32>>, Rc<Cell<usize>>) -> S) -> Res {
    let env = Env::new(); let names = ["first", "second", "third"]; let ss: Vec<_> = (0..k).map(|i| SigSrc::new(&env, names[i], r.n(50) as u32)).collect(); let calls = Rc::new(Cell::new(0)); let sig = mk(ss.iter().map(|s| s.mock()).collect(), calls.clone());
    let seen = Cell::new(0); let n = Cell::new(0usize);
    let mut act = |r: &mut Rng, closing: bool| { for s in &ss { if closing || r.p(1, 2) { if !close1(closing, r, &s.src) { for _ in 0..r.n(3) { s.feed(r.n(50) as u32); } } } } };
    drive_sig(&env, r, size, sig, &mut act, &mut |_, e| {
        let total: usize = ss.iter().map(|s| s.got.borrow().len()).sum(); let changed = total != seen.get(); seen.set(total); let l = |i: usize| ss.get(i).and_then(|s| s.last()).unwrap_or(0); let now = (l(0), l(1), l(2));
        match e { Ev::Item(d, _) => { n.set(n.get() + 1); ensure!(changed, "reported {:?} although no source has changed", d); ensure!(*d == now, "reported {:?}, the latest values are {:?}", d, now); }
            Ev::Idle(out) => { ensure!(!changed, "went idle although a source has changed"); ensure!(out.last() == Some(&now), "idle with {:?} last reported, the latest values are {:?}", out.last(), now); }
            Ev::End(out) => { ensure!(!changed && out.last() == Some(&now), "ended with {:?} last reported, the latest values are {:?}", out.last(), now); for s in &ss { ensure!(s.src.ended(), "ended before all sources ended"); } } }
        ensure!(calls.get() == n.get(), "the closure ran {} times for {} reported values", calls.get(), n.get()); Ok(()) })
}
pub fn c17_map_ref1(r: &mut Rng, size: usize) -> Res { multi(r, size, 1, &mut |mut v, c| { let a = v.remove(0); map_ref!(a => { c.set(c.get() + 1); (*a, 0, 0) }) }) }
pub fn c17_map_ref2(r: &mut Rng, size: usize) -> Res { multi(r, size, 2, &mut |mut v, c| { let a = v.remove(0); let b = v.remove(0); map_ref! { let x = a, let y = b => { c.set(c.get() + 1); (*x, *y, 0) } } }) }
pub fn c17_map_ref3(r: &mut Rng, size: usize) -> Res { multi(r, size, 3, &mut |mut v, c| { let a = v.remove(0); let b = v.remove(0); let d = v.remove(0); map_ref! { let x = a, let y = b, let z = d => { c.set(c.get() + 1); (*x, *y, *z) } } }) }
pub fn c17_map_mut2(r: &mut Rng, size: usize) -> Res { multi(r, size, 2, &mut |mut v, c| { let a = v.remove(0); let b = v.remove(0); map_mut! { let x = a, let y = b => { c.set(c.get() + 1); (*x, *y, 0) } } }) }
pub fn c17_map_mut_keeps(r: &mut Rng, size: usize) -> Res { // a change made through the mutable reference stays until the source reports a new value
    let env = Env::new(); let a = SigSrc::new(&env, "first", 0u32); let b = SigSrc::new(&env, "second", 0u32); let (m, n) = (a.mock(), b.mock());
    let sig = map_mut! { let x = m, let y = n => { let o = (*x, *y); *x += 100; *y += 1000; o } };
    let (va, vb, na, nb) = (Cell::new(0u32), Cell::new(0u32), Cell::new(0), Cell::new(0));
    let mut act = |r: &mut Rng, closing: bool| { for s in [&a, &b] { if closing || r.p(1, 2) { if !close1(closing, r, &s.src) { s.feed(r.n(50) as u32); } } } };
    drive_sig(&env, r, size, sig, &mut act, &mut |_, e| { if a.got.borrow().len() != na.get() { na.set(a.got.borrow().len()); va.set(a.last().unwrap()); } if b.got.borrow().len() != nb.get() { nb.set(b.got.borrow().len()); vb.set(b.last().unwrap()); }
        if let Ev::Item(d, _) = e { ensure!(*d == (va.get(), vb.get()), "map_mut reported {:?}, expected {:?}", d, (va.get(), vb.get())); va.set(va.get() + 100); vb.set(vb.get() + 1000); } Ok(()) }) }
fn logic(r: &mut Rng, size: usize, and: bool) -> Res {
    let env = Env::new(); let a = SigSrc::new(&env, "left", r.p(1, 2)); let b = SigSrc::new(&env, "right", r.p(1, 2)); let seen = Cell::new(0);
    let sig: Pin<Box<dyn Signal<Item = bool>>> = if and { Box::pin(signal::and(a.mock(), b.mock())) } else { Box::pin(signal::or(a.mock(), b.mock())) };
    let mut act = |r: &mut Rng, closing: bool| { for s in [&a, &b] { if closing || r.p(1, 2) { if !close1(closing, r, &s.src) { s.feed(r.p(1, 2)); } } } };
    drive_sig(&env, r, size, sig, &mut act, &mut |_, e| { let t = a.got.borrow().len() + b.got.borrow().len(); let ch = t != seen.get(); seen.set(t); let (x, y) = (a.last().unwrap(), b.last().unwrap()); let w = if and { x && y } else { x || y };
        match e { Ev::Item(d, _) => ensure!(ch && *d == w, "reported {:?} for {} and {}", d, x, y), Ev::Idle(o) => ensure!(!ch && o.last() == Some(&w), "idle with {:?} for {} and {}", o.last(), x, y), Ev::End(o) => ensure!(a.src.ended() && b.src.ended() && !ch && o.last() == Some(&w), "ended with {:?} for {} and {}, sources ended: {} {}", o.last(), x, y, a.src.ended(), b.src.ended()) } Ok(()) })
}
pub fn c17_and(r: &mut Rng, size: usize) -> Res { logic(r, size, true) }
pub fn c17_or(r: &mut Rng, size: usize) -> Res { logic(r, size, false) }

// ---- C18
fn switching(r: &mut Rng, size: usize, flat: bool) -> Res {
    let env = Env::new(); let inners: Rc<RefCell<Vec<Rc<SigSrc<u32>>>>> = Rc::new(RefCell::new(vec![])); let ctr = Rc::new(Cell::new(0u32));
    let outer = SigSrc::new(&env, "outer", 0u32);
    let (e2, i2, c2) = (env.clone(), inners.clone(), ctr.clone());
    let mk = move |_x: u32| { let n = c2.get() + 1; c2.set(n); let s = Rc::new(SigSrc::new(&e2, "inner", n)); if n % 5 == 0 { s.src.close(); } i2.borrow_mut().push(s.clone()); s.mock() };
    let sig: Pin<Box<dyn Signal<Item = u32>>> = if flat { Box::pin(outer.mock().map(mk).flatten()) } else { Box::pin(outer.mock().switch(mk)) };
    let mut act = |r: &mut Rng, closing: bool| { if (closing || r.p(1, 3)) && !close1(closing, r, &outer.src) && r.p(2, 3) { outer.feed(0); } for s in inners.borrow().iter() { if closing || r.p(1, 2) { if !close1(closing, r, &s.src) { for _ in 0..r.n(3) { let n = ctr.get() + 1; ctr.set(n); s.feed(n); } } } } };
    let chosen = Cell::new(0);
    drive_sig(&env, r, size, sig, &mut act, &mut |_, e| { let no = outer.got.borrow().len(); let ni = inners.borrow().len(); ensure!(no == ni, "{} inner signals made for {} outer values", ni, no); let newest = inners.borrow().last().cloned();
        for s in inners.borrow().iter().rev().skip(1) { ensure!(s.src.dropped(), "an outdated inner signal is kept"); }
        match e { Ev::Item(d, _) => { let n = newest.unwrap(); ensure!(n.last() == Some(*d), "reported {:?}, the newest inner signal's value is {:?}", d, n.last()); ensure!(no <= chosen.get() + 1 || true, ""); chosen.set(no); }
            Ev::Idle(o) => { let n = newest.unwrap(); ensure!(o.last().copied() == n.last(), "idle showing {:?}, the newest inner signal's value is {:?}", o.last(), n.last()); ensure!(outer.src.empty(), "idle with an unread outer value"); }
            Ev::End(o) => { let n = newest.unwrap(); ensure!(outer.src.ended() && n.src.ended(), "ended while outer ended: {}, inner ended: {}", outer.src.ended(), n.src.ended()); ensure!(o.last().copied() == n.last(), "ended showing {:?}, the newest inner signal's value is {:?}", o.last(), n.last()); } } Ok(()) })
}
pub fn c18_flatten(r: &mut Rng, size: usize) -> Res { switching(r, size, true) }
pub fn c18_switch(r: &mut Rng, size: usize) -> Res { switching(r, size, false) }

// ---- C19
struct FutSrc { src: Src<u32>, val: u32, done: Rc<Cell<bool>>, fed: Cell<bool> }
impl FutSrc {
    fn new(env: &Env, name: &'static str, val: u32) -> FutSrc { let done = Rc::new(Cell::new(false)); let d = done.clone(); let src = Src::new(env, name).oneshot().hook(move |v: &u32| { tr!("  {} completes with {}", name, v); d.set(true); }); FutSrc { src, val, done, fed: Cell::new(false) } }
    fn finish(&self) { if !self.fed.get() { self.fed.set(true); tr!("finish {} {}", self.src.0.borrow().name, self.val); self.src.feed(self.val); } }
    fn mock(&self) -> MF<u32> { MF(self.src.mock()) }
}
pub fn c19_from_future(r: &mut Rng, size: usize) -> Res {
    let env = Env::new(); let f = FutSrc::new(&env, "future", 7); let sig = signal::from_future(f.mock());
    drive_sig(&env, r, size, sig, &mut |r, closing| if closing || r.p(1, 6) { f.finish() }, &mut |_, e| { match e {
        Ev::Item(d, o) => { ensure!(*d == if f.done.get() { Some(7) } else { None }, "reported {:?}", d); ensure!(o.iter().filter(|x| x.is_some()).count() <= 1 && o.len() <= 2 && (o.len() < 2 || o[0].is_none()), "reported {:?}", o); }
        Ev::Idle(o) => ensure!(!f.done.get() && *o == vec![None], "idle after reporting {:?}", o), Ev::End(o) => ensure!(f.done.get() && o.last() == Some(&Some(7)), "ended after reporting {:?}", o) } Ok(()) })
}
pub fn c19_from_stream(r: &mut Rng, size: usize) -> Res {
    let env = Env::new(); let got = Rc::new(RefCell::new(vec![])); let g = got.clone(); let s: Src<u32> = Src::new(&env, "stream").hook(move |v: &u32| g.borrow_mut().push(*v)); let sig = signal::from_stream(MT(s.mock())); let seen = Cell::new(0); let mut n = 0;
    drive_sig(&env, r, size, sig, &mut |r, closing| if !close1(closing, r, &s) { for _ in 0..r.n(3) { n += 1; tr!("feed {}", n); s.feed(n) } }, &mut |_, e| { let k = got.borrow().len(); let fresh = k != seen.get(); seen.set(k); let last = got.borrow().last().copied(); match e {
        Ev::Item(d, o) => { ensure!(d.is_some() || (o.len() == 1 && !fresh), "None reported later than first, or although an item was taken"); if d.is_some() { ensure!(fresh && *d == last, "reported {:?}, the latest item is {:?}", d, last); } }
        Ev::Idle(o) => ensure!(!fresh && o.last() == Some(&last), "idle after {:?}, the latest item is {:?}", o.last(), last), Ev::End(o) => ensure!(s.ended() && !fresh && o.last() == Some(&last), "ended after {:?}, the latest item is {:?}", o.last(), last) } Ok(()) })
}
pub fn c19_map_future(r: &mut Rng, size: usize) -> Res {
    let env = Env::new(); let s = SigSrc::new(&env, "source", 0u32); let futs: Rc<RefCell<Vec<Rc<FutSrc>>>> = Rc::new(RefCell::new(vec![])); let (e2, f2) = (env.clone(), futs.clone()); let eager = r.p(1, 3);
    let sig = s.mock().map_future(move |x| { let n = f2.borrow().len() as u32; let f = Rc::new(FutSrc::new(&e2, "future", n)); if eager && x % 3 == 0 { f.finish(); } f2.borrow_mut().push(f.clone()); f.mock() });
    let reported = Cell::new(None); let sc = Cell::new(0u32);
    let mut act = |r: &mut Rng, closing: bool| { if !close1(closing, r, &s.src) && r.p(1, 2) { sc.set(sc.get() + 1); s.feed(sc.get()); } for f in futs.borrow().iter() { if closing || r.p(1, 4) { f.finish(); } } };
    drive_sig(&env, r, size, sig, &mut act, &mut |_, e| { let fs = futs.borrow(); ensure!(fs.len() == s.got.borrow().len(), "{} futures for {} source values", fs.len(), s.got.borrow().len()); let cur = fs.last().unwrap(); for f in fs.iter().rev().skip(1) { ensure!(f.src.dropped(), "an outdated future is kept"); }
        match e { Ev::Item(None, o) => ensure!(o.len() == 1, "None reported later than first"), Ev::Item(Some(v), _) => { ensure!(cur.done.get() && *v == cur.val, "reported the result of future {}, the newest is {}", v, cur.val); ensure!(reported.get() != Some(*v), "result {} reported twice", v); reported.set(Some(*v)); }
            Ev::Idle(_) => { ensure!(!cur.done.get() || reported.get() == Some(cur.val), "idle with an unreported result"); ensure!(s.src.empty(), "idle with an unread source value"); } Ev::End(_) => ensure!(s.src.ended() && cur.done.get() && reported.get() == Some(cur.val), "ended with the last future unfinished or unreported") } Ok(()) })
}
pub fn c19_throttle(r: &mut Rng, size: usize) -> Res {
    let env = Env::new(); let s = SigSrc::new(&env, "source", 0u32); let delays: Rc<RefCell<Vec<Src<()>>>> = Rc::new(RefCell::new(vec![])); let (e2, d2, s2) = (env.clone(), delays.clone(), s.src.clone()); let instant = r.n(4);
    let sig = s.mock().throttle(move || { let s3 = s2.clone(); let d: Src<()> = Src::new(&e2, "delay").oneshot().hook(move |_| { tr!("  delay over"); s3.0.borrow_mut().idle_only = false; }); s2.0.borrow_mut().idle_only = true; let n = d2.borrow().len(); if instant == 1 || (instant == 2 && n % 2 == 0) { d.feed(()); } d2.borrow_mut().push(d.clone()); MF(d.mock()) });
    let mut n = 0; let mut act = |r: &mut Rng, closing: bool| { if !close1(closing, r, &s.src) && r.p(1, 2) { n += 1; s.feed(n); } for d in delays.borrow().iter() { if !d.ended() && d.empty() && (closing || r.p(1, 3)) { tr!("finish delay"); d.feed(()); } } };
    drive_sig(&env, r, size, sig, &mut act, &mut |_, e| { let waiting = delays.borrow().last().map_or(false, |d| !d.ended() && d.empty()); match e {
        Ev::Item(_, o) => { same("throttle", o, &s.got())?; ensure!(delays.borrow().len() == o.len(), "{} delays for {} values", delays.borrow().len(), o.len()); for d in delays.borrow().iter().rev().skip(1) { ensure!(d.ended(), "reported before the delay was over"); } Ok(()) }
        Ev::Idle(o) => { same("throttle", o, &s.got())?; ensure!(waiting || s.src.empty(), "idle with an unread value and no delay"); Ok(()) } Ev::End(o) => { ensure!(s.src.ended(), "ended before its source"); same("throttle", o, &s.got()) } } })
}

// ---- C20
pub fn c20_to_future(r: &mut Rng, size: usize) -> Res {
    let env = Env::new(); let s = SigSrc::new(&env, "source", r.n(9) as u32); let mut f = Box::pin(s.mock().to_future()); let mut done = false;
    drive_poll(&env, r, size, &mut |cx| if done { Poll::Ready(None) } else { f.as_mut().poll(cx).map(|x| { done = true; Some(x) }) }, &mut feeder(&s), &mut |_, e| { match e { Ev::Item(d, _) => ensure!(s.src.ended() && s.last() == Some(*d), "resolved with {:?}, last value {:?}, ended {}", d, s.last(), s.src.ended()), Ev::Idle(_) => ensure!(s.src.empty(), "idle with an unread value"), _ => {} } Ok(()) })
}
pub fn c20_wait_for(r: &mut Rng, size: usize) -> Res {
    let env = Env::new(); let s = SigSrc::new(&env, "source", r.n(9) as u32); let want = r.n(5) as u32; let mut f = Box::pin(s.mock().wait_for(want)); let mut done = false;
    drive_poll(&env, r, size, &mut |cx| if done { Poll::Ready(None) } else { f.as_mut().poll(cx).map(|x| { done = true; Some(x) }) }, &mut feeder(&s), &mut |_, e| { let hit = s.got().contains(&want); match e { Ev::Item(Some(d), _) => ensure!(*d == want && s.last() == Some(want) && s.got().iter().filter(|x| **x == want).count() == 1, "resolved with {:?}, wanted {}, values {:?}", d, want, s.got()), Ev::Item(None, _) => ensure!(s.src.ended() && !hit, "resolved with None; values {:?}, ended {}", s.got(), s.src.ended()), Ev::Idle(_) => ensure!(!hit && s.src.empty(), "idle although {} was seen", want), _ => {} } Ok(()) })
}
pub fn c20_to_stream(r: &mut Rng, size: usize) -> Res {
    let env = Env::new(); let s = SigSrc::new(&env, "source", r.n(9) as u32); let mut f = Box::pin(s.mock().to_stream());
    drive_poll(&env, r, size, &mut |cx| f.as_mut().poll_next(cx), &mut feeder(&s), &mut |_, e| match e { Ev::Item(_, o) | Ev::Idle(o) => same("to_stream", o, &s.got()), Ev::End(o) => { ensure!(s.src.ended(), "ended before its source"); same("to_stream", o, &s.got()) } })
}
pub fn c20_to_signal_vec(r: &mut Rng, size: usize) -> Res {
    let env = Env::new(); let s = SigSrc::new(&env, "source", vec![1u32]); let sig = s.mock().to_signal_vec();
    let mut n = 0; let mut act = |r: &mut Rng, closing: bool| if !close1(closing, r, &s.src) { n += 1; s.feed((0..r.n(4) as u32).map(|x| x + n * 10).collect()) };
    drive_vec(&env, r, size, sig, &mut act, &mut |_, e| match e { Ev::Item(d, o) => { ensure!(matches!(d, VecDiff::Replace { .. }), "not a Replace"); same("to_signal_vec", o, &s.last().unwrap()) } Ev::Idle(o) => same("to_signal_vec", o, &s.last().unwrap()), Ev::End(o) => { ensure!(s.src.ended(), "ended before its source"); same("to_signal_vec", o, &s.last().unwrap()) } })
}
pub fn c20_sample(r: &mut Rng, size: usize) -> Res {
    let env = Env::new(); let s = SigSrc::new(&env, "signal", 0u32); s.src.0.borrow_mut().idle_only = true; let got = Rc::new(RefCell::new(vec![])); let g = got.clone(); let t: Src<u32> = Src::new(&env, "stream").hook(move |v: &u32| g.borrow_mut().push(*v)); let mut f = Box::pin(s.mock().sample_stream_cloned(MT(t.mock())));
    let mut n = 0; let mut act = |r: &mut Rng, closing: bool| { if r.p(1, 2) || closing { close1(closing, r, &s.src); } if !s.src.closed() { for _ in 0..r.n(3) { n += 1; s.feed(n); } } if !close1(closing, r, &t) { for _ in 0..r.n(3) { n += 1; tr!("feed stream {}", n); t.feed(n); } } };
    drive_poll(&env, r, size, &mut |cx| f.as_mut().poll_next(cx), &mut act, &mut |_, e| { match e { Ev::Item(d, o) => { ensure!(o.len() == got.borrow().len() && Some(&d.1) == got.borrow().last(), "stream items {:?}, reported {:?}", got.borrow(), o); ensure!(Some(d.0) == s.last() && s.src.empty(), "paired with {}, the latest signal value is {:?} (unread: {})", d.0, s.last(), !s.src.empty()); }
        Ev::Idle(o) => ensure!(o.len() == got.borrow().len(), "a stream item was lost"), Ev::End(o) => ensure!(t.ended() && o.len() == got.borrow().len(), "ended early or lost an item") } Ok(()) })
}
pub fn c20_for_each(r: &mut Rng, size: usize) -> Res {
    let env = Env::new(); let s = SigSrc::new(&env, "source", 0u32); let calls = Rc::new(RefCell::new(vec![])); let futs: Rc<RefCell<Vec<Src<()>>>> = Rc::new(RefCell::new(vec![])); let (e2, f2, c2, s2) = (env.clone(), futs.clone(), calls.clone(), s.src.clone()); let instant = r.n(3);
    let mut f = Box::pin(s.mock().for_each(move |v| { c2.borrow_mut().push(v); let s3 = s2.clone(); let d: Src<()> = Src::new(&e2, "future").oneshot().hook(move |_| { s3.0.borrow_mut().idle_only = false; }); s2.0.borrow_mut().idle_only = true; if instant == 0 { d.feed(()); } f2.borrow_mut().push(d.clone()); MF(d.mock()) })); let mut done = false;
    let mut n = 0; let mut act = |r: &mut Rng, closing: bool| { if !close1(closing, r, &s.src) && r.p(1, 2) { n += 1; s.feed(n); } for d in futs.borrow().iter() { if !d.ended() && d.empty() && (closing || r.p(1, 3)) { d.feed(()); } } };
    drive_poll(&env, r, size, &mut |cx| if done { Poll::Ready(None) } else { f.as_mut().poll(cx).map(|x| { done = true; Some(x) }) }, &mut act, &mut |_, e| { same("for_each calls", &calls.borrow(), &s.got())?; for d in futs.borrow().iter().rev().skip(1) { ensure!(d.ended(), "the next call was made before the previous future completed"); } match e { Ev::Item(..) => { ensure!(s.src.ended(), "ended before its source"); for d in futs.borrow().iter() { ensure!(d.ended(), "ended with a future unfinished"); } } Ev::Idle(_) => ensure!(futs.borrow().iter().any(|d| !d.ended() && d.empty()) || s.src.empty(), "idle with an unread value"), _ => {} } Ok(()) })
}
