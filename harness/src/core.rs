//! Scripted sources, counting wakers and drivers shared by all scenarios.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use futures_core::Stream;
use futures_signals::signal::Signal;
use futures_signals::signal_map::{MapDiff, SignalMap};
use futures_signals::signal_vec::{SignalVec, VecDiff};

thread_local! {
    pub static TRACE: RefCell<Option<Vec<String>>> = RefCell::new(None);
    pub static REPOLL: Cell<Option<&'static str>> = Cell::new(None);
}
#[macro_export]
macro_rules! tr { ($($a:tt)*) => { $crate::core::TRACE.with(|t| if let Some(v) = t.borrow_mut().as_mut() { v.push(format!($($a)*)); }) } }
pub type Res = Result<(), String>;
#[macro_export]
macro_rules! fail { ($($a:tt)*) => { return Err(format!($($a)*)) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Rng { let mut r = Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03); r.u(); r.u(); r }
    pub fn u(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn n(&mut self, n: usize) -> usize { (self.u() % n as u64) as usize }
    pub fn p(&mut self, num: usize, den: usize) -> bool { self.n(den) < num }
}

pub struct CountWaker(pub AtomicUsize);
impl Wake for CountWaker { fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); } fn wake_by_ref(self: &Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); } }
impl CountWaker { pub fn new() -> Arc<CountWaker> { Arc::new(CountWaker(AtomicUsize::new(0))) } pub fn get(&self) -> usize { self.0.load(Ordering::SeqCst) } }

pub struct SrcInner<T> {
    pub name: &'static str, pub q: VecDeque<T>, pub closed: bool, pub ended: bool, pub dropped: bool, pub oneshot: bool, pub polled: bool,
    pub waker: Option<Waker>, pub hook: Option<Box<dyn FnMut(&T)>>, pub idle_only: bool,
}
pub struct Src<T>(pub Rc<RefCell<SrcInner<T>>>);
impl<T> Clone for Src<T> { fn clone(&self) -> Self { Src(self.0.clone()) } }
impl<T: 'static> Src<T> {
    pub fn new(env: &Env, name: &'static str) -> Src<T> {
        let s = Src(Rc::new(RefCell::new(SrcInner { name, q: VecDeque::new(), closed: false, ended: false, dropped: false, oneshot: false, polled: false, waker: None, hook: None, idle_only: false })));
        env.probes.borrow_mut().push(Box::new(s.clone())); s
    }
    pub fn hook(self, f: impl FnMut(&T) + 'static) -> Self { self.0.borrow_mut().hook = Some(Box::new(f)); self }
    pub fn oneshot(self) -> Self { self.0.borrow_mut().oneshot = true; self }
    pub fn feed(&self, v: T) { let w = { let mut s = self.0.borrow_mut(); s.q.push_back(v); s.waker.take() }; if let Some(w) = w { w.wake(); } }
    pub fn close(&self) { let w = { let mut s = self.0.borrow_mut(); s.closed = true; s.waker.take() }; tr!("close {}", self.0.borrow().name); if let Some(w) = w { w.wake(); } }
    pub fn closed(&self) -> bool { self.0.borrow().closed }
    pub fn ended(&self) -> bool { self.0.borrow().ended }
    pub fn dropped(&self) -> bool { self.0.borrow().dropped }
    pub fn polled(&self) -> bool { self.0.borrow().polled }
    pub fn empty(&self) -> bool { self.0.borrow().q.is_empty() }
    pub fn mock(&self) -> M<T> { M(self.clone()) }
    fn poll(&self, cx: &Context) -> Poll<Option<T>> {
        let mut g = self.0.borrow_mut(); let s = &mut *g; s.polled = true;
        if s.ended { REPOLL.with(|r| if r.get().is_none() { r.set(Some(s.name)); }); tr!("  {} POLLED AFTER ITS END", s.name); return Poll::Ready(None); }
        if let Some(v) = s.q.pop_front() {
            s.waker = None;
            if s.oneshot { s.ended = true; }
            if let Some(mut h) = s.hook.take() { drop(g); h(&v); self.0.borrow_mut().hook = Some(h); }
            Poll::Ready(Some(v))
        } else if s.closed { s.ended = true; s.waker = None; Poll::Ready(None) }
        else { s.waker = Some(cx.waker().clone()); Poll::Pending }
    }
}
pub trait Probe { fn state(&self) -> (&'static str, bool, bool, bool, Option<Waker>); }
impl<T> Probe for Src<T> {
    /// (name, live, has undelivered input (or an undelivered end), was polled, stored waker)
    fn state(&self) -> (&'static str, bool, bool, bool, Option<Waker>) { let s = self.0.borrow(); (s.name, !s.dropped && !s.ended && !s.idle_only, !s.q.is_empty() || s.closed, s.polled, s.waker.clone()) }
}
/// The mock object handed to the library.
pub struct M<T>(pub Src<T>);
impl<T> Drop for M<T> { fn drop(&mut self) { self.0 .0.borrow_mut().dropped = true; } }
impl<T> Unpin for M<T> {}
pub struct MS<T>(pub M<T>);
impl<T: 'static> Signal for MS<T> { type Item = T; fn poll_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<T>> { self.0 .0.poll(cx) } }
pub struct MV<T>(pub M<VecDiff<T>>);
impl<T: 'static> SignalVec for MV<T> { type Item = T; fn poll_vec_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<T>>> { self.0 .0.poll(cx) } }
pub struct MM<K, V>(pub M<MapDiff<K, V>>);
impl<K: 'static, V: 'static> SignalMap for MM<K, V> { type Key = K; type Value = V; fn poll_map_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<MapDiff<K, V>>> { self.0 .0.poll(cx) } }
pub struct MT<T>(pub M<T>);
impl<T: 'static> Stream for MT<T> { type Item = T; fn poll_next(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<T>> { self.0 .0.poll(cx) } }
pub struct MF<T>(pub M<T>);
impl<T: 'static> Future for MF<T> { type Output = T; fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<T> {
    match self.0 .0.poll(cx) { Poll::Ready(Some(v)) => Poll::Ready(v), Poll::Ready(None) => panic!("harness: future polled again after it completed"), Poll::Pending => Poll::Pending } } }

#[derive(Clone)]
pub struct Env { pub probes: Rc<RefCell<Vec<Box<dyn Probe>>>>, pub last: Rc<RefCell<Arc<CountWaker>>> }
impl Env {
    pub fn new() -> Env { Env { probes: Rc::new(RefCell::new(vec![])), last: Rc::new(RefCell::new(CountWaker::new())) } }
    pub fn poll<R>(&self, f: impl FnOnce(&mut Context) -> R) -> R {
        let w = CountWaker::new(); *self.last.borrow_mut() = w.clone(); let wk: Waker = w.into(); f(&mut Context::from_waker(&wk))
    }
    /// After Poll::Pending: either the task was already woken, or every live source is idle and wakes exactly this task.
    pub fn idle(&self) -> Res {
        let l = self.last.borrow().clone();
        if l.get() > 0 { tr!("  (task already woken)"); return Ok(()); }
        for p in self.probes.borrow().iter() {
            let (name, live, has, polled, w) = p.state();
            if !live { continue; }
            ensure!(polled, "went idle without ever polling live source {}", name);
            match w { None => fail!("went idle while live source {} is not registered to wake the task{}", name, if has { " and still has unread input" } else { "" }),
                Some(w) => { let b = l.get(); w.wake_by_ref(); ensure!(l.get() > b, "went idle with source {} registered to wake an outdated task", name); } }
        }
        Ok(())
    }
    pub fn woken(&self) -> bool { self.last.borrow().get() > 0 }
    pub fn live(&self) -> Option<&'static str> { for p in self.probes.borrow().iter() { let (n, l, ..) = p.state(); if l { return Some(n); } } None }
}

pub fn show<T: std::fmt::Debug>(d: &VecDiff<T>) -> String { format!("{:?}", d) }

pub fn apply_ok<T: Clone>(v: &mut Vec<T>, d: &VecDiff<T>) -> Res {
    let n = v.len();
    match d {
        VecDiff::Replace { values } => *v = values.clone(),
        VecDiff::InsertAt { index, value } => { ensure!(*index <= n, "invalid diff InsertAt {{ index: {} }} for length {}", index, n); v.insert(*index, value.clone()); }
        VecDiff::UpdateAt { index, value } => { ensure!(*index < n, "invalid diff UpdateAt {{ index: {} }} for length {}", index, n); v[*index] = value.clone(); }
        VecDiff::RemoveAt { index } => { ensure!(*index < n, "invalid diff RemoveAt {{ index: {} }} for length {}", index, n); v.remove(*index); }
        VecDiff::Move { old_index, new_index } => { ensure!(*old_index < n && *new_index < n, "invalid diff Move {{ {} -> {} }} for length {}", old_index, new_index, n); let x = v.remove(*old_index); v.insert(*new_index, x); }
        VecDiff::Push { value } => v.push(value.clone()),
        VecDiff::Pop {} => { ensure!(n > 0, "invalid diff Pop for an empty list"); v.pop(); }
        VecDiff::Clear {} => v.clear(),
    }
    Ok(())
}
pub fn apply_map<K: Ord + Clone + std::fmt::Debug, V: Clone>(m: &mut BTreeMap<K, V>, d: &MapDiff<K, V>) -> Res {
    match d {
        MapDiff::Replace { entries } => { *m = entries.iter().cloned().collect(); ensure!(m.len() == entries.len(), "Replace with duplicate keys"); }
        MapDiff::Insert { key, value } => { ensure!(m.insert(key.clone(), value.clone()).is_none(), "Insert for a present key {:?}", key); }
        MapDiff::Update { key, value } => { ensure!(m.insert(key.clone(), value.clone()).is_some(), "Update for an absent key {:?}", key); }
        MapDiff::Remove { key } => { ensure!(m.remove(key).is_some(), "Remove for an absent key {:?}", key); }
        MapDiff::Clear {} => m.clear(),
    }
    Ok(())
}
/// A random valid diff for a list of `len` elements.
pub fn gen_diff<T>(r: &mut Rng, len: usize, cap: usize, mk: &mut dyn FnMut(&mut Rng) -> T) -> VecDiff<T> {
    loop {
        match r.n(16) {
            0 => { let n = r.n(cap.min(4) + 1); return VecDiff::Replace { values: (0..n).map(|_| mk(r)).collect() }; }
            1..=3 if len < cap => return VecDiff::InsertAt { index: r.n(len + 1), value: mk(r) },
            4..=5 if len > 0 => return VecDiff::UpdateAt { index: r.n(len), value: mk(r) },
            6..=7 if len > 0 => return VecDiff::RemoveAt { index: r.n(len) },
            8..=10 if len > 0 => return VecDiff::Move { old_index: r.n(len), new_index: r.n(len) },
            11..=13 if len < cap => return VecDiff::Push { value: mk(r) },
            14 if len > 0 => return VecDiff::Pop {},
            15 if r.p(1, 2) => return VecDiff::Clear {},
            _ => {}
        }
    }
}
pub fn apply_move<T>(v: &mut Vec<T>, d: VecDiff<T>) {
    match d {
        VecDiff::Replace { values } => *v = values, VecDiff::InsertAt { index, value } => v.insert(index, value), VecDiff::UpdateAt { index, value } => v[index] = value,
        VecDiff::RemoveAt { index } => { v.remove(index); } VecDiff::Move { old_index, new_index } => { let x = v.remove(old_index); v.insert(new_index, x); }
        VecDiff::Push { value } => v.push(value), VecDiff::Pop {} => { v.pop(); } VecDiff::Clear {} => v.clear(),
    }
}
pub fn map_diff<A, B>(d: &VecDiff<A>, f: &mut dyn FnMut(&A) -> B) -> VecDiff<B> {
    match d {
        VecDiff::Replace { values } => VecDiff::Replace { values: values.iter().map(|x| f(x)).collect() },
        VecDiff::InsertAt { index, value } => VecDiff::InsertAt { index: *index, value: f(value) },
        VecDiff::UpdateAt { index, value } => VecDiff::UpdateAt { index: *index, value: f(value) },
        VecDiff::RemoveAt { index } => VecDiff::RemoveAt { index: *index },
        VecDiff::Move { old_index, new_index } => VecDiff::Move { old_index: *old_index, new_index: *new_index },
        VecDiff::Push { value } => VecDiff::Push { value: f(value) }, VecDiff::Pop {} => VecDiff::Pop {}, VecDiff::Clear {} => VecDiff::Clear {},
    }
}
pub fn entering<A: Clone>(d: &VecDiff<A>) -> Vec<A> {
    match d { VecDiff::Replace { values } => values.clone(), VecDiff::InsertAt { value, .. } | VecDiff::UpdateAt { value, .. } | VecDiff::Push { value } => vec![value.clone()], _ => vec![] }
}

/// A source of list diffs together with the contents fed so far and the contents the library has received.
pub struct VecSrc<T> { pub src: Src<VecDiff<T>>, pub fed_len: Cell<usize>, pub got: Rc<RefCell<Vec<T>>>, pub entered: Rc<RefCell<Vec<T>>>, pub last: Rc<RefCell<Option<VecDiff<T>>>> }
impl<T: Clone + 'static + std::fmt::Debug> VecSrc<T> {
    pub fn new(env: &Env, name: &'static str) -> VecSrc<T> {
        let got = Rc::new(RefCell::new(vec![])); let entered = Rc::new(RefCell::new(vec![])); let last = Rc::new(RefCell::new(None));
        let (g, e, l) = (got.clone(), entered.clone(), last.clone());
        let src = Src::new(env, name).hook(move |d: &VecDiff<T>| { tr!("  {} delivers {:?}", name, d); apply_ok(&mut g.borrow_mut(), d).expect("harness fed an invalid diff"); e.borrow_mut().extend(entering(d)); *l.borrow_mut() = Some(d.clone()); });
        VecSrc { src, fed_len: Cell::new(0), got, entered, last }
    }
    pub fn feed(&self, r: &mut Rng, cap: usize, mk: &mut dyn FnMut(&mut Rng) -> T) {
        let n = self.fed_len.get();
        let d = gen_diff(r, n, cap, mk);
        let m = match &d { VecDiff::Replace { values } => values.len(), VecDiff::InsertAt { .. } | VecDiff::Push { .. } => n + 1, VecDiff::RemoveAt { .. } | VecDiff::Pop {} => n - 1, VecDiff::Clear {} => 0, _ => n };
        self.fed_len.set(m); tr!("feed {} {:?}", self.src.0.borrow().name, d); self.src.feed(d);
    }
    pub fn start(&self, r: &mut Rng, n: usize, mk: &mut dyn FnMut(&mut Rng) -> T) { let d = VecDiff::Replace { values: (0..1 + r.n(n)).map(|_| mk(r)).collect::<Vec<_>>() }; if let VecDiff::Replace { values } = &d { self.fed_len.set(values.len()); } tr!("feed {:?}", d); self.src.feed(d); }
    pub fn mock(&self) -> MV<T> { MV(self.src.mock()) }
    pub fn cur(&self) -> Vec<T> { self.got.borrow().clone() }
}

pub enum Ev<'a, T, D> { Item(&'a D, &'a T), Idle(&'a T), End(&'a T) }

/// Drives a signal vec: random feeding and polling, then closes everything and drains.
pub fn drive_vec<S: SignalVec>(env: &Env, r: &mut Rng, size: usize, sig: S, act: &mut dyn FnMut(&mut Rng, bool), check: &mut dyn FnMut(&mut Rng, Ev<Vec<S::Item>, VecDiff<S::Item>>) -> Res) -> Res where S::Item: Clone + std::fmt::Debug {
    let mut sig = Box::pin(sig); let mut rep: Vec<S::Item> = vec![]; let mut pend = false;
    let mut step = 0; let mut guard = 0;
    loop {
        step += 1; guard += 1; ensure!(guard < 4000 + 40 * size, "does not settle: {} polls after every source ended", 4000);
        let closing = step > size;
        if closing || r.p(1, 2) || pend { if !closing || pend || step == size + 1 { act(r, closing); } if !closing && r.p(1, 2) { continue; } if !closing && r.p(1, 3) { act(r, false); } }
        match env.poll(|cx| sig.as_mut().poll_vec_change(cx)) {
            Poll::Ready(Some(d)) => { pend = false; tr!("poll -> {:?}", d); apply_ok(&mut rep, &d)?; check(r, Ev::Item(&d, &rep))?; }
            Poll::Ready(None) => { tr!("poll -> END"); check(r, Ev::End(&rep))?; return Ok(()); }
            Poll::Pending => { pend = true; tr!("poll -> Pending; contents {:?}", rep); env.idle()?; check(r, Ev::Idle(&rep))?; if closing && env.live().is_none() && !env.woken() { fail!("never ends: idle although every source has ended"); } }
        }
    }
}
/// Same for a signal of plain values; the accumulated state is the list of everything reported.
pub fn drive_poll<T: Clone + std::fmt::Debug>(env: &Env, r: &mut Rng, size: usize, poll: &mut dyn FnMut(&mut Context) -> Poll<Option<T>>, act: &mut dyn FnMut(&mut Rng, bool), check: &mut dyn FnMut(&mut Rng, Ev<Vec<T>, T>) -> Res) -> Res {
    let mut out: Vec<T> = vec![]; let mut pend = false; let mut step = 0; let mut guard = 0;
    loop {
        step += 1; guard += 1; ensure!(guard < 4000 + 40 * size, "does not settle");
        let closing = step > size;
        if closing || r.p(1, 2) || pend { if !closing || pend || step == size + 1 { act(r, closing); } if !closing && r.p(1, 2) { continue; } if !closing && r.p(1, 3) { act(r, false); } }
        match env.poll(|cx| poll(cx)) {
            Poll::Ready(Some(d)) => { pend = false; tr!("poll -> {:?}", d); out.push(d.clone()); check(r, Ev::Item(&d, &out))?; }
            Poll::Ready(None) => { tr!("poll -> END"); check(r, Ev::End(&out))?; return Ok(()); }
            Poll::Pending => { pend = true; tr!("poll -> Pending"); env.idle()?; check(r, Ev::Idle(&out))?; if closing && env.live().is_none() && !env.woken() { fail!("never ends: idle although every source has ended"); } }
        }
    }
}
pub fn drive_sig<S: Signal>(env: &Env, r: &mut Rng, size: usize, sig: S, act: &mut dyn FnMut(&mut Rng, bool), check: &mut dyn FnMut(&mut Rng, Ev<Vec<S::Item>, S::Item>) -> Res) -> Res where S::Item: Clone + std::fmt::Debug {
    let mut sig = Box::pin(sig); drive_poll(env, r, size, &mut |cx| sig.as_mut().poll_change(cx), act, check)
}
pub fn drive_map<S: SignalMap>(env: &Env, r: &mut Rng, size: usize, sig: S, act: &mut dyn FnMut(&mut Rng, bool), check: &mut dyn FnMut(&mut Rng, Ev<BTreeMap<S::Key, S::Value>, MapDiff<S::Key, S::Value>>) -> Res) -> Res where S::Key: Clone + Ord + std::fmt::Debug, S::Value: Clone + std::fmt::Debug {
    let mut sig = Box::pin(sig); let mut rep = BTreeMap::new();
    drive_poll(env, r, size, &mut |cx| sig.as_mut().poll_map_change(cx), act, &mut |r, e| match e {
        Ev::Item(d, _) => { apply_map(&mut rep, d)?; check(r, Ev::Item(d, &rep)) } Ev::Idle(_) => check(r, Ev::Idle(&rep)), Ev::End(_) => check(r, Ev::End(&rep)) })
}
/// The usual feeding policy: on `closing`, close every source; otherwise feed (rarely close) one of them.
pub fn rnd_close(r: &mut Rng) -> bool { r.p(1, 40) }
