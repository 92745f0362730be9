//! C22..C26: sequential scenarios, scenarios where another thread acts at a chosen point inside a poll (waker clone, waker
//! drop, value clone or inner poll), and free-running threads.
use crate::core::*;
use crate::{ensure, fail, tr};
use futures_signals::signal::{self, Mutable, Signal, SignalExt, Sender, Receiver, Broadcaster, ReadOnlyMutable};
use futures_signals::{cancelable_future, CancelableFutureHandle};
use discard::DiscardOnDrop;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::mpsc;
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use std::time::Duration;

thread_local! { static HOOK: RefCell<Option<(usize, Box<dyn FnOnce()>)>> = RefCell::new(None); static WORKER: RefCell<Option<Worker>> = RefCell::new(None); }
/// Something happened inside the library on the polling thread.
fn event(_what: &str) {
    let run = HOOK.try_with(|h| { let Ok(mut h) = h.try_borrow_mut() else { return None }; match h.as_mut() { Some((0, _)) => h.take(), Some((n, _)) => { *n -= 1; None } None => None } }).ok().flatten();
    if let Some((_, f)) = run { tr!("  (another thread acts at: {})", _what); f(); }
}
struct Hw { n: AtomicUsize }
fn raw(w: Arc<Hw>) -> RawWaker {
    unsafe fn cl(p: *const ()) -> RawWaker { event("waker clone"); Arc::increment_strong_count(p as *const Hw); RawWaker::new(p, &VT) }
    unsafe fn wk(p: *const ()) { let a = Arc::from_raw(p as *const Hw); a.n.fetch_add(1, SeqCst); }
    unsafe fn wr(p: *const ()) { (*(p as *const Hw)).n.fetch_add(1, SeqCst); }
    unsafe fn dr(p: *const ()) { drop(Arc::from_raw(p as *const Hw)); event("waker drop"); }
    static VT: RawWakerVTable = RawWakerVTable::new(cl, wk, wr, dr);
    RawWaker::new(Arc::into_raw(w) as *const (), &VT)
}
fn hw() -> Arc<Hw> { Arc::new(Hw { n: AtomicUsize::new(0) }) }
impl Hw { fn woken(&self) -> bool { self.n.load(SeqCst) > 0 } }

#[derive(PartialEq, Debug)]
pub struct Hv(u32);
impl Clone for Hv { fn clone(&self) -> Hv { event("value clone"); Hv(self.0) } }

type Job = Box<dyn FnOnce() + Send>;
struct Worker { tx: mpsc::Sender<Job>, done: mpsc::Receiver<()> }
impl Worker { fn new() -> Worker { let (tx, rx) = mpsc::channel::<Job>(); let (dt, done) = mpsc::channel(); std::thread::spawn(move || for j in rx { j(); if dt.send(()).is_err() { return; } }); Worker { tx, done } } }
/// Starts `job` on the other thread and waits a moment for it; `join` waits until it is done.
fn start(job: Job) -> bool { WORKER.with(|w| { let mut w = w.borrow_mut(); let w = w.get_or_insert_with(Worker::new); w.tx.send(job).unwrap(); w.done.recv_timeout(Duration::from_millis(2)).is_ok() }) }
fn join() -> bool { WORKER.with(|w| w.borrow().as_ref().unwrap().done.recv_timeout(Duration::from_secs(9)).is_ok()) }
/// Polls with a fresh waker while `job`, if any, runs on another thread from the k-th event on (or right after the poll).
fn poll_with<R>(job: Option<(usize, Job)>, f: impl FnOnce(&mut Context) -> R) -> Result<(R, Arc<Hw>, bool), String> {
    let w = hw(); let waker = unsafe { Waker::from_raw(raw(w.clone())) }; let state = Rc::new(Cell::new(0)); let had = job.is_some(); let mut during = false;
    if let Some((k, j)) = job { let s = state.clone(); HOOK.with(|h| *h.borrow_mut() = Some((k, Box::new(move || { s.set(1); if start(j) { s.set(2); } })))); }
    let r = f(&mut Context::from_waker(&waker));
    let left = HOOK.with(|h| h.borrow_mut().take());
    if had { match left { Some((_, f)) => { tr!("  (another thread acts after the poll)"); f(); } None => during = true }
        if state.get() == 1 && !join() { WORKER.with(|w| *w.borrow_mut() = None); return Err("deadlock: the other thread's operation never returned".into()); } }
    drop(waker); Ok((r, w, during))
}

// ---- C22: one thread, precise model
pub fn c22_model(r: &mut Rng, size: usize) -> Res {
    struct Sg { kind: usize, s: Pin<Box<dyn Signal<Item = u32>>>, fresh: bool, w: Option<Arc<Hw>>, end: bool, m: usize }
    let mut n = 1u32; let mut ms: Vec<(Vec<Mutable<u32>>, ReadOnlyMutable<u32>, u32)> = (0..2).map(|i| { let m = Mutable::new(i); (vec![m.clone()], m.read_only(), i) }).collect();
    let mut sg: Vec<Sg> = vec![];
    for _ in 0..size * 3 {
        let i = r.n(2); let mut wrote = vec![]; let mut touched = vec![];
        if ms[i].0.is_empty() || r.p(1, 3) { match r.n(4) { 0 if sg.len() < 5 => { let ro = if ms[i].0.is_empty() || r.p(1, 2) { ms[i].1.clone() } else { ms[i].0[0].read_only() }; let kind = r.n(3); tr!("signal kind {} of mutable {}", kind, i);
                    sg.push(Sg { kind, s: match kind { 0 => Box::pin(ro.signal()), 1 => Box::pin(ro.signal_cloned()), _ => Box::pin(ro.signal_ref(|x| *x)) }, fresh: true, w: None, end: false, m: i }); }
                1 if !sg.is_empty() && r.p(1, 3) => { let k = r.n(sg.len()); tr!("drop signal {}", k); sg.remove(k); }
                _ if !sg.is_empty() => { let k = r.n(sg.len()); let g = &mut sg[k]; if g.end { continue; } let w = hw(); let waker = unsafe { Waker::from_raw(raw(w.clone())) }; let p = g.s.as_mut().poll_change(&mut Context::from_waker(&waker)); tr!("poll signal {} of mutable {} -> {:?}", k, g.m, p);
                    let cur = ms[g.m].2; let gone = ms[g.m].0.is_empty();
                    match p { Poll::Ready(Some(v)) => { ensure!(g.fresh, "reported {} again without a write", v); ensure!(v == cur, "reported {}, the current value is {}", v, cur); g.fresh = false; g.w = None; }
                        Poll::Ready(None) => { ensure!(!g.fresh, "ended with value {} unreported", cur); ensure!(gone, "ended while a handle is alive"); g.end = true; }
                        Poll::Pending => { ensure!(!g.fresh, "idle with value {} unreported", cur); ensure!(!gone, "idle although every handle is gone"); ensure!(!w.woken(), "woken without a change"); g.w = Some(w); } } }
                _ => {} } }
        else { let hs = ms[i].0.clone(); let h = r.n(ms[i].0.len()); drop(hs); n += 1; let cur = ms[i].2; let op = r.n(14); { let (a, b) = ms.split_at_mut(1); let (me, other) = if i == 0 { (&mut a[0], &mut b[0]) } else { (&mut b[0], &mut a[0]) }; let m = &me.0[h]; tr!("mutable {} (value {}): operation {} with {}", i, cur, op, n);
            match op {
                0 => { m.set(n); me.2 = n; wrote.push(i); }
                1 => { let o = m.replace(n); ensure!(o == cur, "replace returned {}, expected {}", o, cur); me.2 = n; wrote.push(i); }
                2 => { let o = m.replace_with(|x| { *x += 1000; *x + n }); ensure!(o == cur + 1000, "replace_with returned {}, expected {}", o, cur + 1000); me.2 = cur + 1000 + n; wrote.push(i); }
                3 => { if let Some(o) = other.0.first() { m.swap(o); std::mem::swap(&mut me.2, &mut other.2); wrote.push(i); wrote.push(1 - i); } }
                4 => { let k = r.n(me.0.len()); m.swap(&me.0[k]); wrote.push(i); }
                5 => { let same = r.p(1, 2); let v = if same { cur } else { n }; m.set_neq(v); me.2 = v; if v != cur { wrote.push(i); } }
                6 => { let yes = r.p(1, 2); let mut seen = (0, 0); m.set_if(n, |a, b| { seen = (*a, *b); yes }); ensure!(seen == (cur, n), "set_if compared {:?}", seen); if yes { me.2 = n; wrote.push(i); } }
                7 => { let l = m.lock_mut(); ensure!(*l == cur, "lock_mut shows {}", *l); drop(l); }
                8 => { let mut l = m.lock_mut(); *l = n; drop(l); me.2 = n; wrote.push(i); }
                9 => { ensure!(*m.lock_ref() == cur && m.get() == cur && m.get_cloned() == cur && *me.1.lock_ref() == cur, "reading gives {}, expected {}", m.get(), cur); }
                10 if me.0.len() < 3 => { let c = m.clone(); me.0.push(c); }
                11 | 12 if r.p(1, 4) => { me.0.remove(h); if me.0.is_empty() { touched.push(i); } }
                13 => { let o = std::mem::take(&mut *m.lock_mut()); ensure!(o == cur, "take returned {}", o); me.2 = 0; wrote.push(i); }
                _ => {} } } }
        for i in 0..2 { ensure!(ms[i].1.get() == ms[i].2, "mutable {} holds {}, expected {}", i, ms[i].1.get(), ms[i].2); }
        for g in sg.iter_mut() { if wrote.contains(&g.m) { g.fresh = true; if let Some(w) = &g.w { ensure!(w.woken(), "a write did not wake a waiting signal (kind {})", g.kind); } } else if touched.contains(&g.m) { if let Some(w) = &g.w { ensure!(w.woken(), "dropping the last handle did not wake a waiting signal"); } } else if let Some(w) = &g.w { if !g.fresh && !ms[g.m].0.is_empty() { ensure!(!w.woken(), "a waiting signal was notified although nothing was written"); } } }
    }
    Ok(())
}
pub fn c22_swap_threads(r: &mut Rng, size: usize) -> Res {
    let a = Mutable::new(0u32); let b = Mutable::new(1u32); let k = size as u32 * 4; let d = Arc::new(AtomicUsize::new(0));
    let mk = |x: Mutable<u32>, y: Mutable<u32>, d: Arc<AtomicUsize>| std::thread::spawn(move || { for _ in 0..k { x.swap(&y); } d.fetch_add(1, SeqCst); }); let _ = r;
    let _t = mk(a.clone(), b.clone(), d.clone()); let _u = mk(b.clone(), a.clone(), d.clone()); let t0 = std::time::Instant::now();
    while d.load(SeqCst) < 2 { ensure!(t0.elapsed() < Duration::from_secs(9), "deadlock: two threads swapping the same Mutables in opposite order never return"); std::thread::yield_now(); }
    let (x, y) = (a.get(), b.get()); ensure!((x, y) == (0, 1), "after an even number of swaps: {:?}", (x, y)); Ok(())
}

// ---- C23
pub fn c23_hooked(r: &mut Rng, size: usize) -> Res {
    let hs: Arc<Mutex<Vec<Mutable<Hv>>>> = Arc::new(Mutex::new(vec![Mutable::new(Hv(0))])); let cur = Arc::new(AtomicUsize::new(0)); let mut sig = hs.lock().unwrap()[0].signal_cloned(); let mut last: Option<usize> = None; let mut wait: Option<Arc<Hw>> = None; let mut n = 0;
    for _ in 0..size {
        let mut job = |r: &mut Rng| -> Job { n += 1; let (hs, cur, v, op) = (hs.clone(), cur.clone(), n, r.n(6)); tr!("  other thread plans operation {} with {}", ["write", "write", "lock_mut write", "drop handle", "clone handle", "write and drop all"][op], v);
            Box::new(move || { let h = hs.lock().unwrap().first().cloned(); if let Some(h) = h { match op { 0 | 1 => { h.set(Hv(v)); cur.store(v as usize, SeqCst); } 2 => { *h.lock_mut() = Hv(v); cur.store(v as usize, SeqCst); } 3 => { hs.lock().unwrap().pop(); } 4 => { hs.lock().unwrap().push(h.clone()); } _ => { h.set(Hv(v)); cur.store(v as usize, SeqCst); hs.lock().unwrap().clear(); } } drop(h); } }) };
        if r.p(1, 3) { let j = job(r); if !start(j) && !join() { fail!("deadlock"); } }
        let (v0, gone0) = (cur.load(SeqCst), hs.lock().unwrap().is_empty());
        if let Some(w) = &wait { if last != Some(v0) || gone0 { ensure!(w.woken(), "the waiting task was not woken (value {}, reported {:?}, all handles gone: {})", v0, last, gone0); } }
        let j = if r.p(2, 3) { Some((r.n(4), job(r))) } else { None };
        let (p, w, _) = poll_with(j, |cx| Pin::new(&mut sig).poll_change(cx))?;
        let (v1, gone1) = (cur.load(SeqCst), hs.lock().unwrap().is_empty()); tr!("poll -> {:?}; value {} -> {}, all handles gone: {} -> {}", p, v0, v1, gone0, gone1);
        match p { Poll::Ready(Some(v)) => { ensure!(v.0 as usize == v0 || v.0 as usize == v1, "reported {}, the value is {} then {}", v.0, v0, v1); last = Some(v.0 as usize); wait = None; }
            Poll::Ready(None) => { ensure!(gone1, "ended while a handle is alive"); ensure!(last == Some(v1), "ended with value {} unreported (last {:?})", v1, last); return Ok(()); }
            Poll::Pending => { ensure!(!(gone0 && last == Some(v0)), "idle although every handle is gone"); ensure!(last == Some(v0), "idle with value {} unreported (last {:?})", v0, last); if v1 != v0 || gone1 { ensure!(w.woken(), "idle and not woken although another thread wrote or dropped the last handle during the poll (value {} -> {}, gone: {})", v0, v1, gone1); } wait = Some(w); } }
    }
    Ok(())
}
struct Park { m: Mutex<bool>, c: Condvar }
impl std::task::Wake for Park { fn wake(self: Arc<Self>) { *self.m.lock().unwrap() = true; self.c.notify_one(); } }
/// Runs a task on this thread until it ends; every value goes to `f`. Fails when nobody wakes it.
fn run_task<T>(mut poll: impl FnMut(&mut Context) -> Poll<Option<T>>, mut f: impl FnMut(T)) -> Res {
    let p = Arc::new(Park { m: Mutex::new(false), c: Condvar::new() }); let w: Waker = p.clone().into();
    loop { *p.m.lock().unwrap() = false; match poll(&mut Context::from_waker(&w)) { Poll::Ready(Some(v)) => f(v), Poll::Ready(None) => return Ok(()), Poll::Pending => { let g = p.m.lock().unwrap(); let (g, _) = p.c.wait_timeout_while(g, Duration::from_secs(9), |x| !*x).unwrap(); if !*g { return Err("the waiting task was never woken".into()); } } } }
}
fn jitter(r: &mut Rng) { for _ in 0..r.n(60) { std::hint::spin_loop(); } }
pub fn c23_threads(r: &mut Rng, size: usize) -> Res {
    let m = Mutable::new(0u32); let sig = m.signal(); let (mut r2, k) = (r.clone(), 1 + r.n(size) as u32); let t = std::thread::spawn(move || { let m2 = m.clone(); for i in 1..=k { jitter(&mut r2); if i % 2 == 0 { m.set(i) } else { *m2.lock_mut() = i } } jitter(&mut r2); drop(m2); drop(m); });
    let mut sig = Box::pin(sig); let mut last = None; let mut back = false; let res = run_task(|cx| sig.as_mut().poll_change(cx), |v| { if last.map_or(false, |l| l > v) { back = true; } last = Some(v); }); t.join().unwrap(); res?;
    ensure!(last == Some(k), "ended with {:?} last reported, {} was written last", last, k); ensure!(!back, "reported an older value after a newer one"); Ok(())
}

// ---- C23..C26: the task runs on another thread, inside the wake, before the operation which woke it goes on
enum Msg { Wake, Done }
struct Gate { tx: Mutex<mpsc::Sender<Msg>>, back: Mutex<mpsc::Receiver<()>> }
impl std::task::Wake for Gate { fn wake(self: Arc<Self>) { let b = self.back.lock().unwrap(); while b.try_recv().is_ok() {} if self.tx.lock().unwrap().send(Msg::Wake).is_ok() { let _ = b.recv_timeout(Duration::from_millis(2)); } } }
/// Polls until idle, runs `job` on another thread, polls until idle at every wake. Returns whether the end was reported.
fn gated(poll: &mut dyn FnMut(&mut Context) -> Poll<Option<u32>>, job: Job, last: &mut Option<u32>) -> Result<bool, String> {
    let (tx, rx) = mpsc::channel(); let (rep, back) = mpsc::channel(); let w: Waker = Arc::new(Gate { tx: Mutex::new(tx.clone()), back: Mutex::new(back) }).into(); let mut end = false;
    let mut go = |why: &str| -> Result<bool, String> { if end { return Ok(true); } for _ in 0..50 { let p = poll(&mut Context::from_waker(&w)); tr!("  poll ({}) -> {:?}", why, p); match p { Poll::Ready(Some(v)) => *last = Some(v), Poll::Ready(None) => { end = true; return Ok(true); } Poll::Pending => return Ok(false) } } fail!("reports values without end") };
    if go("before")? { return Ok(true); }
    std::thread::spawn(move || { job(); let _ = tx.send(Msg::Done); });
    loop { match rx.recv_timeout(Duration::from_secs(9)) { Ok(Msg::Wake) => { go("woken")?; let _ = rep.send(()); } Ok(Msg::Done) => break, Err(_) => fail!("deadlock: the other thread's operation never returned") } }
    while let Ok(Msg::Wake) = rx.try_recv() { go("woken")?; }
    Ok(end)
}
pub fn c23_gated(r: &mut Rng, size: usize) -> Res {
    let m = Mutable::new(0u32); let mut hs = vec![m]; let mut s: Pin<Box<dyn Signal<Item = u32>>> = match r.n(3) { 0 => Box::pin(hs[0].signal()), 1 => Box::pin(hs[0].signal_cloned()), _ => Box::pin(hs[0].signal_ref(|x| *x)) }; let other = Mutable::new(1000u32); let mut last = None; let mut cur = 0; let mut n = 0;
    for _ in 0..1 + size / 3 { n += 1; let op = r.n(8); tr!("other thread: operation {} with {}", op, n); let h = hs[0].clone(); let o = other.clone(); let v = n; let mut gone = false;
        let job: Job = match op { 0 => { cur = v; Box::new(move || h.set(v)) } 1 => { cur = v; Box::new(move || { h.replace(v); }) } 2 => { cur = v; Box::new(move || h.set_neq(v)) } 3 => { cur = v; Box::new(move || h.set_if(v, |_, _| true)) } 4 => { cur = v; Box::new(move || { *h.lock_mut() = v; }) } 5 => { cur = v; Box::new(move || { h.replace_with(|_| v); }) }
            6 => { o.set(v + 5000); cur = v + 5000; Box::new(move || h.swap(&o)) } _ => { if r.p(1, 3) { gone = true; drop(h); let all = std::mem::take(&mut hs); Box::new(move || drop(all)) } else { Box::new(move || drop(h)) } } };
        let end = gated(&mut |cx| s.as_mut().poll_change(cx), job, &mut last)?; ensure!(last == Some(cur), "idle with value {} unreported (reported {:?}): the task was woken before the write was visible to it, or not at all", cur, last); ensure!(end == gone, "ended: {}, every handle gone: {}", end, gone); if gone { return Ok(()); } }
    Ok(())
}
pub fn c24_gated(r: &mut Rng, size: usize) -> Res {
    let (s, mut rx) = signal::channel(0u32); let mut ss = vec![s]; let mut last = None; let mut cur = 0; let mut n = 0;
    for _ in 0..1 + size / 3 { n += 1; let op = r.n(6); tr!("other thread: operation {} with {}", op, n); let v = n; let mut gone = false;
        let job: Job = match op { 0..=2 => { cur = v; let s = ss[0].clone(); Box::new(move || { let _ = s.send(v); drop(s); }) } 3 => { gone = r.p(1, 3); if gone { let s = ss.pop().unwrap(); if r.p(1, 2) { Box::new(move || drop(s)) } else { Box::new(move || { s.close(); std::mem::forget(s); }) } } else { let s = ss[0].clone(); Box::new(move || drop(s)) } }
            _ => { cur = v; gone = true; let s = ss.pop().unwrap(); Box::new(move || { let _ = s.send(v); drop(s); }) } };
        let end = gated(&mut |cx| Pin::new(&mut rx).poll_change(cx), job, &mut last)?; ensure!(last == Some(cur), "idle with {} unreported (reported {:?}): the task was woken before the value was there, or not at all", cur, last); ensure!(end == gone, "ended: {}, closed: {}", end, gone); if gone { return Ok(()); } }
    Ok(())
}
pub fn c25_gated(r: &mut Rng, size: usize) -> Res {
    let m = Mutable::new(0u32); let mut hs = vec![m]; let b = hs[0].signal().broadcast(); let mut s: Pin<Box<dyn Signal<Item = u32>>> = match r.n(3) { 0 => Box::pin(b.signal()), 1 => Box::pin(b.signal_cloned()), _ => Box::pin(b.signal_ref(|x| *x)) }; let mut t = b.signal(); let mut t_end = false; let mut last = None; let mut cur = 0; let mut n = 0;
    for _ in 0..1 + size / 3 { n += 1; let op = r.n(5); tr!("other thread: operation {} with {}", op, n); let v = n; let mut gone = false; let h = hs[0].clone(); let poll_other = r.p(1, 3);
        let job: Job = match op { 0 | 1 => { cur = v; Box::new(move || h.set(v)) } 2 => { cur = v; Box::new(move || { *h.lock_mut() = v; }) } 3 => { gone = r.p(1, 3); drop(h); if gone { let a = std::mem::take(&mut hs); Box::new(move || drop(a)) } else { Box::new(|| ()) } } _ => Box::new(move || drop(h)) };
        let end = gated(&mut |cx| { if poll_other && !t_end { let w: Waker = Arc::new(CountDummy).into(); t_end = matches!(Pin::new(&mut t).poll_change(&mut Context::from_waker(&w)), Poll::Ready(None)); } s.as_mut().poll_change(cx) }, job, &mut last)?;
        ensure!(last == Some(cur), "idle with {} unreported (reported {:?})", cur, last); ensure!(end == gone, "ended: {}, source ended: {}", end, gone); if gone { return Ok(()); } }
    Ok(())
}
struct CountDummy; impl std::task::Wake for CountDummy { fn wake(self: Arc<Self>) {} }
pub fn c26_gated(_r: &mut Rng, _size: usize) -> Res {
    let (h, f) = cancelable_future(std::future::pending::<u32>(), || 99); let mut f = Box::pin(f); let mut last = None; let mut done = false;
    let end = gated(&mut |cx| if done { Poll::Ready(None) } else { f.as_mut().poll(cx).map(|x| { done = true; Some(x) }) }, Box::new(move || drop(h)), &mut last)?; ensure!(end && last == Some(99), "idle although cancelled: the task was woken before the cancellation was visible to it, or not at all"); Ok(())
}

// ---- C24
pub fn c24_hooked(r: &mut Rng, size: usize) -> Res {
    struct St { ss: Vec<Sender<u32>>, closed: bool, last: u32, err: Option<String>, alive: bool }
    let (s, rx) = signal::channel(0u32); let st = Arc::new(Mutex::new(St { ss: vec![s], closed: false, last: 0, err: None, alive: true })); let mut rx = Some(rx); let mut got: Option<u32> = None; let mut wait: Option<Arc<Hw>> = None; let mut n = 0;
    for _ in 0..size {
        let mut job = |r: &mut Rng| -> Job { n += 1; let (st, v, op, k) = (st.clone(), n, r.n(9), r.n(8)); tr!("  other thread plans {} {}", ["send", "send", "send", "clone", "drop", "drop", "send and drop all", "close", "send and close"][op], v);
            Box::new(move || { let mut g = st.lock().unwrap(); let g = &mut *g; if g.ss.is_empty() { return; } let k = k % g.ss.len();
                let send = |g: &mut St| { let ok = g.alive && !g.closed; match g.ss[k].send(v) { Ok(()) => { if !ok { g.err = Some("send succeeded on a closed channel or without a receiver".into()); } g.last = v; } Err(x) => { if ok { g.err = Some("send failed on an open channel".into()); } if x != v { g.err = Some("a failed send returned another value".into()); } } } };
                match op { 0..=2 => send(g), 3 => { let c = g.ss[k].clone(); g.ss.push(c); } 4 | 5 => { g.ss.remove(k); } 6 => { send(g); g.ss.clear(); } 7 => { g.ss[k].close(); g.closed = true; } _ => { send(g); g.ss[k].close(); g.closed = true; } } }) };
        let snap = |st: &Mutex<St>| { let g = st.lock().unwrap(); (g.last, g.closed || g.ss.is_empty(), g.err.clone()) };
        if r.p(1, 3) { let j = job(r); if !start(j) && !join() { fail!("deadlock"); } }
        let (v0, end0, e) = snap(&st); if let Some(e) = e { fail!("{}", e); }
        if let Some(w) = &wait { if got != Some(v0) || end0 { ensure!(w.woken(), "the waiting task was not woken (sent {}, reported {:?}, closed: {})", v0, got, end0); } }
        if rx.is_some() && r.p(1, 60) { tr!("drop receiver"); rx = None; st.lock().unwrap().alive = false; wait = None; }
        let Some(q) = rx.as_mut() else { continue };
        let j = if r.p(2, 3) { Some((r.n(3), job(r))) } else { None };
        let (p, w, _) = poll_with(j, |cx| Pin::new(q).poll_change(cx))?;
        let (v1, end1, e) = snap(&st); tr!("poll -> {:?}; last sent {} -> {}, closed {} -> {}", p, v0, v1, end0, end1); if let Some(e) = e { fail!("{}", e); }
        match p { Poll::Ready(Some(v)) => { ensure!(v == v0 || v == v1, "reported {}, last sent {} then {}", v, v0, v1); ensure!(got != Some(v), "reported {} twice", v); got = Some(v); wait = None; }
            Poll::Ready(None) => { ensure!(end1, "ended while open"); ensure!(got == Some(v1), "ended with {} unreported (reported {:?})", v1, got); return Ok(()); }
            Poll::Pending => { ensure!(got == Some(v0), "idle with {} unreported", v0); ensure!(!end0, "idle although the channel is closed"); if v1 != v0 || end1 { ensure!(w.woken(), "idle and not woken although another thread acted during the poll (sent {} -> {}, closed {})", v0, v1, end1); } wait = Some(w); } }
    }
    Ok(())
}
pub fn c24_threads(r: &mut Rng, size: usize) -> Res {
    let (s, mut rx): (Sender<u32>, Receiver<u32>) = signal::channel(0u32); let k = 1 + r.n(size) as u32; let (mut r2, mut r3) = (r.clone(), r.clone()); r3.u(); let s2 = s.clone(); let close = r.p(1, 3); let two = r.p(1, 2);
    let last = Arc::new(AtomicUsize::new(0)); let l2 = last.clone();
    let t = std::thread::spawn(move || { for i in 1..=k { jitter(&mut r2); if s.send(i).is_ok() { l2.store(i as usize, SeqCst); } } jitter(&mut r2); if close { s.close(); } });
    let t2 = std::thread::spawn(move || { jitter(&mut r3); if two { let c = s2.clone(); jitter(&mut r3); drop(c); } drop(s2); });
    let mut got = None; let res = run_task(|cx| Pin::new(&mut rx).poll_change(cx), |v| got = Some(v)); t.join().unwrap(); t2.join().unwrap(); res?;
    ensure!(got.map(|x| x as usize) == Some(last.load(SeqCst)), "ended with {:?} last reported, {} was sent last", got, last.load(SeqCst)); Ok(())
}
pub fn c24_close_race(r: &mut Rng, _size: usize) -> Res { // closing while others clone and drop senders: the end must arrive
    let (s, mut rx): (Sender<u32>, Receiver<u32>) = signal::channel(0u32); let mut ts = vec![]; let keep = Arc::new(Mutex::new(vec![]));
    for i in 0..3 { let (s, mut r2, keep) = (s.clone(), r.clone(), keep.clone()); r.u(); ts.push(std::thread::spawn(move || { jitter(&mut r2); match i { 0 => s.close(), 1 => { for _ in 0..3 { let c = s.clone(); jitter(&mut r2); drop(c); } } _ => { let c = s.clone(); keep.lock().unwrap().push(c); } } keep.lock().unwrap().push(s); })); } drop(s);
    let res = run_task(|cx| Pin::new(&mut rx).poll_change(cx), |_| {}); for t in ts { t.join().unwrap(); } res?; ensure!(keep.lock().unwrap().iter().all(|s| s.send(1) == Err(1)), "send succeeded after close"); Ok(())
}

// ---- C25
pub fn c25_seq(r: &mut Rng, size: usize) -> Res { // one thread, scripted source
    let env = Env::new(); let s: Src<u32> = Src::new(&env, "source"); s.feed(0); let cur = Cell::new(0u32); let b = Broadcaster::new(MS(s.mock()));
    struct Sg { s: Pin<Box<dyn Signal<Item = u32>>>, last: Option<u32>, w: Option<Arc<Hw>>, end: bool }
    let mut sg: Vec<Sg> = vec![]; let mut n = 0; let mut b = Some(b);
    for _ in 0..size * 3 { match r.n(8) {
        0 if sg.len() < 4 => { if let Some(b) = &b { let k = r.n(3); tr!("new signal"); sg.push(Sg { s: match k { 0 => Box::pin(b.signal()), 1 => Box::pin(b.signal_cloned()), _ => Box::pin(b.signal_ref(|x| *x)) }, last: None, w: None, end: false }); } }
        1 if sg.len() > 1 && r.p(1, 4) => { let k = r.n(sg.len()); tr!("drop signal {}", k); sg.remove(k); }
        2 | 3 if !s.closed() => { for _ in 0..1 + r.n(2) { n += 1; tr!("feed {}", n); s.feed(n); cur.set(n); } }
        4 if r.p(1, 12) && !s.closed() => { s.close(); } 5 if r.p(1, 20) => { b = None; }
        _ if !sg.is_empty() => { let k = r.n(sg.len()); let g = &mut sg[k]; if g.end { continue; } let w = hw(); let waker = unsafe { Waker::from_raw(raw(w.clone())) }; let p = g.s.as_mut().poll_change(&mut Context::from_waker(&waker)); tr!("poll signal {} -> {:?}; source value {}", k, p, cur.get());
            match p { Poll::Ready(Some(v)) => { ensure!(v == cur.get(), "reported {}, the source's latest value is {}", v, cur.get()); ensure!(g.last != Some(v), "reported {} twice", v); g.last = Some(v); g.w = None; } Poll::Ready(None) => { ensure!(s.closed(), "ended before its source"); ensure!(g.last == Some(cur.get()), "ended with {} unreported", cur.get()); g.end = true; } Poll::Pending => { ensure!(g.last == Some(cur.get()), "idle with {} unreported (reported {:?})", cur.get(), g.last); ensure!(!s.closed(), "idle although the source has ended"); g.w = Some(w); } } }
        _ => {} }
        for (k, g) in sg.iter().enumerate() { if let Some(w) = &g.w { if !g.end && (g.last != Some(cur.get()) || s.closed()) { ensure!(w.woken(), "waiting signal {} was not woken by a change or the end of the source", k); } } }
    }
    Ok(())
}
pub fn c25_hooked(r: &mut Rng, size: usize) -> Res {
    type Sg = Arc<Mutex<(signal::BroadcasterSignalCloned<signal::MutableSignalCloned<Hv>>, Option<u32>, Option<Arc<Hw>>, bool)>>;
    let m: Arc<Mutex<Option<Mutable<Hv>>>> = Arc::new(Mutex::new(Some(Mutable::new(Hv(0))))); let cur = Arc::new(AtomicUsize::new(0)); let b = m.lock().unwrap().as_ref().unwrap().signal_cloned().broadcast();
    let sg: Vec<Sg> = (0..2 + r.n(2)).map(|_| Arc::new(Mutex::new((b.signal_cloned(), None, None, false)))).collect(); let mut n = 0;
    fn check(k: usize, p: &Poll<Option<Hv>>, g: &mut (signal::BroadcasterSignalCloned<signal::MutableSignalCloned<Hv>>, Option<u32>, Option<Arc<Hw>>, bool), w: Arc<Hw>, v0: u32, v1: u32, gone1: bool) -> Res {
        match p { Poll::Ready(Some(v)) => { ensure!(v.0 >= v0 && v.0 <= v1, "signal {} reported {}, the source's value is {} then {}", k, v.0, v0, v1); ensure!(g.1 != Some(v.0) , "reported {} twice", v.0); g.1 = Some(v.0); g.2 = None; } Poll::Ready(None) => { ensure!(gone1, "ended before its source"); ensure!(g.1 == Some(v1), "signal {} ended with {} unreported ({:?})", k, v1, g.1); g.3 = true; g.2 = None; } Poll::Pending => { ensure!(g.1.map_or(false, |x| x >= v0), "signal {} idle with {} unreported ({:?})", k, v0, g.1); g.2 = Some(w); } } Ok(()) }
    for _ in 0..size {
        let k = r.n(sg.len()); let mut o = r.n(sg.len()); if o == k { o = (k + 1) % sg.len(); }
        let other_res: Arc<Mutex<Option<(Poll<Option<Hv>>, Arc<Hw>, u32)>>> = Arc::new(Mutex::new(None));
        let mut job = |r: &mut Rng| -> Job { n += 1; let (m, cur, v, op, so, or) = (m.clone(), cur.clone(), n, r.n(8), sg[o].clone(), other_res.clone()); tr!("  other thread plans {} {}", ["write", "write", "write", "poll other signal", "poll other signal", "write and poll other", "end", "write and end"][op], v);
            Box::new(move || { let write = || if let Some(m) = m.lock().unwrap().as_ref() { cur.store(v as usize, SeqCst); m.set(Hv(v)); };
                let poll = || { let mut g = so.lock().unwrap(); if g.3 { return; } let v0 = cur.load(SeqCst) as u32; let w = hw(); let waker = unsafe { Waker::from_raw(raw(w.clone())) }; let p = Pin::new(&mut g.0).poll_change(&mut Context::from_waker(&waker)); *or.lock().unwrap() = Some((p, w, v0)); };
                match op { 0..=2 => write(), 3 | 4 => poll(), 5 => { write(); poll(); } 6 => { *m.lock().unwrap() = None; } _ => { write(); *m.lock().unwrap() = None; } } }) };
        let before = r.p(1, 4); let v0 = cur.load(SeqCst) as u32;
        if before { let j = job(r); if !start(j) && !join() { fail!("deadlock"); } if let Some((p, w, v0)) = other_res.lock().unwrap().take() { tr!("other poll -> {:?}", p); let gone = m.lock().unwrap().is_none(); check(o, &p, &mut sg[o].lock().unwrap(), w, v0, cur.load(SeqCst) as u32, gone)?; } }
        if !sg[k].lock().unwrap().3 {
            let v0 = if before { cur.load(SeqCst) as u32 } else { v0 }; let j = if r.p(2, 3) { Some((r.n(4), job(r))) } else { None };
            let (p, w, _) = { let mut g = sg[k].lock().unwrap(); poll_with(j, |cx| Pin::new(&mut g.0).poll_change(cx))? };
            let v1 = cur.load(SeqCst) as u32; let gone = m.lock().unwrap().is_none(); tr!("poll {} -> {:?}; source value {} -> {}, ended {}", k, p, v0, v1, gone);
            check(k, &p, &mut sg[k].lock().unwrap(), w, v0, v1, gone)?;
            if let Some((p, w, v0)) = other_res.lock().unwrap().take() { tr!("other poll {} -> {:?}", o, p); check(o, &p, &mut sg[o].lock().unwrap(), w, v0, v1, gone)?; }
        }
        let (v, gone) = (cur.load(SeqCst) as u32, m.lock().unwrap().is_none());
        for (k, g) in sg.iter().enumerate() { let g = g.lock().unwrap(); if let Some(w) = &g.2 { if g.1 != Some(v) || gone { ensure!(w.woken(), "waiting signal {} was not woken (reported {:?}, source value {}, ended {})", k, g.1, v, gone); } } }
    }
    Ok(())
}
pub fn c25_threads(r: &mut Rng, size: usize) -> Res {
    let m = Mutable::new(0u32); let b = m.signal().broadcast(); let k = 1 + r.n(size) as u32; let mut ts = vec![]; let errs = Arc::new(Mutex::new(vec![]));
    for _ in 0..2 { let (mut s, errs) = (b.signal(), errs.clone()); ts.push(std::thread::spawn(move || { let mut last = None; let res = run_task(|cx| Pin::new(&mut s).poll_change(cx), |v| last = Some(v)); if let Err(e) = res { errs.lock().unwrap().push(e); } else if last != Some(k) { errs.lock().unwrap().push(format!("a signal ended with {:?} last reported, {} was the last value", last, k)); } })); }
    for i in 1..=k { jitter(r); m.set(i); } jitter(r); drop(m); for t in ts { t.join().unwrap(); } let e = errs.lock().unwrap(); if let Some(e) = e.first() { fail!("{}", e); } Ok(())
}

// ---- C26
struct Inner { sh: Arc<InSh> }
struct InSh { polls: AtomicUsize, ready: AtomicBool, done: AtomicBool, dropped: AtomicBool, waker: Mutex<Option<Waker>> }
impl Future for Inner { type Output = u32; fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<u32> { let s = &self.sh; s.polls.fetch_add(1, SeqCst); event("inner poll"); if s.ready.load(SeqCst) { s.done.store(true, SeqCst); Poll::Ready(7) } else { *s.waker.lock().unwrap() = Some(cx.waker().clone()); event("inner poll end"); Poll::Pending } } }
impl Drop for Inner { fn drop(&mut self) { self.sh.dropped.store(true, SeqCst); } }
pub fn c26_hooked(r: &mut Rng, size: usize) -> Res {
    let sh = Arc::new(InSh { polls: AtomicUsize::new(0), ready: AtomicBool::new(false), done: AtomicBool::new(false), dropped: AtomicBool::new(false), waker: Mutex::new(None) }); let cbs = Arc::new(AtomicUsize::new(0)); let c2 = cbs.clone();
    let (h, f) = cancelable_future(Inner { sh: sh.clone() }, move || { c2.fetch_add(1, SeqCst); 99 }); let mut f = Box::pin(f); let leak = r.p(1, 10); let cancelled = Arc::new(AtomicBool::new(false));
    let h: Arc<Mutex<Option<DiscardOnDrop<CancelableFutureHandle>>>> = Arc::new(Mutex::new(if leak { let _ = DiscardOnDrop::leak(h); None } else { Some(h) })); let mut wait: Option<Arc<Hw>> = None; let mut ready = false;
    for step in 0.. { ensure!(step < 2000, "never resolves"); let last = step > size;
        let job = |r: &mut Rng| -> Job { let (h, c, sh, op) = (h.clone(), cancelled.clone(), sh.clone(), r.n(8)); tr!("  other thread plans {}", ["cancel", "cancel", "complete", "complete", "complete and cancel", "cancel and complete", "nothing", "nothing"][op]);
            Box::new(move || { let cancel = || { let x = h.lock().unwrap().take(); if let Some(x) = x { drop(x); c.store(true, SeqCst); } }; let finish = || { sh.ready.store(true, SeqCst); let w = sh.waker.lock().unwrap().take(); if let Some(w) = w { w.wake(); } }; match op { 0 | 1 => cancel(), 2 | 3 => finish(), 4 => { finish(); cancel(); } 5 => { cancel(); finish(); } _ => {} } }) };
        if last { let (sh, h) = (sh.clone(), h.clone()); if r.p(1, 2) || leak { sh.ready.store(true, SeqCst); } else { let x = h.lock().unwrap().take(); if x.is_some() { drop(x); cancelled.store(true, SeqCst); } else { sh.ready.store(true, SeqCst); } } }
        else if r.p(1, 4) { let j = job(r); if !start(j) && !join() { fail!("deadlock"); } }
        let (c0, polls0) = (cancelled.load(SeqCst), sh.polls.load(SeqCst)); let r0 = sh.ready.load(SeqCst);
        if let Some(w) = &wait { if c0 { ensure!(w.woken(), "cancelling did not wake the waiting task"); } } let _ = ready;
        let j = if !last && r.p(2, 3) { Some((r.n(5), job(r))) } else { None };
        let (p, w, _) = poll_with(j, |cx| f.as_mut().poll(cx))?; ready = r0;
        let c1 = cancelled.load(SeqCst); let polls1 = sh.polls.load(SeqCst); tr!("poll -> {:?}; cancelled {} -> {}", p, c0, c1);
        ensure!(!(c0 && polls1 != polls0), "the inner future was polled after the cancellation"); ensure!(polls1 <= polls0 + 1, "the inner future was polled twice");
        match p { Poll::Pending => { ensure!(!c0, "idle although cancelled"); ensure!(!r0, "idle although the inner future was ready"); if c1 { ensure!(w.woken(), "cancelled while it was being polled, but not woken"); } ensure!(cbs.load(SeqCst) == 0, "the cancel closure ran early"); wait = Some(w); }
            Poll::Ready(7) => { ensure!(sh.done.load(SeqCst) && !c0, "resolved with the inner output (cancelled before: {})", c0); ensure!(cbs.load(SeqCst) == 0, "both results were produced"); return Ok(()); }
            Poll::Ready(99) => { ensure!(c1, "resolved with the cancel value without a cancellation"); ensure!(!sh.done.load(SeqCst), "the inner output was lost"); ensure!(sh.dropped.load(SeqCst), "the inner future was not dropped"); ensure!(cbs.load(SeqCst) == 1, "the cancel closure ran {} times", cbs.load(SeqCst)); return Ok(()); }
            Poll::Ready(x) => fail!("resolved with {}", x) }
    }
    Ok(())
}
pub fn c26_threads(r: &mut Rng, _size: usize) -> Res {
    let (h, f) = cancelable_future(std::future::pending::<u32>(), || 99); let mut r2 = r.clone(); let t = std::thread::spawn(move || { jitter(&mut r2); drop(h); }); let mut f = Box::pin(f); let mut got = None; jitter(r);
    let res = { let mut done = false; run_task(|cx| if done { Poll::Ready(None) } else { f.as_mut().poll(cx).map(|x| { done = true; Some(x) }) }, |v| got = Some(v)) }; t.join().unwrap(); res?; ensure!(got == Some(99), "resolved with {:?}", got); Ok(())
}
