mod ccancel { use super::*; verus! {
// ---- The state of one cancelable future as one thread sees it; see cchan.rs for the method.
pub struct St {
  pub cancelled: bool, pub waker: Option<int>,               // the flag; the task behind the mutex
  pub lock: bool, pub olock: bool,                           // this thread (another one) holds the mutex
  pub alive: bool,                                           // the CancelableFuture exists
  pub armed: Option<int>, pub woke: bool, pub dirty: bool,   // the task stored by the current or last poll; it was woken since; the cancellation takes the waker after that
  pub poll: bool, pub disc: bool,                            // this thread is inside poll; this thread is cancelling (it owns the handle)
  pub debt: bool, pub odebt: bool,                           // this thread (another one) has set the flag and has not yet taken the waker
  pub pend: Option<int>, pub cur: bool, pub ocur: bool,      // this thread took this waker and has not called it; it is the armed one; another thread has it
  pub c0: bool, pub polled: bool, pub out: bool,             // of this poll: the flag at its start; the inner future was polled; it resolved
}
pub open spec fn inv(s: St) -> bool {
  &&& !(s.lock && s.olock) && !(s.poll && s.disc)
  &&& s.cur ==> s.pend is Some && s.pend == s.armed
  &&& s.debt ==> s.disc
  // a stored task is woken by whoever sets the flag from then on
  &&& s.armed is Some ==> s.woke || s.cur || s.ocur || (s.waker == s.armed && (s.dirty ==> s.debt || s.odebt))
}
pub open spec fn rely(s: St, t: St) -> bool {
  &&& inv(t) && (s.cancelled ==> t.cancelled) && (t.alive ==> s.alive)
  &&& t.lock == s.lock && t.poll == s.poll && t.disc == s.disc && t.debt == s.debt && t.pend == s.pend && (t.cur ==> s.cur) && t.c0 == s.c0 && t.polled == s.polled && t.out == s.out
  &&& s.poll ==> t.alive == s.alive && t.armed == s.armed && t.cur == s.cur && (s.woke ==> t.woke) && (s.dirty ==> t.dirty) && (!s.cancelled && t.cancelled ==> t.dirty) && (t.waker == s.waker || t.waker is None)
  &&& s.disc ==> t.cancelled == s.cancelled && !t.odebt
  // the waker is only touched, and a debt only paid, with the mutex held
  &&& s.lock ==> t.waker == s.waker && (s.odebt ==> t.odebt) && (!s.cancelled && t.cancelled ==> t.odebt)
}
#[verifier::external_body]
pub tracked struct World { p: () }
impl World { pub uninterp spec fn s(&self) -> St; }
pub open spec fn st_set(s: St) -> St { St { cancelled: true, dirty: true, debt: true, ..s } }
pub open spec fn st_wake(s: St, k: int) -> St { St { woke: s.woke || s.armed == Some(k), pend: if s.pend == Some(k) { None } else { s.pend }, cur: s.cur && s.pend != Some(k), ..s } }
pub open spec fn unlock_ok(s: St, v: Option<int>) -> bool { s.lock && (s.poll || v is None || v == s.waker) && (v is None ==> s.pend is None) }
pub open spec fn st_unlock(s: St, v: Option<int>) -> St {
  if s.poll { if v is Some { St { waker: v, lock: false, armed: v, woke: false, dirty: s.cancelled && s.odebt, cur: false, ocur: false, ..s } } else { St { waker: None, lock: false, pend: s.waker, cur: s.waker is Some && s.waker == s.armed, ..s } } }
  else if v is None { St { waker: None, lock: false, debt: false, pend: s.waker, cur: s.waker is Some && s.waker == s.armed, ..s } } else { St { lock: false, ..s } } }
pub proof fn set_inv(s: St) requires inv(s), s.disc ensures inv(st_set(s)) {}
pub proof fn wake_inv(s: St, k: int) requires inv(s) ensures inv(st_wake(s, k)) {}
pub proof fn unlock_inv(s: St, v: Option<int>) requires inv(s), unlock_ok(s, v) ensures inv(st_unlock(s, v)) {}
pub open spec fn views(a: St, b: St) -> bool {
  &&& b.cancelled == a.cancelled && b.waker == a.waker && b.alive == a.alive && b.armed == a.armed && b.woke == a.woke && b.dirty == a.dirty
  &&& (b.lock || b.olock) == (a.lock || a.olock) && !(b.lock && b.olock) && !(a.lock && b.lock)
  &&& !(a.poll && b.poll) && !(a.disc && b.disc) && !(b.poll && b.disc)
  &&& (b.debt || b.odebt) == (a.debt || a.odebt) && !(b.debt && a.debt) && (b.debt ==> b.disc && !b.odebt) && (a.debt ==> a.disc) && (a.odebt ==> !a.disc) && (b.odebt ==> !b.disc)
  &&& (b.cur || b.ocur) == (a.cur || a.ocur) && (b.cur ==> a.ocur) && (a.cur ==> b.ocur) && (b.cur ==> b.pend is Some && b.pend == b.armed)
}
pub open spec fn same_my(a: St, b: St) -> bool { a.lock == b.lock && a.poll == b.poll && a.disc == b.disc && a.debt == b.debt && a.pend == b.pend && a.c0 == b.c0 && a.polled == b.polled && a.out == b.out }
pub proof fn set_rely(a: St, b: St, b2: St) requires inv(a), a.disc, views(a, b), views(st_set(a), b2), same_my(b, b2), b2.cur == b.cur ensures rely(b, b2) { set_inv(a); }
pub proof fn wake_rely(a: St, k: int, b: St, b2: St) requires inv(a), views(a, b), views(st_wake(a, k), b2), same_my(b, b2), b2.cur == b.cur ensures rely(b, b2) { wake_inv(a, k); }
pub proof fn unlock_rely(a: St, v: Option<int>, b: St, b2: St) requires inv(a), unlock_ok(a, v), views(a, b), views(st_unlock(a, v), b2), same_my(b, b2), b2.cur == (b.cur && !(a.poll && v is Some)) ensures rely(b, b2) { unlock_inv(a, v); }
pub proof fn lock_rely(a: St, b: St, b2: St) requires inv(a), !a.lock, !a.olock, views(a, b), views(St { lock: true, ..a }, b2), same_my(b, b2), b2.cur == b.cur ensures rely(b, b2) {}
pub proof fn rely_refl(s: St) requires inv(s), s.disc ==> !s.odebt ensures rely(s, s) {}
pub proof fn rely_trans(s: St, t: St, u: St) requires rely(s, t), rely(t, u) ensures rely(s, u) {}
pub proof fn start_inv(s: St) requires !s.cancelled, s.waker is None, !s.lock, !s.olock, s.armed is None, !s.debt, !s.cur, !(s.poll && s.disc) ensures inv(s) {}
pub proof fn poll_starts(s: St) requires inv(s), s.poll ensures inv(St { armed: None, cur: false, ocur: false, c0: s.cancelled, polled: false, out: false, ..s }) {}
// The theorem: once the handle was dropped and no operation is in progress, the task whose last poll was Pending has been woken
pub open spec fn waiting(s: St, k: int) -> bool { s.armed == Some(k) && (s.cancelled ==> s.dirty) }
pub proof fn cancel_wakes(s: St, k: int) requires inv(s), waiting(s, k), s.cancelled, !s.debt, !s.odebt, !s.cur, !s.ocur ensures s.woke {}
pub proof fn waiting_stays(s: St, t: St, k: int) requires s.poll, waiting(s, k), rely(s, t) ensures waiting(t, k) {}

// ---- the cells
#[derive(PartialEq, Eq, Structural)]
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
#[verifier::external_body]
pub struct Waker { p: () }
impl Waker {
  pub uninterp spec fn id(&self) -> int;
  #[verifier::external_body]
  pub fn vclone(&self) -> (r: Waker) ensures r.id() == self.id() { unimplemented!() }
  // a task may run, and take locks, inside wake
  #[verifier::external_body]
  pub fn wake(self, Tracked(w): Tracked<&mut World>) requires inv(old(w).s()), !old(w).s().lock ensures inv(final(w).s()), exists|m: St| #[trigger] rely(old(w).s(), m) && final(w).s() == st_wake(m, self.id()) { unimplemented!() }
  #[verifier::external_body]
  pub fn wake_by_ref(&self, Tracked(w): Tracked<&mut World>) requires inv(old(w).s()), !old(w).s().lock ensures inv(final(w).s()), exists|m: St| #[trigger] rely(old(w).s(), m) && final(w).s() == st_wake(m, self.id()) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_waker<'a>(cx: &'a Context<'_>) -> (r: &'a Waker) ensures r.id() == wk(*cx) { unimplemented!() }
pub open spec fn kid(k: Option<Waker>) -> Option<int> { match k { Some(w) => Some(w.id()), None => None } }
#[verifier::external_body]
pub struct AtomicBool { p: () }
impl AtomicBool {
  pub uninterp spec fn init(&self) -> bool;
  #[verifier::external_body]
  pub fn new(v: bool) -> (r: Self) ensures r.init() == v { unimplemented!() }
  #[verifier::external_body]
  pub fn load(&self, o: Ordering, Tracked(w): Tracked<&mut World>) -> (r: bool) requires inv(old(w).s()), o == Ordering::Acquire || o == Ordering::SeqCst ensures rely(old(w).s(), final(w).s()), r == final(w).s().cancelled { unimplemented!() }
  #[verifier::external_body]
  pub fn store(&self, v: bool, o: Ordering, Tracked(w): Tracked<&mut World>) requires inv(old(w).s()), o == Ordering::Release || o == Ordering::SeqCst, v, old(w).s().disc ensures inv(final(w).s()), exists|m: St| #[trigger] rely(old(w).s(), m) && final(w).s() == st_set(m) { unimplemented!() }
}
// Mutex<Option<Waker>>; acq_lock is lock().unwrap(): nothing panics while it is held
#[verifier::external_body]
pub struct WMutex { p: () }
pub struct Guard { pub v: Option<Waker>, pub live: Ghost<bool> }
impl WMutex {
  pub uninterp spec fn init(&self) -> Option<Waker>;
  #[verifier::external_body]
  pub fn new(v: Option<Waker>) -> (r: Self) ensures r.init() == v { unimplemented!() }
  // waits until no other thread has it; a thread which has it itself would wait for ever
  #[verifier::external_body]
  pub fn acq_lock(&self, Tracked(w): Tracked<&mut World>) -> (r: Guard) requires inv(old(w).s()), !old(w).s().lock
    ensures inv(final(w).s()), r.live@, kid(r.v) == final(w).s().waker, exists|m: St| #[trigger] rely(old(w).s(), m) && !m.olock && final(w).s() == (St { lock: true, ..m }) { unimplemented!() }
}
impl Guard {
  // what Drop of the guard does (nothing after drop(guard))
  #[verifier::external_body]
  pub fn release(&mut self, Tracked(w): Tracked<&mut World>) requires inv(old(w).s()), old(self).live@ ==> forall|m: St| #[trigger] rely(old(w).s(), m) ==> unlock_ok(m, kid(old(self).v))
    ensures !final(self).live@, inv(final(w).s()), !old(self).live@ ==> final(w).s() == old(w).s(), old(self).live@ ==> exists|m: St| #[trigger] rely(old(w).s(), m) && final(w).s() == st_unlock(m, kid(old(self).v)) { unimplemented!() }
}
#[verifier::external_body]
pub struct Weak { p: () }
impl Weak {
  pub uninterp spec fn target(&self) -> CancelableFutureState;
  #[verifier::external_body]
  pub fn upgrade(&self, Tracked(w): Tracked<&mut World>) -> (r: Option<Arc<CancelableFutureState>>) requires inv(old(w).s()) ensures rely(old(w).s(), final(w).s()), r is Some == final(w).s().alive { unimplemented!() }
}
#[verifier::external_body]
pub fn downgrade(a: &Arc<CancelableFutureState>) -> (r: Weak) ensures r.target() == **a { unimplemented!() }
// polling the inner future: at most once in a poll, never after a cancellation, with no lock held
#[verifier::external_body]
pub fn v_poll<A: Future>(f: Pin<&mut A>, cx: &Context, Tracked(w): Tracked<&mut World>) -> (r: Poll<A::Output>)
  requires inv(old(w).s()), !(*old(f.pointer)).done(), !old(w).s().c0, !old(w).s().polled, !old(w).s().lock
  ensures fut_post(*old(f.pointer), *final(f.pointer), wk(*cx), r), exists|m: St| #[trigger] rely(old(w).s(), m) && final(w).s() == (St { polled: true, out: !(r is Pending), ..m }), inv(final(w).s()) { unimplemented!() }
pub trait FnOnceOut<B>: Sized { spec fn rel(&self) -> spec_fn(B) -> bool; fn call_cb(self) -> (b: B) ensures self.rel()(b); }
pub struct DiscardOnDrop<H> { pub h: H }
impl<H> DiscardOnDrop<H> { pub fn new(h: H) -> (r: Self) ensures r.h == h { DiscardOnDrop { h } } }
}}
use ccancel::*;
use std::sync::Arc;
