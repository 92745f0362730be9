mod cchan { use super::*; verus! {
// ---- The state of one channel as one thread sees it ("my" fields: recv, toks, debt, pend, cur, mine).
// Every atomic operation is: any number of operations of other threads (`rely`), then the operation itself (`st_*`),
// sequentially consistent.  The operations' preconditions are the guarantee every thread gives the others.
#[verifier::reject_recursive_types(A)]
pub struct St<A> {
  pub value: Option<A>, pub waker: Option<int>, pub senders: nat,   // the three cells
  pub alive: bool,                                                  // the Receiver exists
  pub closed: bool, pub end_len: nat,                               // close() happened; how much had been sent when `senders` became 0
  pub sent: Seq<A>, pub reported: nat,                              // everything ever sent; how much of it is reported or overtaken by a report
  pub armed: Option<int>, pub dirty: bool, pub woke: bool,          // the task stored by the current or last poll; something happened since; it was woken since
  pub recv: bool,                                                   // this thread is inside a method of the Receiver
  pub toks: nat, pub otoks: nat,                                    // counted Senders of this thread, of the others
  pub debt: bool, pub odebt: nat,                                   // this thread (others) changed something and has (have) not yet taken the waker
  pub pend: Option<int>, pub cur: bool, pub ocur: bool,             // this thread took this waker and has not called it; it is the armed one; another thread has the armed one
  pub mine: Seq<A>,                                                 // what this thread has sent
}
pub open spec fn inv<A>(s: St<A>) -> bool {
  &&& s.reported <= s.sent.len()
  &&& match s.value { Some(v) => s.reported < s.sent.len() && s.sent.last() == v, None => s.reported == s.sent.len() }
  &&& s.closed ==> s.senders == 0
  &&& !s.closed && s.alive ==> s.senders == s.toks + s.otoks
  &&& s.senders == 0 ==> s.end_len <= s.sent.len()
  &&& s.senders == 0 && !s.closed && s.alive ==> s.end_len == s.sent.len()
  &&& s.cur ==> s.pend is Some && s.pend == s.armed
  // the task which was stored last will be woken if anything happened since, and stays stored until it is
  &&& s.armed is Some ==> s.woke || s.cur || s.ocur || (s.waker == s.armed && (s.dirty ==> s.debt || s.odebt > 0))
}
// what the other threads may do
pub open spec fn mono<A>(s: St<A>, t: St<A>) -> bool {
  &&& s.closed ==> t.closed
  &&& t.alive ==> s.alive
  &&& s.senders == 0 ==> t.senders == 0 && t.end_len == s.end_len
  &&& s.senders == 0 && !s.closed && s.alive && t.alive ==> !t.closed
  &&& s.reported <= t.reported && s.sent.len() <= t.sent.len() && forall|i: int| 0 <= i < s.sent.len() ==> #[trigger] t.sent[i] == s.sent[i]
}
pub open spec fn rely<A>(s: St<A>, t: St<A>) -> bool {
  &&& inv(t) && mono(s, t)
  &&& t.recv == s.recv && t.toks == s.toks && t.debt == s.debt && t.pend == s.pend && t.mine == s.mine && (t.cur ==> s.cur)
  // nobody else touches what belongs to the Receiver
  &&& s.recv ==> {
    &&& t.alive == s.alive && t.reported == s.reported && t.armed == s.armed && t.cur == s.cur && (s.dirty ==> t.dirty) && (s.woke ==> t.woke)
    &&& t.sent.len() == s.sent.len() ==> t.value == s.value
    &&& t.sent.len() != s.sent.len() ==> t.dirty
    &&& s.senders != 0 && t.senders == 0 ==> t.dirty
    &&& t.waker == s.waker || t.waker is None }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub tracked struct World<A> { p: core::marker::PhantomData<A> }
impl<A> World<A> { pub uninterp spec fn s(&self) -> St<A>; }

// ---- the steps
pub open spec fn put_ok<A>(s: St<A>, v: Option<A>) -> bool { if v is Some { s.toks >= 1 && !s.recv } else { s.recv } }
pub open spec fn st_put<A>(s: St<A>, v: Option<A>) -> St<A> {
  match v { Some(x) => St { value: v, sent: s.sent.push(x), mine: s.mine.push(x), dirty: true, debt: true, ..s }, None => St { value: None, reported: s.sent.len(), ..s } } }
pub open spec fn arm_ok<A>(s: St<A>, k: Option<int>) -> bool { if k is Some { s.recv } else { s.pend is None } }
pub open spec fn st_arm<A>(s: St<A>, k: Option<int>) -> St<A> {
  if k is Some { St { waker: k, armed: k, dirty: false, woke: false, cur: false, ocur: false, ..s } }
  else { St { waker: None, debt: false, pend: s.waker, cur: s.waker is Some && s.waker == s.armed, ..s } } }
pub open spec fn st_wake<A>(s: St<A>, k: int) -> St<A> { St { woke: s.woke || s.armed == Some(k), pend: if s.pend == Some(k) { None } else { s.pend }, cur: s.cur && s.pend != Some(k), ..s } }
pub open spec fn st_end<A>(s: St<A>) -> St<A> { St { senders: 0, end_len: s.sent.len(), dirty: true, debt: true, ..s } }
pub open spec fn cas_ok<A>(s: St<A>, a: usize, b: usize) -> bool { a != 0 && (b == a + 1 || (b + 1 == a && s.toks >= 1)) }
pub open spec fn st_cas<A>(s: St<A>, a: usize, b: usize) -> St<A> { if b == a + 1 { St { senders: b as nat, toks: s.toks + 1, ..s } } else { let t = St { senders: b as nat, toks: (s.toks - 1) as nat, ..s }; if b == 0 { st_end(t) } else { t } } }
pub open spec fn st_close<A>(s: St<A>) -> St<A> { let t = if s.senders == 0 { s } else { st_end(s) }; St { closed: true, ..t } }

// every step keeps the invariant
pub proof fn put_inv<A>(s: St<A>, v: Option<A>) requires inv(s), put_ok(s, v) ensures inv(st_put(s, v)) {}
pub proof fn arm_inv<A>(s: St<A>, k: Option<int>) requires inv(s), arm_ok(s, k) ensures inv(st_arm(s, k)) {}
pub proof fn wake_inv<A>(s: St<A>, k: int) requires inv(s) ensures inv(st_wake(s, k)) {}
pub proof fn cas_inv<A>(s: St<A>, a: usize, b: usize) requires inv(s), cas_ok(s, a, b), s.senders == a, s.alive ensures inv(st_cas(s, a, b)) {}
pub proof fn cas_inv_dead<A>(s: St<A>, a: usize, b: usize) requires inv(s), cas_ok(s, a, b), s.senders == a, !s.alive ensures inv(st_cas(s, a, b)) {}
pub proof fn close_inv<A>(s: St<A>) requires inv(s), s.toks >= 1 ensures inv(st_close(s)) {}
// and is, for every other thread, one of the things it relies on: `a` is the state of the acting thread, `b` the same state seen by another one
pub open spec fn views<A>(a: St<A>, b: St<A>) -> bool {
  &&& b.value == a.value && b.waker == a.waker && b.senders == a.senders && b.alive == a.alive && b.closed == a.closed && b.end_len == a.end_len && b.sent == a.sent && b.reported == a.reported && b.armed == a.armed && b.dirty == a.dirty && b.woke == a.woke
  &&& !(a.recv && b.recv) && b.toks + b.otoks == a.toks + a.otoks && b.toks <= a.otoks
  &&& (b.debt as nat) + b.odebt == (a.debt as nat) + a.odebt && (b.debt as nat) <= a.odebt
  &&& (b.cur || b.ocur) == (a.cur || a.ocur) && (b.cur ==> a.ocur) && (a.cur ==> b.ocur) && (b.cur ==> b.pend is Some && b.pend == b.armed)
}
pub open spec fn same_my<A>(a: St<A>, b: St<A>) -> bool { a.recv == b.recv && a.toks == b.toks && a.debt == b.debt && a.pend == b.pend && a.mine == b.mine }
pub proof fn put_rely<A>(a: St<A>, v: Option<A>, b: St<A>, b2: St<A>) requires inv(a), put_ok(a, v), views(a, b), views(st_put(a, v), b2), same_my(b, b2), b2.cur == b.cur ensures rely(b, b2) { put_inv(a, v); }
pub proof fn arm_rely<A>(a: St<A>, k: Option<int>, b: St<A>, b2: St<A>) requires inv(a), arm_ok(a, k), views(a, b), views(st_arm(a, k), b2), same_my(b, b2), b2.cur == (b.cur && k is None) ensures rely(b, b2) { arm_inv(a, k); }
pub proof fn wake_rely<A>(a: St<A>, k: int, b: St<A>, b2: St<A>) requires inv(a), views(a, b), views(st_wake(a, k), b2), same_my(b, b2), b2.cur == b.cur ensures rely(b, b2) { wake_inv(a, k); }
pub proof fn cas_rely<A>(a: St<A>, x: usize, y: usize, b: St<A>, b2: St<A>) requires inv(a), cas_ok(a, x, y), a.senders == x, views(a, b), views(st_cas(a, x, y), b2), same_my(b, b2), b2.cur == b.cur ensures rely(b, b2) { if a.alive { cas_inv(a, x, y); } else { cas_inv_dead(a, x, y); } }
pub proof fn close_rely<A>(a: St<A>, b: St<A>, b2: St<A>) requires inv(a), a.toks >= 1, views(a, b), views(st_close(a), b2), same_my(b, b2), b2.cur == b.cur ensures rely(b, b2) { close_inv(a); }
pub proof fn dead_rely<A>(a: St<A>, b: St<A>, b2: St<A>) requires inv(a), a.recv, views(a, b), views(St { alive: false, ..a }, b2), same_my(b, b2), b2.cur == b.cur ensures rely(b, b2) {}
// a new poll starts: what the last one waited for is over
pub proof fn poll_starts<A>(s: St<A>) requires inv(s), s.recv ensures inv(St { armed: None, cur: false, ocur: false, ..s }) {}
pub proof fn rely_refl<A>(s: St<A>) requires inv(s) ensures rely(s, s) {}
pub proof fn rely_trans<A>(s: St<A>, t: St<A>, u: St<A>) requires rely(s, t), rely(t, u) ensures rely(s, u) { assert forall|i: int| 0 <= i < s.sent.len() implies #[trigger] u.sent[i] == s.sent[i] by { assert(t.sent[i] == s.sent[i]); } }
pub proof fn start_inv<A>(s: St<A>, v: A) requires s.value == Some(v), s.waker is None, s.senders == 1, s.alive, !s.closed, s.sent == seq![v], s.reported == 0, s.armed is None, s.toks == 1, s.otoks == 0, !s.cur ensures inv(s) {}
// The theorem: no lost wake-ups and no lost values.  When no thread is in the middle of an operation, a task whose last poll was Pending is woken if there is something to report.
pub open spec fn waiting<A>(s: St<A>, k: int) -> bool { s.armed == Some(k) && ((s.value is Some || s.senders == 0) ==> s.dirty) }
pub proof fn no_lost_wake<A>(s: St<A>, k: int) requires inv(s), waiting(s, k), !s.debt && s.odebt == 0, !s.cur && !s.ocur, s.value is Some || s.senders == 0 ensures s.woke {}
pub proof fn waiting_stays<A>(s: St<A>, t: St<A>, k: int) requires inv(s), s.recv, waiting(s, k), rely(s, t) ensures waiting(t, k) {}

// ---- the cells
#[derive(PartialEq, Eq, Structural)]
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
pub open spec fn acq(o: Ordering) -> bool { o == Ordering::Acquire || o == Ordering::AcqRel || o == Ordering::SeqCst }
pub open spec fn rel(o: Ordering) -> bool { o == Ordering::Release || o == Ordering::AcqRel || o == Ordering::SeqCst }
pub open spec fn load_ord(o: Ordering) -> bool { o == Ordering::Acquire || o == Ordering::SeqCst }
pub open spec fn store_ord(o: Ordering) -> bool { o == Ordering::Release || o == Ordering::SeqCst }
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct Waker<A> { p: core::marker::PhantomData<A> }
impl<A> Waker<A> {
  pub uninterp spec fn id(&self) -> int;
  #[verifier::external_body]
  pub fn vclone(&self) -> (r: Self) ensures r.id() == self.id() { unimplemented!() }
  #[verifier::external_body]
  pub fn wake(self, Tracked(w): Tracked<&mut World<A>>) requires inv(old(w).s()) ensures inv(final(w).s()), exists|m: St<A>| #[trigger] rely(old(w).s(), m) && final(w).s() == st_wake(m, self.id()) { unimplemented!() }
  #[verifier::external_body]
  pub fn wake_by_ref(&self, Tracked(w): Tracked<&mut World<A>>) requires inv(old(w).s()) ensures inv(final(w).s()), exists|m: St<A>| #[trigger] rely(old(w).s(), m) && final(w).s() == st_wake(m, self.id()) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_waker<'a, A>(cx: &'a Context<'_>) -> (r: &'a Waker<A>) ensures r.id() == wk(*cx) { unimplemented!() }
pub open spec fn kid<A>(k: Option<Waker<A>>) -> Option<int> { match k { Some(w) => Some(w.id()), None => None } }
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct ValueCell<A> { p: core::marker::PhantomData<A> }
impl<A> ValueCell<A> {
  pub uninterp spec fn init(&self) -> Option<A>;
  #[verifier::external_body]
  pub fn new(v: Option<A>) -> (r: Self) ensures r.init() == v { unimplemented!() }
  #[verifier::external_body]
  pub fn swap(&self, v: Option<A>, Tracked(w): Tracked<&mut World<A>>) -> (r: Option<A>) requires inv(old(w).s()), put_ok(old(w).s(), v) ensures inv(final(w).s()), exists|m: St<A>| #[trigger] rely(old(w).s(), m) && r == m.value && final(w).s() == st_put(m, v) { unimplemented!() }
  pub fn store(&self, v: Option<A>, Tracked(w): Tracked<&mut World<A>>) requires inv(old(w).s()), put_ok(old(w).s(), v) ensures inv(final(w).s()), exists|m: St<A>| #[trigger] rely(old(w).s(), m) && final(w).s() == st_put(m, v) { let _ = self.swap(v, Tracked(w)); }
  pub fn take(&self, Tracked(w): Tracked<&mut World<A>>) -> (r: Option<A>) requires inv(old(w).s()), put_ok(old(w).s(), None::<A>) ensures inv(final(w).s()), exists|m: St<A>| #[trigger] rely(old(w).s(), m) && r == m.value && final(w).s() == st_put(m, None) { self.swap(None, Tracked(w)) }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct WakerCell<A> { p: core::marker::PhantomData<A> }
impl<A> WakerCell<A> {
  pub uninterp spec fn init(&self) -> Option<Waker<A>>;
  #[verifier::external_body]
  pub fn new(v: Option<Waker<A>>) -> (r: Self) ensures r.init() == v { unimplemented!() }
  #[verifier::external_body]
  pub fn swap(&self, v: Option<Waker<A>>, Tracked(w): Tracked<&mut World<A>>) -> (r: Option<Waker<A>>) requires inv(old(w).s()), arm_ok(old(w).s(), kid(v)) ensures inv(final(w).s()), exists|m: St<A>| #[trigger] rely(old(w).s(), m) && kid(r) == m.waker && final(w).s() == st_arm(m, kid(v)) { unimplemented!() }
  pub fn store(&self, v: Option<Waker<A>>, Tracked(w): Tracked<&mut World<A>>) requires inv(old(w).s()), arm_ok(old(w).s(), kid(v)) ensures inv(final(w).s()), exists|m: St<A>| #[trigger] rely(old(w).s(), m) && final(w).s() == st_arm(m, kid(v)) { let _ = self.swap(v, Tracked(w)); }
  pub fn take(&self, Tracked(w): Tracked<&mut World<A>>) -> (r: Option<Waker<A>>) requires inv(old(w).s()), arm_ok(old(w).s(), None) ensures inv(final(w).s()), exists|m: St<A>| #[trigger] rely(old(w).s(), m) && kid(r) == m.waker && final(w).s() == st_arm(m, None) { self.swap(None, Tracked(w)) }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct AtomicUsize<A> { p: core::marker::PhantomData<A> }
impl<A> AtomicUsize<A> {
  pub uninterp spec fn init(&self) -> usize;
  #[verifier::external_body]
  pub fn new(v: usize) -> (r: Self) ensures r.init() == v { unimplemented!() }
  #[verifier::external_body]
  pub fn load(&self, o: Ordering, Tracked(w): Tracked<&mut World<A>>) -> (r: usize) requires inv(old(w).s()), load_ord(o) ensures rely(old(w).s(), final(w).s()), r == final(w).s().senders, r < usize::MAX { unimplemented!() }
  #[verifier::external_body]
  pub fn store(&self, v: usize, o: Ordering, Tracked(w): Tracked<&mut World<A>>) requires inv(old(w).s()), store_ord(o), v == 0, old(w).s().toks >= 1 ensures inv(final(w).s()), exists|m: St<A>| #[trigger] rely(old(w).s(), m) && final(w).s() == st_close(m) { unimplemented!() }
  #[verifier::external_body]
  pub fn swap(&self, v: usize, o: Ordering, Tracked(w): Tracked<&mut World<A>>) -> (r: usize) requires inv(old(w).s()), acq(o) && rel(o), v == 0, old(w).s().toks >= 1 ensures inv(final(w).s()), exists|m: St<A>| #[trigger] rely(old(w).s(), m) && r == m.senders && final(w).s() == st_close(m) { unimplemented!() }
  #[verifier::external_body]
  pub fn compare_exchange_weak(&self, a: usize, b: usize, o: Ordering, f: Ordering, Tracked(w): Tracked<&mut World<A>>) -> (r: Result<usize, usize>) requires inv(old(w).s()), acq(o) && rel(o), load_ord(f), cas_ok(old(w).s(), a, b)
    ensures inv(final(w).s()), match r { Ok(x) => x == a && exists|m: St<A>| #[trigger] rely(old(w).s(), m) && m.senders == a && final(w).s() == st_cas(m, a, b), Err(x) => rely(old(w).s(), final(w).s()) && x == final(w).s().senders && x < usize::MAX } { unimplemented!() }
  #[verifier::external_body]
  pub fn compare_exchange(&self, a: usize, b: usize, o: Ordering, f: Ordering, Tracked(w): Tracked<&mut World<A>>) -> (r: Result<usize, usize>) requires inv(old(w).s()), acq(o) && rel(o), load_ord(f), cas_ok(old(w).s(), a, b)
    ensures inv(final(w).s()), match r { Ok(x) => x == a && exists|m: St<A>| #[trigger] rely(old(w).s(), m) && m.senders == a && final(w).s() == st_cas(m, a, b), Err(x) => rely(old(w).s(), final(w).s()) && x == final(w).s().senders && x != a && x < usize::MAX } { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct Weak<A> { p: core::marker::PhantomData<A> }
impl<A> Weak<A> {
  pub uninterp spec fn target(&self) -> Inner<A>;
  #[verifier::external_body]
  pub fn vclone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
  #[verifier::external_body]
  pub fn upgrade(&self, Tracked(w): Tracked<&mut World<A>>) -> (r: Option<Arc<Inner<A>>>) requires inv(old(w).s()) ensures rely(old(w).s(), final(w).s()), r is Some == final(w).s().alive, r is Some ==> *r->0 == self.target() { unimplemented!() }
}
#[verifier::external_body]
pub fn downgrade<A>(a: &Arc<Inner<A>>) -> (r: Weak<A>) ensures r.target() == **a { unimplemented!() }
}}
use cchan::*;
use std::sync::Arc;
