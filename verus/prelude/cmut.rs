mod cmut { use super::*; verus! {
// ---- The state of one Mutable and of one of its signals (the one with identity `c`, chosen arbitrarily) as one thread sees it; see cchan.rs for the method.
#[verifier::reject_recursive_types(A)]
pub struct St<A> {
  pub c: int,                                                       // the signal (its ChangedWaker) which is looked at
  pub val: A, pub ver: nat, pub list: Seq<int>, pub senders: nat,   // the value, how often it was written, the signals to be told, the counted handles
  pub changed: bool, pub cwaker: Option<int>,                       // the cells of c
  pub created: bool, pub dead: bool,                                // the signal c was created, was dropped
  pub fresh: bool, pub seen: nat, pub reading: bool,                // not polled yet; the version it last reported; it has cleared `changed` and has not yet read the value
  pub armed: Option<int>, pub woke: bool, pub dirty: bool,          // the task stored by its last poll; it was woken since; something happened since
  // this thread
  pub own: bool, pub next: int, pub made: bool,                     // owns the signal c; the identity of the next ChangedWaker it makes; it was made
  pub wl: bool, pub rl: bool, pub lk: bool, pub toks: nat,          // holds the write lock, the read lock, the mutex of c, counted handles
  pub wrote: bool, pub acq: A, pub put: Option<A>, pub got: Option<A>, // under the last write lock: a write was announced; the value found, left; the value last read
  pub vd: bool, pub td: bool, pub zero: bool,                       // owes `changed` of c; owes taking the task of c; it dropped the last handle
  pub pend: Option<int>, pub cur: bool,                             // took this task and has not called it; it is the armed one
  pub solo: bool,                                                   // assumed: there is only this thread
  // the other threads
  pub owl: bool, pub orl: bool, pub olk: bool, pub otoks: nat, pub ovd: bool, pub otd: bool, pub ozero: bool, pub ocur: bool,
}
pub open spec fn live<A>(s: St<A>) -> bool { s.created && !s.dead }
#[verifier::opaque]
pub open spec fn tells(l: Seq<int>, c: int) -> bool { l.contains(c) }
pub open spec fn inlist<A>(s: St<A>) -> bool { tells(s.list, s.c) }
pub open spec fn attached<A>(s: St<A>) -> bool { inlist(s) || s.senders == 0 }
pub open spec fn inv<A>(s: St<A>) -> bool {
  &&& s.ver >= 1 && s.seen <= s.ver
  &&& !(s.wl && s.owl) && (s.wl || s.owl ==> !s.rl && !s.orl) && !(s.lk && s.olk) && !(s.zero && s.ozero)
  &&& s.senders == s.toks + s.otoks && (s.zero || s.ozero ==> s.senders == 0)
  &&& !s.created ==> !inlist(s) && s.cwaker is None && s.armed is None && !s.own && !s.reading && !s.fresh && s.seen == 0 && !s.dead && !s.lk && !s.olk && !s.vd && !s.td && !s.ovd && !s.otd
  &&& s.own ==> live(s)
  &&& s.next == s.c ==> s.made == s.created
  &&& s.cur ==> s.pend is Some && s.pend == s.armed
  &&& live(s) ==> linv(s)
  &&& s.solo ==> !s.owl && !s.orl && !s.olk && !s.ovd && !s.otd && !s.ozero && !s.ocur && (live(s) ==> (s.changed ==> s.seen < s.ver) && (s.reading ==> s.own && !s.wl && !s.changed))
}
pub open spec fn linv<A>(s: St<A>) -> bool {
  &&& s.vd ==> s.wl && s.td && s.toks >= 1
  &&& s.ovd ==> s.owl && s.otd && s.otoks >= 1
  &&& s.td ==> s.wl || s.zero
  &&& s.otd ==> s.owl || s.ozero
  &&& s.td || s.otd ==> inlist(s)
  &&& !attached(s) ==> s.fresh
  &&& s.fresh ==> s.changed && s.armed is None && s.seen == 0 && !s.reading
  // a write it has not seen is flagged, or about to be, or it is about to read it
  &&& s.seen < s.ver ==> s.changed || s.reading || s.vd || s.ovd
  // the stored task stays stored until it is woken, and somebody is on the way to wake it if anything happened
  &&& s.armed is Some ==> (s.vd || s.ovd ==> s.dirty) && (s.woke || s.cur || s.ocur || (s.cwaker == s.armed && (s.dirty ==> s.td || s.otd)))
}
pub open spec fn mono<A>(s: St<A>, t: St<A>) -> bool {
  &&& t.c == s.c && s.ver <= t.ver && s.seen <= t.seen && (s.created ==> t.created) && (s.dead ==> t.dead)
  &&& s.senders == 0 ==> t.senders == 0 && t.ver == s.ver
}
pub open spec fn same_my<A>(s: St<A>, t: St<A>) -> bool {
  t.own == s.own && t.next == s.next && t.made == s.made && t.wl == s.wl && t.rl == s.rl && t.lk == s.lk && t.toks == s.toks && t.wrote == s.wrote && t.acq == s.acq && t.put == s.put && t.got == s.got
  && t.vd == s.vd && t.td == s.td && t.zero == s.zero && t.pend == s.pend && t.solo == s.solo
}
pub open spec fn rely<A>(s: St<A>, t: St<A>) -> bool {
  &&& inv(t) && mono(s, t) && same_my(s, t) && (t.cur ==> s.cur)
  &&& s.solo ==> t == s
  &&& s.wl ==> t.val == s.val && t.list == s.list && t.ver == s.ver && t.seen == s.seen
  &&& s.rl ==> t.val == s.val && t.ver == s.ver
  &&& s.lk ==> t.cwaker == s.cwaker
  &&& s.own ==> {
    &&& t.seen == s.seen && t.reading == s.reading && t.fresh == s.fresh && t.armed == s.armed && t.cur == s.cur && (s.woke ==> t.woke) && (s.dirty ==> t.dirty)
    &&& t.ver != s.ver ==> t.dirty
    &&& s.senders != 0 && t.senders == 0 ==> t.dirty
    &&& t.cwaker == s.cwaker || t.cwaker is None
    &&& s.changed ==> t.changed
    &&& attached(s) ==> attached(t) }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub tracked struct World<A> { p: core::marker::PhantomData<A> }
impl<A> World<A> { pub uninterp spec fn s(&self) -> St<A>; }

// ---- the steps
#[verifier::reject_recursive_types(A)]
pub enum Op<A> { Bump, Store, Swap, Lock, Unlock(Option<int>), Wake(int), Sub, Add, AcqW, RelW(A, Seq<int>), AcqR, RelR, Born, Dead }
pub open spec fn ok<A>(s: St<A>, op: Op<A>) -> bool {
  match op {
    Op::Bump => s.wl && s.toks >= 1,
    Op::Store => s.wl && (live(s) ==> s.seen < s.ver),
    Op::Swap => s.own && attached(s) && !s.reading && !s.wl,
    Op::Lock => !s.lk && !s.olk && s.created,
    Op::Unlock(v) => s.lk && (match v { Some(k) => s.own || v == s.cwaker, None => s.pend is None && !s.cur && (live(s) ==> !s.vd) }) && (s.own && v is Some ==> !s.fresh),
    Op::Wake(k) => !s.lk,
    Op::Sub => s.toks >= 1 && !s.wl && (live(s) ==> !s.vd),
    Op::Add => s.toks >= 1,
    Op::AcqW => !s.wl && !s.owl && !s.rl && !s.orl && !(s.own && s.reading),
    Op::RelW(v, l) => s.wl && (live(s) ==> !s.vd && (s.td ==> s.zero)) && (v != s.acq ==> s.wrote) && (tells(l, s.c) ==> s.created) && (inlist(s) && !tells(l, s.c) && live(s) ==> s.senders == 0 && !s.td && !s.otd),
    Op::AcqR => !s.wl && !s.owl && !s.rl,
    Op::RelR => s.rl,
    Op::Born => !s.made,
    Op::Dead => s.own && !s.lk,
  }
}
pub open spec fn take<A>(s: St<A>) -> St<A> { St { cwaker: None, lk: false, td: false, pend: s.cwaker, cur: s.cwaker is Some && s.cwaker == s.armed, ..s } }
pub open spec fn st<A>(s: St<A>, op: Op<A>) -> St<A> {
  match op {
    Op::Bump => St { ver: s.ver + 1, dirty: true, wrote: true, vd: s.vd || (live(s) && inlist(s)), td: s.td || (live(s) && inlist(s)), ..s },
    Op::Store => St { changed: true, vd: false, ..s },
    Op::Swap => St { changed: false, reading: s.changed, fresh: false, ..s },
    Op::Lock => St { lk: true, ..s },
    Op::Unlock(v) => match v { None => take(s), Some(k) => if s.own { St { cwaker: v, lk: false, armed: v, woke: false, dirty: s.td || s.otd, cur: false, ocur: false, ..s } } else { St { lk: false, ..s } } },
    Op::Wake(k) => St { woke: s.woke || s.armed == Some(k), pend: if s.pend == Some(k) { None } else { s.pend }, cur: s.cur && s.pend != Some(k), ..s },
    Op::Sub => { let t = St { senders: (s.senders - 1) as nat, toks: (s.toks - 1) as nat, ..s }; if t.senders == 0 { St { dirty: true, zero: true, td: s.td || (live(s) && inlist(s)), ..t } } else { t } },
    Op::Add => St { senders: s.senders + 1, toks: s.toks + 1, ..s },
    Op::AcqW => St { wl: true, wrote: false, acq: s.val, put: None, ..s },
    Op::RelW(v, l) => St { wl: false, val: v, list: l, put: if s.wrote { Some(v) } else { None }, ..s },
    Op::AcqR => { let t = St { rl: true, got: Some(s.val), ..s }; if s.own && s.reading { St { seen: s.ver, reading: false, ..t } } else { t } },
    Op::RelR => St { rl: false, ..s },
    Op::Born => if s.next == s.c { St { created: true, dead: false, changed: true, fresh: true, seen: 0, own: true, made: true, ..s } } else { St { made: true, ..s } },
    Op::Dead => St { dead: true, own: false, ..s },
  }
}
pub open spec fn did<A>(s: St<A>, op: Op<A>, t: St<A>) -> bool { inv(t) && exists|m: St<A>| #[trigger] rely(s, m) && ok(m, op) && t == st(m, op) }
pub open spec fn can<A>(s: St<A>, op: Op<A>) -> bool { forall|m: St<A>| #[trigger] rely(s, m) ==> ok(m, op) }
// every step keeps the invariant
proof fn inv_bump<A>(s: St<A>) requires inv(s), ok(s, Op::Bump) ensures inv(st(s, Op::Bump)) {}
proof fn inv_store<A>(s: St<A>) requires inv(s), ok(s, Op::Store) ensures inv(st(s, Op::Store)) {}
proof fn inv_swap<A>(s: St<A>) requires inv(s), ok(s, Op::Swap) ensures inv(st(s, Op::Swap)) {}
proof fn inv_lock<A>(s: St<A>) requires inv(s), ok(s, Op::Lock) ensures inv(st(s, Op::Lock)) {}
proof fn inv_unlock<A>(s: St<A>, v: Option<int>) requires inv(s), ok(s, Op::Unlock(v)) ensures inv(st(s, Op::Unlock(v))) {}
proof fn inv_wake<A>(s: St<A>, k: int) requires inv(s), ok(s, Op::Wake(k)) ensures inv(st(s, Op::Wake(k))) {}
proof fn inv_sub<A>(s: St<A>) requires inv(s), ok(s, Op::Sub) ensures inv(st(s, Op::Sub)) {}
proof fn inv_add<A>(s: St<A>) requires inv(s), ok(s, Op::Add) ensures inv(st(s, Op::Add)) {}
proof fn inv_acqw<A>(s: St<A>) requires inv(s), ok(s, Op::AcqW) ensures inv(st(s, Op::AcqW)) {}
proof fn inv_relw<A>(s: St<A>, v: A, l: Seq<int>) requires inv(s), ok(s, Op::RelW(v, l)) ensures inv(st(s, Op::RelW(v, l))) {}
proof fn inv_acqr<A>(s: St<A>) requires inv(s), ok(s, Op::AcqR) ensures inv(st(s, Op::AcqR)) {}
proof fn inv_relr<A>(s: St<A>) requires inv(s), ok(s, Op::RelR) ensures inv(st(s, Op::RelR)) {}
proof fn inv_born<A>(s: St<A>) requires inv(s), ok(s, Op::Born) ensures inv(st(s, Op::Born)) {}
proof fn inv_dead<A>(s: St<A>) requires inv(s), ok(s, Op::Dead) ensures inv(st(s, Op::Dead)) {}
pub proof fn op_inv<A>(s: St<A>, op: Op<A>) requires inv(s), ok(s, op) ensures inv(st(s, op)) { match op { Op::Bump => inv_bump(s), Op::Store => inv_store(s), Op::Swap => inv_swap(s), Op::Lock => inv_lock(s), Op::Unlock(v) => inv_unlock(s, v), Op::Wake(k) => inv_wake(s, k), Op::Sub => inv_sub(s), Op::Add => inv_add(s), Op::AcqW => inv_acqw(s), Op::RelW(v, l) => inv_relw(s, v, l), Op::AcqR => inv_acqr(s), Op::RelR => inv_relr(s), Op::Born => inv_born(s), Op::Dead => inv_dead(s),  } }
// ... and is, for every other thread, one of the things it relies on.
// `a` is the state of the acting thread, `b` the same state seen by another one, `o` stands for all the other threads
pub struct Third { pub wl: bool, pub rl: bool, pub lk: bool, pub toks: nat, pub vd: bool, pub td: bool, pub zero: bool, pub cur: bool, pub own: bool }
pub open spec fn view<A>(a: St<A>, b: St<A>, o: Third) -> bool {
  &&& b == (St { own: b.own, next: b.next, made: b.made, wl: b.wl, rl: b.rl, lk: b.lk, toks: b.toks, wrote: b.wrote, acq: b.acq, put: b.put, got: b.got, vd: b.vd, td: b.td, zero: b.zero, pend: b.pend, cur: b.cur, solo: b.solo,
      owl: a.wl || o.wl, orl: a.rl || o.rl, olk: a.lk || o.lk, otoks: a.toks + o.toks, ovd: a.vd || o.vd, otd: a.td || o.td, ozero: a.zero || o.zero, ocur: a.cur || o.cur, ..a })
  &&& a.owl == (b.wl || o.wl) && a.orl == (b.rl || o.rl) && a.olk == (b.lk || o.lk) && a.otoks == b.toks + o.toks && a.ovd == (b.vd || o.vd) && a.otd == (b.td || o.td) && a.ozero == (b.zero || o.zero) && a.ocur == (b.cur || o.cur)
  &&& !(a.wl && o.wl) && !(b.wl && o.wl) && !(a.lk && o.lk) && !(b.lk && o.lk) && !(a.zero && o.zero) && !(b.zero && o.zero)
  &&& !(a.own && b.own) && a.next != b.next && !b.solo && !a.solo
  &&& b.cur ==> b.pend is Some && b.pend == b.armed
  &&& live(a) ==> (o.vd ==> o.wl && o.td && o.toks >= 1) && (o.td ==> o.wl || o.zero) && (b.vd ==> b.wl && b.td && b.toks >= 1) && (b.td ==> b.wl || b.zero)
}
pub proof fn op_rely<A>(a: St<A>, op: Op<A>, b: St<A>, b2: St<A>, o: Third, o2: Third)
  requires inv(a), inv(b), ok(a, op), view(a, b, o), view(st(a, op), b2, o2), same_my(b, b2),
    o2 == (Third { cur: o2.cur, ..o }),
    ({ let arm = op is Unlock && op->Unlock_0 is Some && a.own; b2.cur == (b.cur && !arm) && o2.cur == (o.cur && !arm) })
  ensures rely(b, b2)
{ op_inv(a, op); }
pub proof fn rely_refl<A>(s: St<A>) requires inv(s) ensures rely(s, s) {}
pub proof fn rely_trans<A>(s: St<A>, t: St<A>, u: St<A>) requires rely(s, t), rely(t, u) ensures rely(s, u) {}
// a new Mutable; a new poll
pub proof fn start_inv<A>(s: St<A>) requires s.ver == 1, s.seen == 0, s.list.len() == 0, s.senders == 1, s.toks == 1, s.otoks == 0, !s.created, !s.dead, s.cwaker is None, s.armed is None, !s.own, !s.reading, !s.fresh, !s.made, !s.wl, !s.owl, !s.rl, !s.orl, !s.lk, !s.olk, !s.zero, !s.ozero, !s.vd, !s.ovd, !s.td, !s.otd, !s.cur, !s.ocur ensures inv(s) { reveal(tells); }
pub proof fn poll_starts<A>(s: St<A>) requires inv(s), s.own ensures inv(St { armed: None, cur: false, ocur: false, ..s }) {}
// The theorem: when no thread is in the middle of an operation, a task whose last poll was Pending is woken if a value was written since, or the last handle was dropped
pub open spec fn waiting<A>(s: St<A>, k: int) -> bool { live(s) && s.armed == Some(k) && (s.seen < s.ver || s.senders == 0 ==> s.dirty) }
pub proof fn no_lost_wake<A>(s: St<A>, k: int) requires inv(s), waiting(s, k), s.seen < s.ver || s.senders == 0, !s.td, !s.otd, !s.cur, !s.ocur ensures s.woke {}
pub proof fn waiting_stays<A>(s: St<A>, t: St<A>, k: int) requires inv(s), s.own, waiting(s, k), rely(s, t) ensures waiting(t, k) {}
// ... and polling it again then reports the last value (see the contract of poll_change: Ready(Some) if changed)
pub proof fn changed_is_reported<A>(s: St<A>) requires inv(s), live(s), !s.reading, !s.vd, !s.ovd, s.seen < s.ver ensures s.changed {}

// ---- the cells
#[derive(PartialEq, core::cmp::Eq, Structural)]
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct Waker<A> { p: core::marker::PhantomData<A> }
impl<A> Clone for Waker<A> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl<A> Waker<A> {
  pub uninterp spec fn id(&self) -> int;
  #[verifier::external_body]
  pub fn wake(self, Tracked(w): Tracked<&mut World<A>>) requires inv(old(w).s()), can(old(w).s(), Op::Wake(self.id())) ensures did(old(w).s(), Op::Wake(self.id()), final(w).s()) { unimplemented!() }
  #[verifier::external_body]
  pub fn wake_by_ref(&self, Tracked(w): Tracked<&mut World<A>>) requires inv(old(w).s()), can(old(w).s(), Op::Wake(self.id())) ensures did(old(w).s(), Op::Wake(self.id()), final(w).s()) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_waker<'a, A>(cx: &'a Context<'_>) -> (r: &'a Waker<A>) ensures r.id() == wk(*cx) { unimplemented!() }
pub open spec fn kid<A>(k: Option<Waker<A>>) -> Option<int> { match k { Some(w) => Some(w.id()), None => None } }
// AtomicBool of a ChangedWaker (`of` is the identity of the ChangedWaker)
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct AtomicBool<A> { p: core::marker::PhantomData<A> }
impl<A> AtomicBool<A> {
  pub uninterp spec fn of(&self) -> int;
  #[verifier::external_body]
  pub fn new(v: bool, Tracked(w): Tracked<&mut World<A>>) -> (r: Self) requires inv(old(w).s()), v, !old(w).s().made ensures r.of() == old(w).s().next, did(old(w).s(), Op::Born, final(w).s()) { unimplemented!() }
  #[verifier::external_body]
  pub fn store(&self, v: bool, o: Ordering, Tracked(w): Tracked<&mut World<A>>) requires inv(old(w).s()), o == Ordering::Release || o == Ordering::SeqCst, v && self.of() == old(w).s().c ==> can(old(w).s(), Op::Store), !v ==> self.of() == old(w).s().c && can(old(w).s(), Op::Swap)
    ensures if self.of() == old(w).s().c { did(old(w).s(), if v { Op::Store } else { Op::Swap }, final(w).s()) } else { rely(old(w).s(), final(w).s()) } { unimplemented!() }
  #[verifier::external_body]
  pub fn load(&self, o: Ordering, Tracked(w): Tracked<&mut World<A>>) -> (r: bool) requires inv(old(w).s()), o == Ordering::Acquire || o == Ordering::SeqCst ensures rely(old(w).s(), final(w).s()), self.of() == final(w).s().c ==> r == final(w).s().changed { unimplemented!() }
  #[verifier::external_body]
  pub fn swap(&self, v: bool, o: Ordering, Tracked(w): Tracked<&mut World<A>>) -> (r: bool) requires inv(old(w).s()), o == Ordering::SeqCst || o == Ordering::AcqRel, !v, self.of() == old(w).s().c, can(old(w).s(), Op::Swap)
    ensures did(old(w).s(), Op::Swap, final(w).s()), exists|m: St<A>| #[trigger] rely(old(w).s(), m) && ok(m, Op::Swap) && final(w).s() == st(m, Op::Swap) && r == m.changed { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct AtomicUsize<A> { p: core::marker::PhantomData<A> }
impl<A> AtomicUsize<A> {
  pub uninterp spec fn init(&self) -> usize;
  #[verifier::external_body]
  pub fn new(v: usize) -> (r: Self) ensures r.init() == v { unimplemented!() }
  #[verifier::external_body]
  pub fn load(&self, o: Ordering, Tracked(w): Tracked<&mut World<A>>) -> (r: usize) requires inv(old(w).s()), o == Ordering::Acquire || o == Ordering::SeqCst ensures rely(old(w).s(), final(w).s()), r == final(w).s().senders { unimplemented!() }
  #[verifier::external_body]
  pub fn fetch_sub(&self, n: usize, o: Ordering, Tracked(w): Tracked<&mut World<A>>) -> (r: usize) requires inv(old(w).s()), o == Ordering::AcqRel || o == Ordering::SeqCst, n == 1, can(old(w).s(), Op::Sub)
    ensures did(old(w).s(), Op::Sub, final(w).s()), r == final(w).s().senders + 1 { unimplemented!() }
  #[verifier::external_body]
  pub fn fetch_add(&self, n: usize, o: Ordering, Tracked(w): Tracked<&mut World<A>>) -> (r: usize) requires inv(old(w).s()), n == 1, can(old(w).s(), Op::Add)
    ensures did(old(w).s(), Op::Add, final(w).s()), r + 1 == final(w).s().senders { unimplemented!() }
}
// Mutex<Option<Waker>> of a ChangedWaker; acq_lock is lock().unwrap()
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct WMutex<A> { p: core::marker::PhantomData<A> }
#[verifier::reject_recursive_types(A)]
pub struct Guard<A> { pub v: Option<Waker<A>>, pub live: Ghost<bool>, pub of: Ghost<int> }
impl<A> WMutex<A> {
  pub uninterp spec fn of(&self) -> int;
  #[verifier::external_body]
  pub fn new(v: Option<Waker<A>>, Tracked(w): Tracked<&mut World<A>>) -> (r: Self) requires v is None ensures r.of() == old(w).s().next, final(w).s() == old(w).s() { unimplemented!() }
  #[verifier::external_body]
  pub fn acq_lock(&self, Tracked(w): Tracked<&mut World<A>>) -> (r: Guard<A>) requires inv(old(w).s()), self.of() == old(w).s().c ==> !old(w).s().lk && old(w).s().created
    ensures r.live@, r.of@ == self.of(), if self.of() == old(w).s().c { did(old(w).s(), Op::Lock, final(w).s()) && kid(r.v) == final(w).s().cwaker } else { rely(old(w).s(), final(w).s()) } { unimplemented!() }
}
impl<A> Guard<A> {
  #[verifier::external_body]
  pub fn release(&mut self, Tracked(w): Tracked<&mut World<A>>) requires inv(old(w).s()), old(self).live@ && old(self).of@ == old(w).s().c ==> can(old(w).s(), Op::Unlock(kid(old(self).v)))
    ensures !final(self).live@, !old(self).live@ ==> final(w).s() == old(w).s(),
      old(self).live@ ==> if old(self).of@ == old(w).s().c { did(old(w).s(), Op::Unlock(kid(old(self).v)), final(w).s()) } else { rely(old(w).s(), final(w).s()) } { unimplemented!() }
}
// RwLock<MutableLockState>; acq_write is write().unwrap(), acq_read is read().unwrap(): nothing panics while it is held.
// A thread which holds it and locks it again would wait for ever.
pub open spec fn ids<A>(l: Seq<Weak<A>>) -> Seq<int> { l.map(|i: int, x: Weak<A>| x.id()) }
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct VLock<A> { p: core::marker::PhantomData<A> }
#[verifier::reject_recursive_types(A)]
pub struct WGuard<A> { pub v: MutableLockState<A>, pub live: Ghost<bool> }
#[verifier::reject_recursive_types(A)]
pub struct RGuard<A> { pub v: MutableLockState<A>, pub live: Ghost<bool> }
impl<A> VLock<A> {
  pub uninterp spec fn init(&self) -> MutableLockState<A>;
  #[verifier::external_body]
  pub fn new(v: MutableLockState<A>) -> (r: Self) ensures r.init() == v { unimplemented!() }
  #[verifier::external_body]
  pub fn acq_write(&self, Tracked(w): Tracked<&mut World<A>>) -> (r: WGuard<A>) requires inv(old(w).s()), !old(w).s().wl, !old(w).s().rl, !(old(w).s().own && old(w).s().reading)
    ensures r.live@, did(old(w).s(), Op::AcqW, final(w).s()), r.v.value == final(w).s().val, ids(r.v.signals@) == final(w).s().list { unimplemented!() }
  #[verifier::external_body]
  pub fn acq_read(&self, Tracked(w): Tracked<&mut World<A>>) -> (r: RGuard<A>) requires inv(old(w).s()), !old(w).s().wl, !old(w).s().rl
    ensures r.live@, did(old(w).s(), Op::AcqR, final(w).s()), r.v.value == final(w).s().val { unimplemented!() }
}
impl<A> WGuard<A> {
  #[verifier::external_body]
  pub fn release(&mut self, Tracked(w): Tracked<&mut World<A>>) requires inv(old(w).s()), old(self).live@ ==> can(old(w).s(), Op::RelW(old(self).v.value, ids(old(self).v.signals@)))
    ensures !final(self).live@, final(self).v == old(self).v, !old(self).live@ ==> final(w).s() == old(w).s(), old(self).live@ ==> did(old(w).s(), Op::RelW(old(self).v.value, ids(old(self).v.signals@)), final(w).s()) { unimplemented!() }
}
impl<A> RGuard<A> {
  #[verifier::external_body]
  pub fn release(&mut self, Tracked(w): Tracked<&mut World<A>>) requires inv(old(w).s()), old(self).live@ ==> old(w).s().rl
    ensures !final(self).live@, final(self).v == old(self).v, !old(self).live@ ==> final(w).s() == old(w).s(), old(self).live@ ==> did(old(w).s(), Op::RelR, final(w).s()) { unimplemented!() }
}
pub open spec fn wf<A>(x: ChangedWaker<A>) -> bool { x.changed.of() == x.waker.of() }
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct Weak<A> { p: core::marker::PhantomData<A> }
impl<A> Weak<A> {
  pub uninterp spec fn id(&self) -> int;
  // every ChangedWaker which is shared was made by ChangedWaker::new
  #[verifier::external_body]
  pub fn upgrade(&self, Tracked(w): Tracked<&mut World<A>>) -> (r: Option<Arc<ChangedWaker<A>>>) requires inv(old(w).s())
    ensures rely(old(w).s(), final(w).s()), r is Some ==> wf(*r->0) && r->0.changed.of() == self.id() && (self.id() == final(w).s().c ==> final(w).s().created), self.id() == final(w).s().c && live(final(w).s()) ==> r is Some { unimplemented!() }
}
#[verifier::external_body]
pub fn downgrade<A>(a: &Arc<ChangedWaker<A>>) -> (r: Weak<A>) ensures r.id() == a.changed.of() { unimplemented!() }
// a write is announced: from here on the signals have to be told
#[verifier::external_body]
pub proof fn bump<A>(tracked w: &mut World<A>) requires inv(old(w).s()), ok(old(w).s(), Op::Bump) ensures final(w).s() == st(old(w).s(), Op::Bump) {}
// the identity conversion A -> A
pub fn v_same<A>(a: A) -> (r: A) ensures r == a { a }
// core::mem
pub trait FnOnceMut<A, B>: Sized { spec fn rel(&self) -> spec_fn(A, A, B) -> bool; fn call_cb(self, a: &mut A) -> (b: B) ensures self.rel()(*old(a), *final(a), b); }
pub trait FnOnce2<A, B>: Sized { spec fn rel(&self) -> spec_fn(A, A, B) -> bool; fn call_cb(self, a: &A, c: &A) -> (b: B) ensures self.rel()(*a, *c, b); }
// PartialEq::ne as a callback
pub struct Ne;
impl<A: PartialEq> FnOnce2<A, bool> for Ne { open spec fn rel(&self) -> spec_fn(A, A, bool) -> bool { |a: A, c: A, b: bool| b == !vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &c) } #[verifier::external_body] fn call_cb(self, a: &A, c: &A) -> (b: bool) { unimplemented!() } }
pub struct Eq;
impl<A: PartialEq> FnOnce2<A, bool> for Eq { open spec fn rel(&self) -> spec_fn(A, A, bool) -> bool { |a: A, c: A, b: bool| b == vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &c) } #[verifier::external_body] fn call_cb(self, a: &A, c: &A) -> (b: bool) { unimplemented!() } }
pub trait FnOnce1<A, B>: Sized { spec fn rel(&self) -> spec_fn(A, B) -> bool; fn call_cb(self, a: &A) -> (b: B) ensures self.rel()(*a, b); }
}}
use cmut::*;
use std::sync::Arc;
