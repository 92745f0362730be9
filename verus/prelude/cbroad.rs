mod cbroad { use super::*; verus! {
// ---- The state of one Broadcaster and of one of its signals (the one with identity `c`, chosen arbitrarily) as one thread sees it; see cchan.rs for the method.
// T is the type of the values.
#[verifier::reject_recursive_types(T)]
pub struct St<T> {
  pub c: int, pub n: int,                                                // the signal (its ChangedWaker) which is looked at; the waker the source is polled with
  // the source: how many changes (values, the end) it had; how many it had when it was last polled until Pending or its end; the last value it
  // yielded, how many it yielded; it has reported its end; it will wake the Broadcaster at the next change
  pub src: nat, pub drained: nat, pub last: Option<T>, pub yn: nat, pub sg: bool, pub sarm: bool,
  pub flag: bool, pub list: Seq<int>,                                    // the notifier: is_changed, the signals to be told
  pub epoch: nat, pub value: Option<T>, pub gone: bool, pub y0: nat,     // the contents of the lock when it was last released for writing
  pub cwaker: Option<int>,                                               // the task stored in c
  pub created: bool, pub dead: bool,                                     // the signal c was created, was dropped
  pub armed: Option<int>, pub woke: bool, pub dirty: bool,               // the task stored by its last poll; it was woken since; something happened since
  // this thread
  pub own: bool, pub next: int, pub made: bool,                          // owns the signal c; the identity of the next ChangedWaker it makes; it was made
  pub wl: bool, pub rl: bool, pub nl: bool, pub lk: bool,                // holds the write lock, a read lock, the list of the notifier, the mutex of c
  pub clr: bool, pub hold: bool,                                         // has reset is_changed and has to poll the source; has reset it under this write lock
  pub nd: bool, pub td: bool,                                            // owes a notification; owes taking the task of c
  pub pend: Option<int>, pub cur: bool,                                  // took this task and has not called it; it is the armed one
  pub rp: nat, pub re: nat, pub rv: Option<T>, pub rg: bool,             // what the lock last showed to it: drained, epoch, value, gone
  // the other threads
  pub owl: bool, pub orl: bool, pub onl: bool, pub olk: bool, pub oclr: bool, pub ohold: bool, pub ond: bool, pub otd: bool, pub ocur: bool,
}
pub open spec fn live<T>(s: St<T>) -> bool { s.created && !s.dead }
#[verifier::opaque]
pub open spec fn tells(l: Seq<int>, c: int) -> bool { l.contains(c) }
pub open spec fn inlist<T>(s: St<T>) -> bool { tells(s.list, s.c) }
pub open spec fn excl<T>(s: St<T>) -> bool {
  &&& !(s.wl && s.owl) && (s.wl || s.owl ==> !s.rl && !s.orl) && !(s.nl && s.onl) && !(s.lk && s.olk)
  &&& (s.clr ==> s.hold) && (s.hold ==> s.wl) && (s.oclr ==> s.ohold) && (s.ohold ==> s.owl)
  &&& s.drained <= s.src && (s.sg ==> s.src == s.drained && !s.clr && !s.oclr) && (s.gone ==> s.sg)
  &&& !s.created ==> !inlist(s) && s.cwaker is None && s.armed is None && !s.own && !s.dead && !s.lk && !s.olk && !s.td && !s.otd
}
pub open spec fn inv<T>(s: St<T>) -> bool {
  &&& excl(s)
  // a change which was not yet taken from the source is flagged, or about to be, or about to be taken
  &&& !s.sg && (s.src > s.drained || !s.sarm) ==> s.flag || s.nd || s.ond || s.clr || s.oclr
  // what was taken is shown when the lock is released
  &&& s.yn != s.y0 || s.sg != s.gone ==> (s.wl || s.owl) && (s.flag || s.hold || s.ohold)
  &&& s.y0 <= s.yn && (s.yn == s.y0 ==> s.value == s.last)
  &&& s.yn != s.y0 ==> s.last is Some
  &&& (s.epoch >= 1) == (s.value is Some)
  &&& s.own ==> live(s)
  &&& s.next == s.c ==> s.made == s.created
  &&& s.cur ==> s.pend is Some && s.pend == s.armed
  &&& live(s) ==> linv(s)
}
pub open spec fn linv<T>(s: St<T>) -> bool {
  &&& s.td || s.otd ==> inlist(s)
  // the stored task stays stored until it is woken, and somebody is on the way to wake it if anything happened
  &&& s.armed is Some ==> inlist(s) && (s.woke || s.cur || s.ocur || (s.cwaker == s.armed && (s.dirty ==> s.td || s.otd)))
}
pub open spec fn mono<T>(s: St<T>, t: St<T>) -> bool {
  &&& t.c == s.c && t.n == s.n && s.src <= t.src && s.drained <= t.drained && s.yn <= t.yn && s.epoch <= t.epoch && (s.sg ==> t.sg) && (s.gone ==> t.gone) && (s.created ==> t.created) && (s.dead ==> t.dead)
}
pub open spec fn same_my<T>(s: St<T>, t: St<T>) -> bool {
  t.own == s.own && t.next == s.next && t.made == s.made && t.wl == s.wl && t.rl == s.rl && t.nl == s.nl && t.lk == s.lk && t.clr == s.clr && t.hold == s.hold
  && t.nd == s.nd && t.td == s.td && t.pend == s.pend && t.rp == s.rp && t.re == s.re && t.rv == s.rv && t.rg == s.rg
}
// what is fixed while the lock is held
pub open spec fn held<T>(s: St<T>, t: St<T>) -> bool { t.epoch == s.epoch && t.value == s.value && t.gone == s.gone && t.drained == s.drained && t.last == s.last && t.yn == s.yn && t.y0 == s.y0 && t.sg == s.sg && (s.flag ==> t.flag) }
pub open spec fn rely<T>(s: St<T>, t: St<T>) -> bool { inv(t) && rely0(s, t) }
pub open spec fn rely0<T>(s: St<T>, t: St<T>) -> bool {
  &&& mono(s, t) && same_my(s, t) && (t.cur ==> s.cur)
  &&& s.wl || s.rl ==> held(s, t)
  &&& s.nl ==> t.list == s.list
  &&& s.lk ==> t.cwaker == s.cwaker
  // a flag is only reset by somebody who then polls the source
  &&& (s.flag ==> t.flag || t.oclr || t.drained >= s.src) && (s.oclr ==> t.oclr || t.drained >= s.src)
  &&& s.own ==> {
    &&& t.armed == s.armed && t.cur == s.cur && (s.woke ==> t.woke) && (s.dirty ==> t.dirty) && (inlist(s) ==> inlist(t))
    &&& t.cwaker == s.cwaker || t.cwaker is None
    &&& !s.flag && t.flag ==> t.dirty
    &&& !s.ohold && t.ohold ==> s.flag || t.dirty
    &&& t.epoch != s.epoch || t.gone != s.gone ==> s.flag || s.ohold || t.dirty }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub tracked struct World<T> { p: core::marker::PhantomData<T> }
impl<T> World<T> { pub uninterp spec fn s(&self) -> St<T>; }

// ---- the steps.  Src is a change of the source; Yield and Drain happen while it is polled
#[verifier::reject_recursive_types(T)]
pub enum Op<T> { Src, Set, Clr, Yield(T), Drain(bool), Lock, Unlock(Option<int>), Wake(int), LockN, UnlockN(Seq<int>), AcqW, RelW(Option<T>, nat, bool), AcqR, RelR, Born, Dead }
pub open spec fn ok<T>(s: St<T>, op: Op<T>) -> bool {
  match op {
    Op::Src => !s.sg,
    Op::Set => true,
    Op::Clr => s.wl,
    Op::Yield(v) => s.wl && !s.sg && (s.clr || s.flag),
    Op::Drain(g) => s.wl && !s.sg && (s.clr || s.flag),
    Op::Lock => !s.lk && !s.olk && s.created,
    Op::Unlock(v) => s.lk && (match v { Some(k) => (s.own && inlist(s)) || v == s.cwaker, None => s.pend is None && !s.cur }),
    Op::Wake(k) => !s.lk,
    Op::LockN => !s.nl && !s.onl && !s.lk,
    Op::UnlockN(l) => s.nl && (tells(l, s.c) ==> s.created) && (inlist(s) && !tells(l, s.c) ==> s.dead),
    Op::AcqW => !s.wl && !s.owl && !s.rl && !s.orl && !s.nl && !s.lk,
    Op::RelW(v, e, g) => s.wl && !s.clr && v == s.last && g == s.sg && (if s.yn == s.y0 { e == s.epoch } else { e > s.epoch }),
    Op::AcqR => !s.wl && !s.owl && !s.rl && !s.nl && !s.lk,
    Op::RelR => s.rl,
    Op::Born => !s.made,
    Op::Dead => s.own && !s.lk,
  }
}
pub open spec fn st<T>(s: St<T>, op: Op<T>) -> St<T> {
  match op {
    Op::Src => St { src: s.src + 1, sarm: false, nd: s.nd || s.sarm, ..s },
    Op::Set => St { flag: true, nd: false, dirty: true, td: s.td || (live(s) && inlist(s)), ..s },
    Op::Clr => St { flag: false, hold: s.hold || s.flag, clr: s.clr || (s.flag && !s.sg), ..s },
    Op::Yield(v) => St { last: Some(v), yn: s.yn + 1, sarm: false, ..s },
    Op::Drain(g) => St { drained: s.src, clr: false, sarm: !g, sg: g, ..s },
    Op::Lock => St { lk: true, ..s },
    Op::Unlock(v) => match v { None => St { cwaker: None, lk: false, td: false, dirty: true, pend: s.cwaker, cur: s.cwaker is Some && s.cwaker == s.armed, ..s }, Some(k) => if s.own && inlist(s) { St { cwaker: v, lk: false, armed: v, woke: false, dirty: s.td || s.otd, cur: false, ocur: false, ..s } } else { St { lk: false, ..s } } },
    Op::Wake(k) => St { woke: s.woke || s.armed == Some(k), pend: if s.pend == Some(k) { None } else { s.pend }, cur: s.cur && s.pend != Some(k), ..s },
    Op::LockN => St { nl: true, ..s },
    Op::UnlockN(l) => St { nl: false, list: l, ..s },
    Op::AcqW => St { wl: true, ..s },
    Op::RelW(v, e, g) => St { wl: false, hold: false, value: v, epoch: e, gone: g, y0: s.yn, rp: s.drained, re: e, rv: v, rg: g, ..s },
    Op::AcqR => St { rl: true, rp: s.drained, re: s.epoch, rv: s.value, rg: s.gone, ..s },
    Op::RelR => St { rl: false, ..s },
    Op::Born => if s.next == s.c { St { created: true, dead: false, own: true, made: true, ..s } } else { St { made: true, ..s } },
    Op::Dead => St { dead: true, own: false, ..s },
  }
}
pub open spec fn did<T>(s: St<T>, op: Op<T>, t: St<T>) -> bool { inv(t) && exists|m: St<T>| #[trigger] rely0(s, m) && ok(m, op) && t == st(m, op) }
pub open spec fn can<T>(s: St<T>, op: Op<T>) -> bool { forall|m: St<T>| #[trigger] rely(s, m) ==> ok(m, op) }
// every step keeps the invariant
proof fn inv_src<T>(s: St<T>) requires inv(s), ok(s, Op::Src) ensures inv(st(s, Op::Src)) {}
proof fn inv_set<T>(s: St<T>) requires inv(s), ok(s, Op::Set) ensures inv(st(s, Op::Set)) {}
proof fn inv_clr<T>(s: St<T>) requires inv(s), ok(s, Op::Clr) ensures inv(st(s, Op::Clr)) {}
proof fn inv_yield<T>(s: St<T>, v: T) requires inv(s), ok(s, Op::Yield(v)) ensures inv(st(s, Op::Yield(v))) {}
proof fn inv_drain<T>(s: St<T>, g: bool) requires inv(s), ok(s, Op::Drain(g)) ensures inv(st(s, Op::Drain(g))) {}
proof fn inv_lock<T>(s: St<T>) requires inv(s), ok(s, Op::Lock) ensures inv(st(s, Op::Lock)) {}
proof fn inv_unlock<T>(s: St<T>, v: Option<int>) requires inv(s), ok(s, Op::Unlock(v)) ensures inv(st(s, Op::Unlock(v))) {}
proof fn inv_wake<T>(s: St<T>, k: int) requires inv(s), ok(s, Op::Wake(k)) ensures inv(st(s, Op::Wake(k))) {}
proof fn inv_lockn<T>(s: St<T>) requires inv(s), ok(s, Op::LockN) ensures inv(st(s, Op::LockN)) {}
proof fn inv_unlockn<T>(s: St<T>, l: Seq<int>) requires inv(s), ok(s, Op::UnlockN(l)) ensures inv(st(s, Op::UnlockN(l))) {}
proof fn inv_acqw<T>(s: St<T>) requires inv(s), ok(s, Op::AcqW) ensures inv(st(s, Op::AcqW)) {}
proof fn inv_relw<T>(s: St<T>, v: Option<T>, e: nat, g: bool) requires inv(s), ok(s, Op::RelW(v, e, g)) ensures inv(st(s, Op::RelW(v, e, g))) {}
proof fn inv_acqr<T>(s: St<T>) requires inv(s), ok(s, Op::AcqR) ensures inv(st(s, Op::AcqR)) {}
proof fn inv_relr<T>(s: St<T>) requires inv(s), ok(s, Op::RelR) ensures inv(st(s, Op::RelR)) {}
proof fn inv_born<T>(s: St<T>) requires inv(s), ok(s, Op::Born) ensures inv(st(s, Op::Born)) {}
proof fn inv_dead<T>(s: St<T>) requires inv(s), ok(s, Op::Dead) ensures inv(st(s, Op::Dead)) {}
pub proof fn op_inv<T>(s: St<T>, op: Op<T>) requires inv(s), ok(s, op) ensures inv(st(s, op)) { match op { Op::Src => inv_src(s), Op::Set => inv_set(s), Op::Clr => inv_clr(s), Op::Yield(v) => inv_yield(s, v), Op::Drain(g) => inv_drain(s, g), Op::Lock => inv_lock(s), Op::Unlock(v) => inv_unlock(s, v), Op::Wake(k) => inv_wake(s, k), Op::LockN => inv_lockn(s), Op::UnlockN(l) => inv_unlockn(s, l), Op::AcqW => inv_acqw(s), Op::RelW(v, e, g) => inv_relw(s, v, e, g), Op::AcqR => inv_acqr(s), Op::RelR => inv_relr(s), Op::Born => inv_born(s), Op::Dead => inv_dead(s), } }
// ... and is, for every other thread, one of the things it relies on.
// `a` is the state of the acting thread, `b` the same state seen by another one, `o` stands for all the other threads
pub struct Third { pub wl: bool, pub rl: bool, pub nl: bool, pub lk: bool, pub clr: bool, pub hold: bool, pub nd: bool, pub td: bool, pub cur: bool }
pub open spec fn view<T>(a: St<T>, b: St<T>, o: Third) -> bool {
  &&& b.c == a.c && b.n == a.n && b.src == a.src && b.drained == a.drained && b.last == a.last && b.yn == a.yn && b.sg == a.sg && b.sarm == a.sarm && b.flag == a.flag && b.list == a.list && b.epoch == a.epoch && b.value == a.value && b.gone == a.gone && b.y0 == a.y0 && b.cwaker == a.cwaker && b.created == a.created && b.dead == a.dead && b.armed == a.armed && b.woke == a.woke && b.dirty == a.dirty
  &&& b.owl == (a.wl || o.wl) && b.orl == (a.rl || o.rl) && b.onl == (a.nl || o.nl) && b.olk == (a.lk || o.lk) && b.oclr == (a.clr || o.clr) && b.ohold == (a.hold || o.hold) && b.ond == (a.nd || o.nd) && b.otd == (a.td || o.td) && b.ocur == (a.cur || o.cur)
  &&& a.owl == (b.wl || o.wl) && a.orl == (b.rl || o.rl) && a.onl == (b.nl || o.nl) && a.olk == (b.lk || o.lk) && a.oclr == (b.clr || o.clr) && a.ohold == (b.hold || o.hold) && a.ond == (b.nd || o.nd) && a.otd == (b.td || o.td) && a.ocur == (b.cur || o.cur)
  &&& !(a.wl && o.wl) && !(b.wl && o.wl) && !(a.nl && o.nl) && !(b.nl && o.nl) && !(a.lk && o.lk) && !(b.lk && o.lk)
  &&& !(a.own && b.own) && a.next != b.next
  &&& (b.cur ==> b.pend is Some && b.pend == b.armed) && (b.clr ==> b.hold) && (b.hold ==> b.wl) && (o.clr ==> o.hold) && (o.hold ==> o.wl) && (a.clr ==> a.hold) && (a.hold ==> a.wl)
}
pub open spec fn step<T>(a: St<T>, op: Op<T>, b: St<T>, b2: St<T>, o: Third, o2: Third) -> bool { inv(a) && inv(b) && step0(a, op, b, b2, o, o2) }
pub open spec fn step0<T>(a: St<T>, op: Op<T>, b: St<T>, b2: St<T>, o: Third, o2: Third) -> bool {
  &&& excl(a) && excl(b) && (b.own ==> live(b)) && (a.own ==> live(a)) && (b.next == b.c ==> b.made == b.created) && (a.next == a.c ==> a.made == a.created) && (a.armed is Some && live(a) ==> inlist(a)) && (a.yn != a.y0 || a.sg != a.gone ==> a.owl || a.wl && (a.flag || a.hold || a.ohold)) && ok(a, op) && view(a, b, o) && view(st(a, op), b2, o2) && same_my(b, b2)
  &&& o2.wl == o.wl && o2.rl == o.rl && o2.nl == o.nl && o2.lk == o.lk && o2.clr == o.clr && o2.hold == o.hold && o2.nd == o.nd && o2.td == o.td
  &&& ({ let arm = op is Unlock && op->Unlock_0 is Some && a.own && inlist(a); b2.cur == (b.cur && !arm) && o2.cur == (o.cur && !arm) })
}
proof fn view_inv<T>(a: St<T>, b: St<T>, o: Third) requires inv(a), view(a, b, o), b.own ==> live(b), b.next == b.c ==> b.made == b.created ensures inv(b) {}
proof fn rely_src0<T>(a: St<T>, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step0(a, Op::<T>::Src, b, b2, o, o2) ensures rely0(b, b2), b2.own ==> live(b2), b2.next == b2.c ==> b2.made == b2.created {}
proof fn rely_src<T>(a: St<T>, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step(a, Op::<T>::Src, b, b2, o, o2) ensures rely(b, b2) { let op = Op::<T>::Src; op_inv(a, op); rely_src0(a, b, b2, o, o2); view_inv(st(a, op), b2, o2); }
proof fn rely_set0<T>(a: St<T>, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step0(a, Op::<T>::Set, b, b2, o, o2) ensures rely0(b, b2), b2.own ==> live(b2), b2.next == b2.c ==> b2.made == b2.created {}
proof fn rely_set<T>(a: St<T>, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step(a, Op::<T>::Set, b, b2, o, o2) ensures rely(b, b2) { let op = Op::<T>::Set; op_inv(a, op); rely_set0(a, b, b2, o, o2); view_inv(st(a, op), b2, o2); }
proof fn rely_clr0<T>(a: St<T>, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step0(a, Op::<T>::Clr, b, b2, o, o2) ensures rely0(b, b2), b2.own ==> live(b2), b2.next == b2.c ==> b2.made == b2.created {}
proof fn rely_clr<T>(a: St<T>, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step(a, Op::<T>::Clr, b, b2, o, o2) ensures rely(b, b2) { let op = Op::<T>::Clr; op_inv(a, op); rely_clr0(a, b, b2, o, o2); view_inv(st(a, op), b2, o2); }
proof fn rely_yield0<T>(a: St<T>, v: T, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step0(a, Op::<T>::Yield(v), b, b2, o, o2) ensures rely0(b, b2), b2.own ==> live(b2), b2.next == b2.c ==> b2.made == b2.created {}
proof fn rely_yield<T>(a: St<T>, v: T, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step(a, Op::<T>::Yield(v), b, b2, o, o2) ensures rely(b, b2) { let op = Op::<T>::Yield(v); op_inv(a, op); rely_yield0(a, v, b, b2, o, o2); view_inv(st(a, op), b2, o2); }
proof fn rely_drain0<T>(a: St<T>, g: bool, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step0(a, Op::<T>::Drain(g), b, b2, o, o2) ensures rely0(b, b2), b2.own ==> live(b2), b2.next == b2.c ==> b2.made == b2.created {}
proof fn rely_drain<T>(a: St<T>, g: bool, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step(a, Op::<T>::Drain(g), b, b2, o, o2) ensures rely(b, b2) { let op = Op::<T>::Drain(g); op_inv(a, op); rely_drain0(a, g, b, b2, o, o2); view_inv(st(a, op), b2, o2); }
proof fn rely_lock0<T>(a: St<T>, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step0(a, Op::<T>::Lock, b, b2, o, o2) ensures rely0(b, b2), b2.own ==> live(b2), b2.next == b2.c ==> b2.made == b2.created {}
proof fn rely_lock<T>(a: St<T>, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step(a, Op::<T>::Lock, b, b2, o, o2) ensures rely(b, b2) { let op = Op::<T>::Lock; op_inv(a, op); rely_lock0(a, b, b2, o, o2); view_inv(st(a, op), b2, o2); }
proof fn rely_unlock0<T>(a: St<T>, v: Option<int>, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step0(a, Op::<T>::Unlock(v), b, b2, o, o2) ensures rely0(b, b2), b2.own ==> live(b2), b2.next == b2.c ==> b2.made == b2.created {}
proof fn rely_unlock<T>(a: St<T>, v: Option<int>, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step(a, Op::<T>::Unlock(v), b, b2, o, o2) ensures rely(b, b2) { let op = Op::<T>::Unlock(v); op_inv(a, op); rely_unlock0(a, v, b, b2, o, o2); view_inv(st(a, op), b2, o2); }
proof fn rely_wake0<T>(a: St<T>, k: int, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step0(a, Op::<T>::Wake(k), b, b2, o, o2) ensures rely0(b, b2), b2.own ==> live(b2), b2.next == b2.c ==> b2.made == b2.created {}
proof fn rely_wake<T>(a: St<T>, k: int, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step(a, Op::<T>::Wake(k), b, b2, o, o2) ensures rely(b, b2) { let op = Op::<T>::Wake(k); op_inv(a, op); rely_wake0(a, k, b, b2, o, o2); view_inv(st(a, op), b2, o2); }
proof fn rely_lockn0<T>(a: St<T>, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step0(a, Op::<T>::LockN, b, b2, o, o2) ensures rely0(b, b2), b2.own ==> live(b2), b2.next == b2.c ==> b2.made == b2.created {}
proof fn rely_lockn<T>(a: St<T>, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step(a, Op::<T>::LockN, b, b2, o, o2) ensures rely(b, b2) { let op = Op::<T>::LockN; op_inv(a, op); rely_lockn0(a, b, b2, o, o2); view_inv(st(a, op), b2, o2); }
proof fn rely_unlockn0<T>(a: St<T>, l: Seq<int>, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step0(a, Op::<T>::UnlockN(l), b, b2, o, o2) ensures rely0(b, b2), b2.own ==> live(b2), b2.next == b2.c ==> b2.made == b2.created {}
proof fn rely_unlockn<T>(a: St<T>, l: Seq<int>, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step(a, Op::<T>::UnlockN(l), b, b2, o, o2) ensures rely(b, b2) { let op = Op::<T>::UnlockN(l); op_inv(a, op); rely_unlockn0(a, l, b, b2, o, o2); view_inv(st(a, op), b2, o2); }
proof fn rely_acqw0<T>(a: St<T>, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step0(a, Op::<T>::AcqW, b, b2, o, o2) ensures rely0(b, b2), b2.own ==> live(b2), b2.next == b2.c ==> b2.made == b2.created {}
proof fn rely_acqw<T>(a: St<T>, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step(a, Op::<T>::AcqW, b, b2, o, o2) ensures rely(b, b2) { let op = Op::<T>::AcqW; op_inv(a, op); rely_acqw0(a, b, b2, o, o2); view_inv(st(a, op), b2, o2); }
proof fn rely_relw0<T>(a: St<T>, v: Option<T>, e: nat, g: bool, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step0(a, Op::<T>::RelW(v, e, g), b, b2, o, o2) ensures rely0(b, b2), b2.own ==> live(b2), b2.next == b2.c ==> b2.made == b2.created {}
proof fn rely_relw<T>(a: St<T>, v: Option<T>, e: nat, g: bool, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step(a, Op::<T>::RelW(v, e, g), b, b2, o, o2) ensures rely(b, b2) { let op = Op::<T>::RelW(v, e, g); op_inv(a, op); rely_relw0(a, v, e, g, b, b2, o, o2); view_inv(st(a, op), b2, o2); }
proof fn rely_acqr0<T>(a: St<T>, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step0(a, Op::<T>::AcqR, b, b2, o, o2) ensures rely0(b, b2), b2.own ==> live(b2), b2.next == b2.c ==> b2.made == b2.created {}
proof fn rely_acqr<T>(a: St<T>, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step(a, Op::<T>::AcqR, b, b2, o, o2) ensures rely(b, b2) { let op = Op::<T>::AcqR; op_inv(a, op); rely_acqr0(a, b, b2, o, o2); view_inv(st(a, op), b2, o2); }
proof fn rely_relr0<T>(a: St<T>, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step0(a, Op::<T>::RelR, b, b2, o, o2) ensures rely0(b, b2), b2.own ==> live(b2), b2.next == b2.c ==> b2.made == b2.created {}
proof fn rely_relr<T>(a: St<T>, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step(a, Op::<T>::RelR, b, b2, o, o2) ensures rely(b, b2) { let op = Op::<T>::RelR; op_inv(a, op); rely_relr0(a, b, b2, o, o2); view_inv(st(a, op), b2, o2); }
proof fn rely_born0<T>(a: St<T>, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step0(a, Op::<T>::Born, b, b2, o, o2) ensures rely0(b, b2), b2.own ==> live(b2), b2.next == b2.c ==> b2.made == b2.created {}
proof fn rely_born<T>(a: St<T>, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step(a, Op::<T>::Born, b, b2, o, o2) ensures rely(b, b2) { let op = Op::<T>::Born; op_inv(a, op); rely_born0(a, b, b2, o, o2); view_inv(st(a, op), b2, o2); }
proof fn rely_dead0<T>(a: St<T>, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step0(a, Op::<T>::Dead, b, b2, o, o2) ensures rely0(b, b2), b2.own ==> live(b2), b2.next == b2.c ==> b2.made == b2.created {}
proof fn rely_dead<T>(a: St<T>, b: St<T>, b2: St<T>, o: Third, o2: Third) requires step(a, Op::<T>::Dead, b, b2, o, o2) ensures rely(b, b2) { let op = Op::<T>::Dead; op_inv(a, op); rely_dead0(a, b, b2, o, o2); view_inv(st(a, op), b2, o2); }
pub proof fn op_rely<T>(a: St<T>, op: Op<T>, b: St<T>, b2: St<T>, o: Third, o2: Third)
  requires step(a, op, b, b2, o, o2)
  ensures rely(b, b2)
{ hide(inv); hide(step); hide(rely); match op { Op::Src => rely_src(a, b, b2, o, o2), Op::Set => rely_set(a, b, b2, o, o2), Op::Clr => rely_clr(a, b, b2, o, o2), Op::Yield(v) => rely_yield(a, v, b, b2, o, o2), Op::Drain(g) => rely_drain(a, g, b, b2, o, o2), Op::Lock => rely_lock(a, b, b2, o, o2), Op::Unlock(v) => rely_unlock(a, v, b, b2, o, o2), Op::Wake(k) => rely_wake(a, k, b, b2, o, o2), Op::LockN => rely_lockn(a, b, b2, o, o2), Op::UnlockN(l) => rely_unlockn(a, l, b, b2, o, o2), Op::AcqW => rely_acqw(a, b, b2, o, o2), Op::RelW(v, e, g) => rely_relw(a, v, e, g, b, b2, o, o2), Op::AcqR => rely_acqr(a, b, b2, o, o2), Op::RelR => rely_relr(a, b, b2, o, o2), Op::Born => rely_born(a, b, b2, o, o2), Op::Dead => rely_dead(a, b, b2, o, o2), } }
pub proof fn rely_refl<T>(s: St<T>) requires inv(s) ensures rely(s, s) {}
pub proof fn rely_trans<T>(s: St<T>, t: St<T>, u: St<T>) requires rely(s, t), rely(t, u) ensures rely(s, u) {}
// a new Broadcaster; a new poll
pub proof fn start_inv<T>(s: St<T>) requires s.src == 0, s.drained == 0, s.yn == 0, s.y0 == 0, s.last is None, s.value is None, s.epoch == 0, !s.sg, !s.gone, !s.sarm, s.flag, s.list.len() == 0, !s.created, !s.dead, s.cwaker is None, s.armed is None, !s.own, !s.made, !s.wl, !s.owl, !s.rl, !s.orl, !s.nl, !s.onl, !s.lk, !s.olk, !s.clr, !s.oclr, !s.hold, !s.ohold, !s.nd, !s.ond, !s.td, !s.otd, !s.cur, !s.ocur ensures inv(s) { reveal(tells); }
pub proof fn poll_starts<T>(s: St<T>) requires inv(s), s.own ensures inv(St { armed: None, cur: false, ocur: false, ..s }) {}
// The theorem: when no thread is in the middle of an operation, a task whose last poll (which left `e` as the epoch of the signal) was Pending has been woken
// if the source has changed, the value was replaced or the source has ended since
pub open spec fn waiting<T>(s: St<T>, k: int, e: nat) -> bool { live(s) && s.armed == Some(k) && e <= s.epoch && (s.flag || s.ohold || s.epoch != e || s.gone ==> s.dirty) }
pub open spec fn quiet<T>(s: St<T>) -> bool { !s.wl && !s.owl && !s.nd && !s.ond && !s.td && !s.otd && !s.cur && !s.ocur }
pub proof fn no_lost_wake<T>(s: St<T>, k: int, e: nat) requires inv(s), waiting(s, k, e), quiet(s), s.src > s.drained || s.epoch != e || s.gone || s.sg ensures s.woke {}
pub proof fn waiting_stays<T>(s: St<T>, t: St<T>, k: int, e: nat) requires inv(s), s.own, waiting(s, k, e), rely(s, t) ensures waiting(t, k, e) {}
// ... and polling it again then takes everything from the source (see the contract of poll_change: rp >= src), and reports the value the source yielded last
pub proof fn changed_is_taken<T>(s: St<T>) requires inv(s), quiet(s), s.src > s.drained ensures s.flag {}
pub proof fn value_is_last<T>(s: St<T>) requires inv(s), !s.wl, !s.owl ensures s.value == s.last, s.gone == s.sg {}

// ---- the cells
#[derive(PartialEq, core::cmp::Eq, Structural)]
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Waker<T> { p: core::marker::PhantomData<T> }
impl<T> Clone for Waker<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl<T> Waker<T> {
  pub uninterp spec fn id(&self) -> int;
  #[verifier::external_body]
  pub fn wake(self, Tracked(w): Tracked<&mut World<T>>) requires inv(old(w).s()), can(old(w).s(), Op::Wake(self.id())) ensures did(old(w).s(), Op::Wake(self.id()), final(w).s()) { unimplemented!() }
  #[verifier::external_body]
  pub fn wake_by_ref(&self, Tracked(w): Tracked<&mut World<T>>) requires inv(old(w).s()), can(old(w).s(), Op::Wake(self.id())) ensures did(old(w).s(), Op::Wake(self.id()), final(w).s()) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_waker<'a, T>(cx: &'a Context<'_>) -> (r: &'a Waker<T>) ensures r.id() == wk(*cx) { unimplemented!() }
pub open spec fn kid<T>(k: Option<Waker<T>>) -> Option<int> { match k { Some(w) => Some(w.id()), None => None } }
// AtomicBool of a ChangedWaker (`of` is the identity of the ChangedWaker); it is not used by a Broadcaster
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct CBool<T> { p: core::marker::PhantomData<T> }
impl<T> CBool<T> {
  pub uninterp spec fn of(&self) -> int;
  #[verifier::external_body]
  pub fn new(v: bool, Tracked(w): Tracked<&mut World<T>>) -> (r: Self) requires inv(old(w).s()), !old(w).s().made ensures r.of() == old(w).s().next, did(old(w).s(), Op::Born, final(w).s()) { unimplemented!() }
  #[verifier::external_body]
  pub fn store(&self, v: bool, o: Ordering, Tracked(w): Tracked<&mut World<T>>) requires inv(old(w).s()) ensures rely(old(w).s(), final(w).s()) { unimplemented!() }
  #[verifier::external_body]
  pub fn load(&self, o: Ordering, Tracked(w): Tracked<&mut World<T>>) -> (r: bool) requires inv(old(w).s()) ensures rely(old(w).s(), final(w).s()) { unimplemented!() }
  #[verifier::external_body]
  pub fn swap(&self, v: bool, o: Ordering, Tracked(w): Tracked<&mut World<T>>) -> (r: bool) requires inv(old(w).s()) ensures rely(old(w).s(), final(w).s()) { unimplemented!() }
}
// AtomicBool of the notifier (`of` is the identity of the notifier)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct FBool<T> { p: core::marker::PhantomData<T> }
impl<T> FBool<T> {
  pub uninterp spec fn of(&self) -> int;
  pub uninterp spec fn init(&self) -> bool;
  #[verifier::external_body]
  pub fn new(v: bool) -> (r: Self) ensures r.init() == v { unimplemented!() }
  #[verifier::external_body]
  pub fn store(&self, v: bool, o: Ordering, Tracked(w): Tracked<&mut World<T>>) requires inv(old(w).s()), o == Ordering::Release || o == Ordering::SeqCst, !v ==> can(old(w).s(), Op::Clr)
    ensures did(old(w).s(), if v { Op::Set } else { Op::Clr }, final(w).s()) { unimplemented!() }
  #[verifier::external_body]
  pub fn load(&self, o: Ordering, Tracked(w): Tracked<&mut World<T>>) -> (r: bool) requires inv(old(w).s()), o == Ordering::Acquire || o == Ordering::SeqCst ensures rely(old(w).s(), final(w).s()), r == final(w).s().flag { unimplemented!() }
  #[verifier::external_body]
  pub fn swap(&self, v: bool, o: Ordering, Tracked(w): Tracked<&mut World<T>>) -> (r: bool) requires inv(old(w).s()), o == Ordering::SeqCst || o == Ordering::AcqRel, !v ==> can(old(w).s(), Op::Clr)
    ensures ({ let op = if v { Op::Set } else { Op::Clr }; did(old(w).s(), op, final(w).s()) && exists|m: St<T>| #[trigger] rely(old(w).s(), m) && ok(m, op) && final(w).s() == st(m, op) && r == m.flag }) { unimplemented!() }
}
// Mutex<Option<Waker>> of a ChangedWaker; acq_lock is lock().unwrap()
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct WMutex<T> { p: core::marker::PhantomData<T> }
#[verifier::reject_recursive_types(T)]
pub struct Guard<T> { pub v: Option<Waker<T>>, pub live: Ghost<bool>, pub of: Ghost<int> }
impl<T> WMutex<T> {
  pub uninterp spec fn of(&self) -> int;
  #[verifier::external_body]
  pub fn new(v: Option<Waker<T>>, Tracked(w): Tracked<&mut World<T>>) -> (r: Self) requires v is None ensures r.of() == old(w).s().next, final(w).s() == old(w).s() { unimplemented!() }
  #[verifier::external_body]
  pub fn acq_lock(&self, Tracked(w): Tracked<&mut World<T>>) -> (r: Guard<T>) requires inv(old(w).s()), self.of() == old(w).s().c ==> !old(w).s().lk && old(w).s().created
    ensures r.live@, r.of@ == self.of(), if self.of() == old(w).s().c { did(old(w).s(), Op::Lock, final(w).s()) && kid(r.v) == final(w).s().cwaker } else { rely(old(w).s(), final(w).s()) } { unimplemented!() }
}
impl<T> Guard<T> {
  #[verifier::external_body]
  pub fn release(&mut self, Tracked(w): Tracked<&mut World<T>>) requires inv(old(w).s()), old(self).live@ && old(self).of@ == old(w).s().c ==> can(old(w).s(), Op::Unlock(kid(old(self).v)))
    ensures !final(self).live@, !old(self).live@ ==> final(w).s() == old(w).s(),
      old(self).live@ ==> if old(self).of@ == old(w).s().c { did(old(w).s(), Op::Unlock(kid(old(self).v)), final(w).s()) } else { rely(old(w).s(), final(w).s()) } { unimplemented!() }
}
// Mutex<Vec<Weak<ChangedWaker>>> of the notifier
pub open spec fn ids<T>(l: Seq<Weak<T>>) -> Seq<int> { l.map(|i: int, x: Weak<T>| x.id()) }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct NMutex<T> { p: core::marker::PhantomData<T> }
#[verifier::reject_recursive_types(T)]
pub struct NGuard<T> { pub v: Vec<Weak<T>>, pub live: Ghost<bool> }
impl<T> NMutex<T> {
  pub uninterp spec fn init(&self) -> Seq<Weak<T>>;
  #[verifier::external_body]
  pub fn new(v: Vec<Weak<T>>) -> (r: Self) ensures r.init() == v@ { unimplemented!() }
  #[verifier::external_body]
  pub fn acq_lock(&self, Tracked(w): Tracked<&mut World<T>>) -> (r: NGuard<T>) requires inv(old(w).s()), !old(w).s().nl, !old(w).s().lk
    ensures r.live@, did(old(w).s(), Op::LockN, final(w).s()), ids(r.v@) == final(w).s().list { unimplemented!() }
}
impl<T> NGuard<T> {
  #[verifier::external_body]
  pub fn release(&mut self, Tracked(w): Tracked<&mut World<T>>) requires inv(old(w).s()), old(self).live@ ==> can(old(w).s(), Op::UnlockN(ids(old(self).v@)))
    ensures !final(self).live@, !old(self).live@ ==> final(w).s() == old(w).s(), old(self).live@ ==> did(old(w).s(), Op::UnlockN(ids(old(self).v@)), final(w).s()) { unimplemented!() }
}
// RwLock<BroadcasterInnerState>: nothing panics while it is held; a thread which holds it and locks it again would wait for ever.
pub open spec fn shows<A: Signal>(v: BroadcasterInnerState<A>, s: St<A::Item>) -> bool { v.waker.id() == s.n && (v.signal is None) == s.sg && (v.signal is Some ==> !v.signal->0.b.ended()) }
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct BLock<A> { p: core::marker::PhantomData<A> }
#[verifier::reject_recursive_types(A)]
pub struct WGuard<A: Signal> { pub v: BroadcasterInnerState<A>, pub live: Ghost<bool> }
#[verifier::reject_recursive_types(A)]
pub struct RGuard<A: Signal> { pub v: BroadcasterInnerState<A>, pub live: Ghost<bool> }
impl<A: Signal> BLock<A> {
  pub uninterp spec fn init(&self) -> BroadcasterInnerState<A>;
  #[verifier::external_body]
  pub fn new(v: BroadcasterInnerState<A>) -> (r: Self) ensures r.init() == v { unimplemented!() }
  // fewer than 2^64-1 changes
  #[verifier::external_body]
  pub fn acq_write(&self, Tracked(w): Tracked<&mut World<A::Item>>) -> (r: WGuard<A>) requires inv(old(w).s()), !old(w).s().wl, !old(w).s().rl, !old(w).s().nl, !old(w).s().lk
    ensures r.live@, did(old(w).s(), Op::AcqW, final(w).s()), final(w).s().yn == final(w).s().y0, shows(r.v, final(w).s()), r.v.value == final(w).s().value, r.v.epoch as nat == final(w).s().epoch, r.v.epoch < usize::MAX { unimplemented!() }
  #[verifier::external_body]
  pub fn acq_read(&self, Tracked(w): Tracked<&mut World<A::Item>>) -> (r: RGuard<A>) requires inv(old(w).s()), !old(w).s().wl, !old(w).s().rl, !old(w).s().nl, !old(w).s().lk
    ensures r.live@, did(old(w).s(), Op::AcqR, final(w).s()), shows(r.v, final(w).s()), r.v.value == final(w).s().value, r.v.epoch as nat == final(w).s().epoch { unimplemented!() }
}
impl<A: Signal> WGuard<A> {
  #[verifier::external_body]
  pub fn release(&mut self, Tracked(w): Tracked<&mut World<A::Item>>) requires inv(old(w).s()), old(self).live@ ==> shows(old(self).v, old(w).s()) && can(old(w).s(), Op::RelW(old(self).v.value, old(self).v.epoch as nat, old(self).v.signal is None))
    ensures !final(self).live@, final(self).v == old(self).v, !old(self).live@ ==> final(w).s() == old(w).s(), old(self).live@ ==> did(old(w).s(), Op::RelW(old(self).v.value, old(self).v.epoch as nat, old(self).v.signal is None), final(w).s()) { unimplemented!() }
}
impl<A: Signal> RGuard<A> {
  #[verifier::external_body]
  pub fn release(&mut self, Tracked(w): Tracked<&mut World<A::Item>>) requires inv(old(w).s()), old(self).live@ ==> old(w).s().rl
    ensures !final(self).live@, final(self).v == old(self).v, !old(self).live@ ==> final(w).s() == old(w).s(), old(self).live@ ==> did(old(w).s(), Op::RelR, final(w).s()) { unimplemented!() }
}
// the source is polled with the lock held for writing, after is_changed was reset (or before); its own changes are atomic with registration
#[verifier::external_body]
pub fn v_poll<S: Signal>(p: Pin<&mut S>, cx: &Context, Tracked(w): Tracked<&mut World<S::Item>>) -> (r: Poll<Option<S::Item>>)
  requires !(*old(p.pointer)).ended(),
    inv(old(w).s()), old(w).s().wl, !old(w).s().nl, !old(w).s().lk, !old(w).s().sg, old(w).s().clr || old(w).s().flag, wk(*cx) == old(w).s().n
  ensures sig_post(*old(p.pointer), *final(p.pointer), wk(*cx), r), (match r { Poll::Ready(Some(v)) => did(old(w).s(), Op::Yield(v), final(w).s()), Poll::Ready(None) => did(old(w).s(), Op::Drain(true), final(w).s()), Poll::Pending => did(old(w).s(), Op::Drain(false), final(w).s()) })
{ unimplemented!() }
#[verifier::external_body]
pub fn from_waker<'a, T>(k: &'a Waker<T>) -> (r: Context<'a>) ensures wk(r) == k.id() { unimplemented!() }
// futures_util::task::waker: waking it calls ArcWake::wake_by_ref of the notifier
#[verifier::external_body]
pub fn task_waker<T>(a: Arc<BroadcasterNotifier<T>>) -> (r: Waker<T>) ensures r.id() == a.is_changed.of() { unimplemented!() }
pub open spec fn wf<T>(x: ChangedWaker<T>) -> bool { x.changed.of() == x.waker.of() }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Weak<T> { p: core::marker::PhantomData<T> }
impl<T> Weak<T> {
  pub uninterp spec fn id(&self) -> int;
  // every ChangedWaker which is shared was made by ChangedWaker::new
  #[verifier::external_body]
  pub fn upgrade(&self, Tracked(w): Tracked<&mut World<T>>) -> (r: Option<Arc<ChangedWaker<T>>>) requires inv(old(w).s())
    ensures rely(old(w).s(), final(w).s()), r is Some ==> wf(*r->0) && r->0.changed.of() == self.id() && (self.id() == final(w).s().c ==> final(w).s().created), self.id() == final(w).s().c && live(final(w).s()) ==> r is Some { unimplemented!() }
}
#[verifier::external_body]
pub fn downgrade<T>(a: &Arc<ChangedWaker<T>>) -> (r: Weak<T>) ensures r.id() == a.changed.of() { unimplemented!() }
pub trait FnOnce1<A, B>: Sized { spec fn rel(&self) -> spec_fn(A, B) -> bool; fn call_cb(self, a: &A) -> (b: B) ensures self.rel()(*a, b); }
}}
use cbroad::*;
use std::sync::Arc;
