mod cswap { use super::*; verus! {
// ---- The locks of several Mutables as one thread takes them: `addr` is where a Mutable's state is allocated.
// `log` is what this operation found and left under each write lock, and whether it told the signals.
pub struct Entry<A> { pub found: A, pub left: A, pub told: bool }
pub struct St<A> { pub held: Map<int, bool>, pub released: bool, pub log: Map<int, Entry<A>> }
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub tracked struct World<A> { p: core::marker::PhantomData<A> }
impl<A> World<A> { pub uninterp spec fn s(&self) -> St<A>; }
// the list of signals; the contract of MutableLockState::notify is proved in unit mutable
#[verifier::external_body]
pub struct Signals { p: () }
impl Signals { pub uninterp spec fn told(&self) -> bool; }
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct VLock<A> { p: core::marker::PhantomData<A> }
#[verifier::reject_recursive_types(A)]
pub struct WGuard<A> { pub v: MutableLockState<A>, pub live: Ghost<bool>, pub of: Ghost<int>, pub found: Ghost<A> }
impl<A> VLock<A> {
  pub uninterp spec fn addr(&self) -> int;
  // No dead lock: a thread only waits for a lock which comes after all those it has, so there is no cycle of waiting threads.
  // Atomic: nothing is locked after something was released.
  #[verifier::external_body]
  pub fn acq_write(&self, Tracked(w): Tracked<&mut World<A>>) -> (r: WGuard<A>)
    requires forall|h: int| #[trigger] old(w).s().held.dom().contains(h) ==> h < self.addr(), !old(w).s().released
    ensures r.live@, r.of@ == self.addr(), r.found@ == r.v.value, !r.v.signals.told(), final(w).s() == (St { held: old(w).s().held.insert(self.addr(), true), ..old(w).s() }) { unimplemented!() }
}
impl<A> WGuard<A> {
  // a changed value has been announced
  #[verifier::external_body]
  pub fn release(&mut self, Tracked(w): Tracked<&mut World<A>>) requires old(self).live@ && old(self).v.value != old(self).found@ ==> old(self).v.signals.told()
    ensures !final(self).live@, !old(self).live@ ==> final(w).s() == old(w).s(),
      old(self).live@ ==> final(w).s() == (St { held: old(w).s().held.remove(old(self).of@), released: true, log: old(w).s().log.insert(old(self).of@, Entry { found: old(self).found@, left: old(self).v.value, told: old(self).v.signals.told() }) }) { unimplemented!() }
}
impl<A> MutableLockState<A> {
  #[verifier::external_body]
  pub fn notify(&mut self, has_changed: bool) ensures final(self).value == old(self).value, final(self).signals.told() == (old(self).signals.told() || has_changed) { unimplemented!() }
}
// the address of a shared state; a Mutable is one
#[verifier::external_body]
pub fn v_addr<A>(x: &Arc<MutableState<A>>) -> (r: usize) ensures r == x.lock.addr() { unimplemented!() }
#[verifier::external_body]
pub fn v_ptr_eq<A>(x: &Arc<MutableState<A>>, y: &Arc<MutableState<A>>) -> (r: bool) ensures r == (x.lock.addr() == y.lock.addr()) { unimplemented!() }
}}
use cswap::*;
use std::sync::Arc;
