mod lockw { use super::*; verus! {
// ---- std::sync::RwLock around a state with an invariant.  One thread's view of a critical section: what it found, what it left.
// The invariant holds whenever nobody holds the lock: it is a precondition of making the lock and of giving it back.
pub trait Linv { spec fn linv(&self) -> bool; }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub tracked struct Sect<T> { p: core::marker::PhantomData<T> }
impl<T> Sect<T> { pub uninterp spec fn n(&self) -> nat; pub uninterp spec fn got(&self) -> T; pub uninterp spec fn put(&self) -> T; }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RwLock<T> { p: core::marker::PhantomData<T> }
#[verifier::reject_recursive_types(T)]
pub struct WGuard<T> { pub v: T, pub live: Ghost<bool> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Locked<T> { p: core::marker::PhantomData<T> }
impl<T: Linv> Locked<T> {
  // what the lock had in it
  pub uninterp spec fn of(&self) -> T;
  pub uninterp spec fn excl(&self) -> bool;
  #[verifier::external_body]
  pub fn unwrap(self) -> (r: T) ensures r == self.of() { unimplemented!() }
}
impl<T: Linv> RwLock<T> {
  pub uninterp spec fn init(&self) -> T;
  #[verifier::external_body]
  pub fn new(v: T) -> (r: Self) requires v.linv() ensures r.init() == v { unimplemented!() }
  #[verifier::external_body]
  pub fn acq_write(&self, Tracked(w): Tracked<&mut Sect<T>>) -> (r: WGuard<T>) ensures r.live@, r.v.linv(), final(w).n() == old(w).n() + 1, final(w).got() == r.v, final(w).put() == old(w).put() { unimplemented!() }
  // a guard which is handed out
  #[verifier::external_body]
  pub fn write(&self) -> (r: Locked<T>) ensures r.of().linv() { unimplemented!() }
  #[verifier::external_body]
  pub fn read(&self) -> (r: Locked<T>) ensures r.of().linv() { unimplemented!() }
}
impl<T: Linv> WGuard<T> {
  #[verifier::external_body]
  pub fn release(&mut self, Tracked(w): Tracked<&mut Sect<T>>) requires old(self).live@ ==> old(self).v.linv()
    ensures !final(self).live@, final(self).v == old(self).v, final(w).n() == old(w).n(), final(w).got() == old(w).got(), final(w).put() == if old(self).live@ { old(self).v } else { old(w).put() } { unimplemented!() }
}
// From/Into of a type for itself
pub fn v_same<T>(x: T) -> (r: T) ensures r == x { x }
}}
use lockw::*;
