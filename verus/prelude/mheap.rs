mod mheap { use super::*; verus! {
// ---- Mutable: shared cells.  `Heap` holds the value of every cell; a handle is known by its `id`.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub tracked struct Heap<T> { p: core::marker::PhantomData<T> }
impl<T> Heap<T> { pub uninterp spec fn m(&self) -> Map<int, T>; }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Mutable<T> { p: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ReadOnlyMutable<T> { p: core::marker::PhantomData<T> }
impl<T> ReadOnlyMutable<T> { pub uninterp spec fn id(&self) -> int; }
impl<T> Mutable<T> {
  pub uninterp spec fn id(&self) -> int;
  #[verifier::external_body]
  pub fn new(v: T, Tracked(h): Tracked<&mut Heap<T>>) -> (r: Mutable<T>)
    ensures !old(h).m().dom().contains(r.id()), final(h).m() == old(h).m().insert(r.id(), v) { unimplemented!() }
  #[verifier::external_body]
  pub fn read_only(&self) -> (r: ReadOnlyMutable<T>) ensures r.id() == self.id() { unimplemented!() }
  #[verifier::external_body]
  pub fn vclone(&self) -> (r: Mutable<T>) ensures r.id() == self.id() { unimplemented!() }
  #[verifier::external_body]
  pub fn set(&self, v: T, Tracked(h): Tracked<&mut Heap<T>>)
    requires old(h).m().dom().contains(self.id()) ensures final(h).m() == old(h).m().insert(self.id(), v) { unimplemented!() }
  #[verifier::external_body]
  pub fn v_get(&self, Tracked(h): Tracked<&Heap<T>>) -> (r: T)
    requires h.m().dom().contains(self.id()) ensures r == h.m()[self.id()] { unimplemented!() }
}
}}
use mheap::{Heap, Mutable, ReadOnlyMutable};
