mod aptr { use super::*; verus! {
// ---- Raw boxes and one AtomicPtr cell.  `heap` are the raw boxes this thread owns; `cell` is what the AtomicPtr owns.
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub tracked struct Mem<A> { p: core::marker::PhantomData<A> }
impl<A> Mem<A> { pub uninterp spec fn heap(&self) -> Map<int, A>; pub uninterp spec fn cell(&self) -> Option<A>; pub uninterp spec fn was(&self) -> Option<A>; }
#[derive(PartialEq, Eq, Structural)]
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct Ptr<A> { p: core::marker::PhantomData<A> }
impl<A> Copy for Ptr<A> {}
impl<A> Clone for Ptr<A> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<A> Ptr<A> { pub uninterp spec fn at(&self) -> int;
  #[verifier::external_body]
  pub fn is_null(&self) -> (r: bool) ensures r == (self.at() == 0) { unimplemented!() } }
#[verifier::external_body]
pub fn null_mut<A>() -> (r: Ptr<A>) ensures r.at() == 0 { unimplemented!() }
pub struct RBox { }
impl RBox {
  #[verifier::external_body]
  pub fn into_raw<A>(b: Box<A>, Tracked(m): Tracked<&mut Mem<A>>) -> (r: Ptr<A>) ensures r.at() != 0, !old(m).heap().dom().contains(r.at()), final(m).heap() == old(m).heap().insert(r.at(), *b), final(m).cell() == old(m).cell(), final(m).was() == old(m).was() { unimplemented!() }
  // only a pointer which came from into_raw and was not taken back
  #[verifier::external_body]
  pub fn from_raw<A>(p: Ptr<A>, Tracked(m): Tracked<&mut Mem<A>>) -> (r: Box<A>) requires old(m).heap().dom().contains(p.at()) ensures *r == old(m).heap()[p.at()], final(m).heap() == old(m).heap().remove(p.at()), final(m).cell() == old(m).cell(), final(m).was() == old(m).was() { unimplemented!() }
}
pub open spec fn held<A>(h: Map<int, A>, p: int) -> Option<A> { if p == 0 { None } else { Some(h[p]) } }
pub open spec fn own<A>(h: Map<int, A>, p: int) -> bool { p == 0 || h.dom().contains(p) }
pub open spec fn less<A>(h: Map<int, A>, p: int) -> Map<int, A> { if p == 0 { h } else { h.remove(p) } }
pub open spec fn gets<A>(h: Map<int, A>, p: int, c: Option<A>, h2: Map<int, A>) -> bool { match c { None => p == 0 && h2 == h, Some(v) => p != 0 && !h.dom().contains(p) && h2 == h.insert(p, v) } }
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct AtomicPtr<A> { p: core::marker::PhantomData<A> }
impl<A> AtomicPtr<A> {
  pub uninterp spec fn init(&self) -> Option<A>;
  // the cell takes the box over
  #[verifier::external_body]
  pub fn new(p: Ptr<A>, Tracked(m): Tracked<&mut Mem<A>>) -> (r: Self) requires own(old(m).heap(), p.at()) ensures r.init() == held(old(m).heap(), p.at()), final(m).heap() == less(old(m).heap(), p.at()), final(m).cell() == old(m).cell(), final(m).was() == old(m).was() { unimplemented!() }
  // `was`: what the cell held at that moment (other threads may have changed it before)
  #[verifier::external_body]
  pub fn swap(&self, p: Ptr<A>, o: Ordering, Tracked(m): Tracked<&mut Mem<A>>) -> (r: Ptr<A>)
    requires own(old(m).heap(), p.at()), o == Ordering::AcqRel || o == Ordering::SeqCst
    ensures gets(less(old(m).heap(), p.at()), r.at(), final(m).was(), final(m).heap()), final(m).cell() == held(old(m).heap(), p.at()) { unimplemented!() }
  // only where the cell is given up (Drop): what it owns passes to the thread
  #[verifier::external_body]
  pub fn load(&self, o: Ordering, Tracked(m): Tracked<&mut Mem<A>>) -> (r: Ptr<A>)
    requires o == Ordering::Acquire || o == Ordering::SeqCst
    ensures gets(old(m).heap(), r.at(), old(m).cell(), final(m).heap()), final(m).cell() is None { unimplemented!() }
  #[verifier::external_body]
  pub fn get_mut(&mut self, Tracked(m): Tracked<&mut Mem<A>>) -> (r: &Ptr<A>)
    ensures gets(old(m).heap(), r.at(), old(m).cell(), final(m).heap()), final(m).cell() is None { unimplemented!() }
}
}}
use aptr::*;
