verus! {
// ---- == is symmetric (assumed, as std asks of every PartialEq)
mod ceq { use vstd::prelude::*; verus! { pub broadcast axiom fn eq_symm<T: PartialEq>(a: T, b: T) requires <T as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == vstd::std_specs::cmp::PartialEqSpec::eq_spec(&b, &a); } }
pub use ceq::eq_symm;
global size_of usize == 8;

// ---- core::task
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExContext<'a>(core::task::Context<'a>);
#[verifier::reject_recursive_types(T)]
#[verifier::external_type_specification]
pub struct ExPoll<T>(core::task::Poll<T>);
// The task behind a Context.
pub uninterp spec fn wk(cx: Context) -> int;

// ---- core::pin::Pin, restricted to its safe use: Pin<&mut T> is a &mut T which is only replaced through `set`.
pub struct Pin<P> { pub pointer: P }
impl<'a, T> Pin<&'a mut T> {
  pub fn as_mut<'b>(&'b mut self) -> (r: Pin<&'b mut T>)
     ensures *r.pointer == *old(self).pointer, *final(r.pointer) == *final(self).pointer, *final(final(self).pointer) == *final(old(self).pointer)
  { Pin { pointer: &mut *self.pointer } }
  pub fn set(&mut self, v: T)
    ensures *final(self).pointer == v, *final(final(self).pointer) == *final(old(self).pointer)
  { *self.pointer = v; }
  pub fn new(p: &'a mut T) -> (r: Pin<&'a mut T>)
    ensures *r.pointer == *old(p), *final(r.pointer) == *final(p)
  { Pin { pointer: p } }
  pub fn new_unchecked(p: &'a mut T) -> (r: Pin<&'a mut T>)
    ensures *r.pointer == *old(p), *final(r.pointer) == *final(p)
  { Pin { pointer: p } }
}
impl<'a, T> Pin<&'a mut Option<T>> {
  pub fn as_pin_mut(self) -> (r: Option<Pin<&'a mut T>>)
     ensures (match *old(self.pointer) { None => r is None && *final(self.pointer) == None::<T>, Some(x) => r is Some && *r->0.pointer == x && *final(self.pointer) == Some(*final(r->0.pointer)) })
  { match self.pointer { None => None, Some(x) => Some(Pin { pointer: x }) } }
  pub fn is_none(&self) -> (r: bool) ensures r == (*old(self.pointer) is None) { match &*self.pointer { None => true, Some(_) => false } }
  pub fn is_some(&self) -> (r: bool) ensures r == (*old(self.pointer) is Some) { match &*self.pointer { None => false, Some(_) => true } }
}

// Pin<Box<T>>: as Pin<&mut T>
// a report; some measure went down
pub open spec fn gives<T>(r: Poll<Option<T>>) -> bool { match r { Poll::Ready(Some(_)) => true, _ => false } }
pub open spec fn spent(a: nat, b: nat) -> bool { b < a }
// nothing went up / and something went down
pub open spec fn below(a: Seq<nat>, b: Seq<nat>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] <= a[i] }
pub open spec fn waned(a: Seq<nat>, b: Seq<nat>) -> bool { below(a, b) && exists|i: int| 0 <= i < b.len() && #[trigger] b[i] < a[i] }
pub proof fn wane(a: Seq<nat>, s: Seq<nat>, t: Seq<nat>, n: int)
  requires s.len() == t.len(), 0 <= n < s.len(), forall|j: int| 0 <= j < s.len() && j != n ==> #[trigger] t[j] == s[j], t[n] <= s[n]
  ensures below(a, s) ==> below(a, t), waned(a, s) ==> waned(a, t), below(a, s) && t[n] < s[n] ==> waned(a, t)
{ if below(a, s) { assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] <= a[i] by { assert(s[i] <= a[i]); }
    if waned(a, s) { let k = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] < a[i]; assert(t[k] <= s[k]); assert(t[k] < a[k]); }
    if t[n] < s[n] { assert(s[n] <= a[n]); assert(t[n] < a[n]); } } }
pub struct PBox<T> { pub b: T }
impl<T> PBox<T> {
  pub fn pin(v: T) -> (r: PBox<T>) ensures r.b == v { PBox { b: v } }
  pub fn as_mut<'a>(&'a mut self) -> (r: Pin<&'a mut T>) ensures *r.pointer == old(self).b, final(self).b == *final(r.pointer) { Pin { pointer: &mut self.b } }
}

// ---- panics: reaching one is an obligation
#[verifier::external_body]
pub fn v_unreachable() -> ! requires false { panic!() }
// dropping early: nothing more than dropping at the end of the scope
pub fn v_drop<T>(x: T) {}
pub fn replace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { let mut b = b; core::mem::swap(a, &mut b); b }
pub fn swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { core::mem::swap(a, b) }
pub trait VTake: Sized { spec fn is_dflt(&self) -> bool; fn v_take_(&mut self) -> (r: Self) ensures r == *old(self), final(self).is_dflt(); }
impl<T> VTake for Option<T> { open spec fn is_dflt(&self) -> bool { *self is None } fn v_take_(&mut self) -> (r: Self) { let mut b = None; core::mem::swap(self, &mut b); b } }
impl<T> VTake for Vec<T> { open spec fn is_dflt(&self) -> bool { self@.len() == 0 } fn v_take_(&mut self) -> (r: Self) { let mut b = Vec::new(); core::mem::swap(self, &mut b); b } }
impl VTake for bool { open spec fn is_dflt(&self) -> bool { !*self } fn v_take_(&mut self) -> (r: Self) { let mut b = false; core::mem::swap(self, &mut b); b } }
impl VTake for usize { open spec fn is_dflt(&self) -> bool { *self == 0 } fn v_take_(&mut self) -> (r: Self) { let mut b = 0; core::mem::swap(self, &mut b); b } }
pub fn v_mem_take<T: VTake>(a: &mut T) -> (r: T) ensures r == *old(a), final(a).is_dflt() { a.v_take_() }
pub fn v_assert(b: bool) requires b {}
// slicing [lo..hi] panics unless lo <= hi <= len
pub fn v_slice_bounds(lo: usize, hi: usize, len: usize) requires lo <= hi <= len {}
pub fn v_skip(lo: usize, hi: usize, n: usize) -> (r: usize) requires lo <= hi ensures lo <= r <= hi, r == if lo + n <= hi { lo + n } else { hi as int } { if n <= hi - lo { lo + n } else { hi } }

// ---- Clone: a clone equals the original (assumed for every element type)
pub trait VClone: Sized { fn vclone(&self) -> (r: Self) ensures r == *self; }
impl<T: Clone> VClone for T { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }

// ---- callbacks: FnMut parameters, with the log of their calls and the relation between argument and result
pub trait FnRef<A, B>: Sized {
   spec fn rel(&self) -> spec_fn(A, B) -> bool;
   spec fn calls(&self) -> Seq<A>;
   fn call_cb(&mut self, a: &A) -> (b: B)
     ensures old(self).rel()(*a, b), final(self).calls() == old(self).calls().push(*a), final(self).rel() == old(self).rel();
}
pub trait FnVal<A, B>: Sized {
   spec fn rel(&self) -> spec_fn(A, B) -> bool;
   spec fn calls(&self) -> Seq<A>;
   fn call_cb(&mut self, a: A) -> (b: B)
     ensures old(self).rel()(a, b), final(self).calls() == old(self).calls().push(a), final(self).rel() == old(self).rel();
}
pub trait FnMutRef<A, B>: Sized {
   spec fn rel(&self) -> spec_fn(A, B, A) -> bool;
   fn call_cb(&mut self, a: &mut A) -> (b: B)
     ensures old(self).rel()(*old(a), b, *final(a)), final(self).rel() == old(self).rel();
}

// ---- owning iteration (Vec::into_iter and friends)
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct VIter<A> { inner: std::vec::IntoIter<A> }
impl<A> VIter<A> {
  pub uninterp spec fn all(&self) -> Seq<A>;
  pub uninterp spec fn pos(&self) -> int;
  pub uninterp spec fn done(&self) -> Seq<A>;
  #[verifier::external_body]
  pub fn has_next(&self) -> (r: bool)
    ensures r == (self.pos() < self.all().len()), !r ==> self.done() == self.all(), 0 <= self.pos() <= self.all().len()
  { unimplemented!() }
  #[verifier::external_body]
  pub fn next_some(&mut self) -> (r: A)
    requires old(self).pos() < old(self).all().len()
    ensures final(self).all() == old(self).all(), 0 <= old(self).pos(),
      r == old(self).all()[old(self).pos()] && final(self).pos() == old(self).pos() + 1 && final(self).done() == old(self).done().push(r)
  { unimplemented!() }
}
pub trait VInto { type Item; spec fn vseq(&self) -> Seq<Self::Item>; fn v_into(self) -> (r: VIter<Self::Item>) ensures r.all() == self.vseq(), r.pos() == 0, r.done() == Seq::<Self::Item>::empty(); }
impl<A> VInto for Vec<A> { type Item = A; open spec fn vseq(&self) -> Seq<A> { self@ }
 #[verifier::external_body]
 fn v_into(self) -> VIter<A> { unimplemented!() } }
impl<A> VInto for VIter<A> { type Item = A; open spec fn vseq(&self) -> Seq<A> { self.all().subrange(self.pos(), self.all().len() as int) }
 #[verifier::external_body]
 fn v_into(self) -> VIter<A> { unimplemented!() } }
// Vec::drain(..), run to its end
pub trait VDrain<A> { fn v_drain(&mut self) -> (r: VIter<A>); }
impl<A> VDrain<A> for Vec<A> { #[verifier::external_body] fn v_drain(&mut self) -> (r: VIter<A>) ensures r.all() == old(self)@, r.pos() == 0, r.done() == Seq::<A>::empty(), final(self)@ == Seq::<A>::empty() { unimplemented!() } }
pub trait VIntoRev { type Item; fn v_into_rev(self) -> (r: VIter<Self::Item>); }
impl<A> VIntoRev for Vec<A> { type Item = A; #[verifier::external_body] fn v_into_rev(self) -> (r: VIter<A>) ensures r.all() == self@.reverse(), r.pos() == 0, r.done() == Seq::<A>::empty() { unimplemented!() } }
}
