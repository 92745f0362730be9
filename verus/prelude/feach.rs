// ---- futures_util::stream::ForEach: a future; it hands every item of `st` to `f`, one at a time, and waits for the returned future (assumed)
mod stream { use super::*; verus! {
#[verifier::reject_recursive_types(St)]
#[verifier::reject_recursive_types(Fut)]
#[verifier::reject_recursive_types(F)]
pub struct ForEach<St, Fut, F> { pub st: St, pub f: F, pub fut: Option<Fut> }
impl<St, Fut, F> Future for ForEach<St, Fut, F> { type Output = (); uninterp spec fn done(&self) -> bool; uninterp spec fn res(&self) -> (); uninterp spec fn armed(&self) -> Option<int>; uninterp spec fn id(&self) -> int; }
pub trait VForEach: Sized { fn for_each<Fut, F>(self, f: F) -> (r: ForEach<Self, Fut, F>) ensures r.st == self, r.f == f, r.fut is None, !r.done(); }
impl<T> VForEach for T { #[verifier::external_body] fn for_each<Fut, F>(self, f: F) -> (r: ForEach<Self, Fut, F>) { unimplemented!() } }
}}
use stream::VForEach;
