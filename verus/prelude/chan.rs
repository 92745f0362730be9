verus! {
// ---- futures_channel::mpsc::unbounded.  `log`: the messages the channel has taken.  `gone`: the receiver has been dropped
// (at some time; a constant).  Each sender of the library is owned by one state and never cloned.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Sender<T> { t: core::marker::PhantomData<T> }
impl<T> Sender<T> {
  #[verifier::external_body]
  pub fn unbounded_send(&mut self, m: T) -> (r: Result<(), ()>)
    ensures final(self).id() == old(self).id(), old(self).connected() ==> r is Ok, r is Ok ==> final(self).log() == old(self).log().push(m), r is Err ==> final(self).log() == old(self).log() && gone(old(self).id())
  { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Receiver<T> { t: core::marker::PhantomData<T> }
impl<T> Receiver<T> {
  pub uninterp spec fn id(&self) -> int;
  // what it has delivered; whether it has reported the end (all senders dropped and everything delivered)
  pub uninterp spec fn got(&self) -> Seq<T>;
  pub uninterp spec fn ended(&self) -> bool;
  pub uninterp spec fn armed(&self) -> Option<int>;
  #[verifier::external_body]
  pub fn poll_next_unpin(&mut self, cx: &Context) -> (r: Poll<Option<T>>)
    requires !old(self).ended()
    ensures final(self).id() == old(self).id(), match r { Poll::Ready(Some(m)) => final(self).got() == old(self).got().push(m) && !final(self).ended(), Poll::Ready(None) => final(self).got() == old(self).got() && final(self).ended(), Poll::Pending => final(self).got() == old(self).got() && !final(self).ended() && final(self).armed() == Some(wk(*cx)) }
  { unimplemented!() }
}
}
mod cbase { use super::*; verus! {
pub uninterp spec fn gone(id: int) -> bool;
impl<T> Sender<T> {
  pub uninterp spec fn log(&self) -> Seq<T>;
  pub uninterp spec fn id(&self) -> int;
  // the receiver is known to be alive
  pub uninterp spec fn connected(&self) -> bool;
}
}}
use cbase::gone;
mod mpsc { use super::*; verus! {
#[verifier::external_body]
pub fn unbounded<T>() -> (r: (Sender<T>, Receiver<T>)) ensures r.0.id() == r.1.id(), r.0.connected(), r.0.log() == Seq::<T>::empty(), r.1.got() == Seq::<T>::empty(), !r.1.ended() { unimplemented!() }
}}
