verus! {
// ---- the Signal contract.  `log`: every value reported so far.  `armed`: the task which is registered to be woken.
// `id` names the signal (it never changes while the signal is polled).
pub trait Signal {
    type Item;
    spec fn log(&self) -> Seq<Self::Item>;
    spec fn ended(&self) -> bool;
    spec fn armed(&self) -> Option<int>;
    spec fn id(&self) -> int;
    // the complete list of values, if it ever ends (a constant of the signal)
    spec fn all(&self) -> Seq<Self::Item>;
    // what is known about every value it reports
    spec fn fresh(v: Self::Item) -> bool;
    // how many values it has yet to report (a prophecy): a source does not report for ever
    spec fn left(&self) -> nat;
}
pub open spec fn sig_post<S: Signal>(o: S, n: S, w: int, r: Poll<Option<S::Item>>) -> bool {
   n.id() == o.id() && n.all() == o.all() && n.left() <= o.left() && (is_val(r) ==> n.left() < o.left()) && match r {
     Poll::Ready(Some(v)) => n.log() == o.log().push(v) && !n.ended() && S::fresh(v),
     Poll::Ready(None) => n.log() == o.log() && n.ended() && o.log().len() > 0 && n.log() == n.all(),
     Poll::Pending => n.log() == o.log() && !n.ended() && o.log().len() > 0 && n.armed() == Some(w),
   }
}
impl<'a, S: Signal> Pin<&'a mut S> {
  #[verifier::external_body]
  pub fn poll_change(self, cx: &Context) -> (r: Poll<Option<S::Item>>)
    requires !(*old(self.pointer)).ended()
    ensures sig_post(*old(self.pointer), *final(self.pointer), wk(*cx), r)
  { unimplemented!() }
}
pub trait FnUnit<B>: Sized {
   spec fn rel(&self) -> spec_fn(B) -> bool;
   spec fn ncalls(&self) -> int;
   fn call_cb(&mut self) -> (b: B)
     ensures old(self).rel()(b), final(self).ncalls() == old(self).ncalls() + 1, final(self).rel() == old(self).rel();
}
// ---- Stream: like a signal, but nothing is promised about the first poll
pub trait Stream {
    type Item;
    spec fn log(&self) -> Seq<Self::Item>;
    spec fn ended(&self) -> bool;
    spec fn armed(&self) -> Option<int>;
    spec fn id(&self) -> int;
    spec fn all(&self) -> Seq<Self::Item>;
    spec fn left(&self) -> nat;
}
pub open spec fn str_post<S: Stream>(o: S, n: S, w: int, r: Poll<Option<S::Item>>) -> bool {
   n.id() == o.id() && n.all() == o.all() && n.left() <= o.left() && (is_val(r) ==> n.left() < o.left()) && match r {
     Poll::Ready(Some(v)) => n.log() == o.log().push(v) && !n.ended(),
     Poll::Ready(None) => n.log() == o.log() && n.ended() && n.log() == n.all(),
     Poll::Pending => n.log() == o.log() && !n.ended() && n.armed() == Some(w),
   }
}
impl<'a, S: Stream> Pin<&'a mut S> {
  #[verifier::external_body]
  pub fn poll_next(self, cx: &Context) -> (r: Poll<Option<S::Item>>)
    requires !(*old(self.pointer)).ended()
    ensures str_post(*old(self.pointer), *final(self.pointer), wk(*cx), r)
  { unimplemented!() }
}
// ---- Future.  `res`: the value it resolves to (if it ever does).
pub mod fut { use super::*;
pub trait Future {
    type Output;
    spec fn done(&self) -> bool;
    spec fn res(&self) -> Self::Output;
    spec fn armed(&self) -> Option<int>;
    spec fn id(&self) -> int;
}
// the future with this id is at some time polled to its end (a constant)
pub uninterp spec fn completes(id: int) -> bool;
}
pub use fut::{Future, completes};
pub open spec fn fut_post<S: Future>(o: S, n: S, w: int, r: Poll<S::Output>) -> bool {
   n.id() == o.id() && n.res() == o.res() && match r {
     Poll::Ready(v) => n.done() && v == o.res() && completes(o.id()),
     Poll::Pending => !n.done() && n.armed() == Some(w),
   }
}
impl<'a, S: Future> Pin<&'a mut S> {
  #[verifier::external_body]
  pub fn poll(self, cx: &Context) -> (r: Poll<S::Output>)
    requires !(*old(self.pointer)).done()
    ensures fut_post(*old(self.pointer), *final(self.pointer), wk(*cx), r)
  { unimplemented!() }
}
// what a poll result adds to the list of reported values
pub open spec fn snoc<T>(o: Seq<T>, r: Poll<Option<T>>) -> Seq<T> { match r { Poll::Ready(Some(x)) => o.push(x), _ => o } }
// the list of values of an optional source, `l` before the poll, after it: an ended source is replaced by None
pub open spec fn nlog<S: Signal>(s0: Option<S>, s1: Option<S>, l: Seq<S::Item>) -> Seq<S::Item> { match (s0, s1) { (_, Some(s)) => s.log(), (Some(s), None) => s.all(), _ => l } }
pub open spec fn nslog<S: Stream>(s0: Option<S>, s1: Option<S>, l: Seq<S::Item>) -> Seq<S::Item> { match (s0, s1) { (_, Some(s)) => s.log(), (Some(s), None) => s.all(), _ => l } }
pub open spec fn prefix<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> a[i] == b[i] }
// an optional source: not polled again after its end; it stays the same one
pub open spec fn osig<S: Signal>(s: Option<S>, l: Seq<S::Item>) -> bool { match s { Some(s) => !s.ended() && s.log() == l, None => true } }
pub open spec fn ostr<S: Stream>(s: Option<S>, l: Seq<S::Item>) -> bool { match s { Some(s) => !s.ended() && s.log() == l, None => true } }
pub open spec fn osame<S: Signal>(a: Option<S>, b: Option<S>) -> bool { b is Some ==> a is Some && a->0.id() == b->0.id() && a->0.all() == b->0.all() && b->0.left() <= a->0.left() }
pub open spec fn oleft<S: Signal>(s: Option<S>) -> nat { match s { Some(s) => s.left() + 1, None => 0 } }
pub open spec fn bleft<S: Signal>(s: Option<PBox<S>>) -> nat { match s { Some(s) => s.b.left() + 1, None => 0 } }
pub open spec fn ossame<S: Stream>(a: Option<S>, b: Option<S>) -> bool { b is Some ==> a is Some && a->0.id() == b->0.id() && a->0.all() == b->0.all() && b->0.left() <= a->0.left() }
pub open spec fn sleft<S: Stream>(s: Option<S>) -> nat { match s { Some(s) => s.left() + 1, None => 0 } }
// how a transformer that is alive exactly as long as its source goes on
pub open spec fn goes_on<S: Signal, T>(n: S, w: int, r: Poll<Option<T>>) -> bool { match r { Poll::Ready(Some(_)) => !n.ended(), Poll::Ready(None) => n.ended(), Poll::Pending => !n.ended() && n.armed() == Some(w) } }
pub open spec fn is_val<T>(r: Poll<Option<T>>) -> bool { match r { Poll::Ready(Some(_)) => true, _ => false } }
pub open spec fn val<T>(r: Poll<Option<T>>) -> T { match r { Poll::Ready(Some(x)) => x, _ => arbitrary() } }
pub open spec fn lastopt<T>(o: Seq<T>) -> Option<T> { if o.len() == 0 { None } else { Some(o.last()) } }
// element-wise image
pub open spec fn image<X, A>(e: spec_fn(X, A) -> bool, s: Seq<X>, o: Seq<A>) -> bool { s.len() == o.len() && forall|i: int| 0 <= i < s.len() ==> e(#[trigger] s[i], o[i]) }
}
mod sbase { use super::*; verus! {
pub broadcast proof fn push_last<A>(a: Seq<A>, x: A) ensures (#[trigger] a.push(x)).drop_last() == a { assert(a.push(x).drop_last() =~= a); }
pub broadcast group basics { push_last }
}}
