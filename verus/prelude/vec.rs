verus! {
// The longest list the library ever sees (a Vec of non-zero sized elements cannot be longer than isize::MAX bytes).
pub const MAXN: usize = 0x0fff_ffff_ffff_ffff;
// ---- the SignalVec contract.  `view`: the contents everything reported so far adds up to.  `entered`: every value that
// entered it.  `last`: the diff it reported last.  `armed`: the task which is registered to be woken.
pub trait SignalVec {
    type Item;
    spec fn view(&self) -> Seq<Self::Item>;
    spec fn entered(&self) -> Seq<Self::Item>;
    spec fn last(&self) -> VecDiff<Self::Item>;
    spec fn ended(&self) -> bool;
    spec fn armed(&self) -> Option<int>;
    spec fn id(&self) -> int;
    // the contents it ends with, if it ever ends (a constant)
    spec fn fin(&self) -> Seq<Self::Item>;
    // how many diffs it has yet to report (a prophecy): a source does not report for ever
    spec fn left(&self) -> nat;
}
pub open spec fn vec_post<S: SignalVec>(o: S, n: S, w: int, r: Poll<Option<VecDiff<S::Item>>>) -> bool {
   n.id() == o.id() && n.fin() == o.fin() && n.left() <= o.left() && (match r { Poll::Ready(Some(_)) => n.left() < o.left(), _ => true }) && match r {
     Poll::Ready(Some(d)) => d.ok(o.view()) && n.view() == d.apply(o.view()) && n.entered() == d.enter(o.entered()) && n.last() == d && !n.ended() && n.view().len() <= MAXN,
     Poll::Ready(None) => n.ended() && n.view() == n.fin() && n.view() == o.view() && n.entered() == o.entered(),
     Poll::Pending => !n.ended() && n.view() == o.view() && n.entered() == o.entered() && n.armed() == Some(w),
   }
}
impl<'a, S: SignalVec> Pin<&'a mut S> {
  #[verifier::external_body]
  pub fn poll_vec_change(self, cx: &Context) -> (r: Poll<Option<VecDiff<S::Item>>>)
    requires !(*old(self.pointer)).ended()
    ensures vec_post(*old(self.pointer), *final(self.pointer), wk(*cx), r)
  { unimplemented!() }
}
pub open spec fn vleft<S: SignalVec>(s: Option<S>) -> nat { match s { Some(s) => s.left() + 1, None => 0 } }
pub open spec fn vbleft<S: SignalVec>(s: Option<PBox<S>>) -> nat { match s { Some(s) => s.b.left() + 1, None => 0 } }
// the contents after a poll
pub open spec fn vsnoc<T>(o: Seq<T>, r: Poll<Option<VecDiff<T>>>) -> Seq<T> { match r { Poll::Ready(Some(d)) => d.apply(o), _ => o } }
}
mod vbase { use super::*; verus! {
impl<A> VecDiff<A> {
  // valid for the contents s
  pub open spec fn ok(self, s: Seq<A>) -> bool {
    match self {
      VecDiff::Replace{values} => true,
      VecDiff::InsertAt{index, value} => index <= s.len(),
      VecDiff::UpdateAt{index, value} => index < s.len(),
      VecDiff::RemoveAt{index} => index < s.len(),
      VecDiff::Move{old_index, new_index} => old_index < s.len() && new_index < s.len(),
      VecDiff::Push{value} => true,
      VecDiff::Pop{} => s.len() > 0,
      VecDiff::Clear{} => true,
    }
  }
  // the one list edit it stands for
  pub open spec fn apply(self, s: Seq<A>) -> Seq<A> {
    match self {
      VecDiff::Replace{values} => values@,
      VecDiff::InsertAt{index, value} => s.insert(index as int, value),
      VecDiff::UpdateAt{index, value} => s.update(index as int, value),
      VecDiff::RemoveAt{index} => s.remove(index as int),
      VecDiff::Move{old_index, new_index} => s.remove(old_index as int).insert(new_index as int, s[old_index as int]),
      VecDiff::Push{value} => s.push(value),
      VecDiff::Pop{} => s.subrange(0, s.len() - 1),
      VecDiff::Clear{} => Seq::empty(),
    }
  }
  // the values it brings in, appended to the log e
  pub open spec fn enter(self, e: Seq<A>) -> Seq<A> {
    match self {
      VecDiff::Replace{values} => e + values@,
      VecDiff::InsertAt{index, value} => e.push(value),
      VecDiff::UpdateAt{index, value} => e.push(value),
      VecDiff::Push{value} => e.push(value),
      _ => e,
    }
  }
}
}}
mod base { use super::*; verus! {
pub broadcast proof fn add_push<A>(a: Seq<A>, b: Seq<A>, x: A) ensures #[trigger] (a + b).push(x) == a + b.push(x) { assert((a + b).push(x) =~= a + b.push(x)); }
pub broadcast proof fn add_nil<A>(a: Seq<A>) ensures #[trigger] (a + Seq::<A>::empty()) == a { assert(a + Seq::<A>::empty() =~= a); }
pub broadcast group basics { add_push, add_nil }
}}
