// ---- a list of states, each standing for a piece of the output
mod fbase { use super::*; verus! {
pub open spec fn flat<S, T>(f: spec_fn(S) -> Seq<T>, ss: Seq<S>) -> Seq<T> decreases ss.len() { if ss.len() == 0 { Seq::empty() } else { flat(f, ss.drop_last()) + f(ss.last()) } }
// where the piece of state i begins
pub open spec fn off<S, T>(f: spec_fn(S) -> Seq<T>, ss: Seq<S>, i: int) -> int { flat(f, ss.subrange(0, i)).len() as int }

pub proof fn cat<S, T>(f: spec_fn(S) -> Seq<T>, a: Seq<S>, b: Seq<S>) ensures flat(f, a + b) == flat(f, a) + flat(f, b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); assert(flat(f, a) + flat(f, b) =~= flat(f, a)); }
  else { cat(f, a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); assert(flat(f, a + b) =~= flat(f, a) + flat(f, b)); } }
pub proof fn one<S, T>(f: spec_fn(S) -> Seq<T>, x: S) ensures flat(f, seq![x]) == f(x)
{ reveal_with_fuel(flat, 2); assert(seq![x].drop_last() =~= Seq::<S>::empty()); assert(Seq::<T>::empty() + f(x) =~= f(x)); }
// the output around state i
pub proof fn split<S, T>(f: spec_fn(S) -> Seq<T>, ss: Seq<S>, i: int) requires 0 <= i < ss.len()
  ensures flat(f, ss) == flat(f, ss.subrange(0, i)) + f(ss[i]) + flat(f, ss.subrange(i + 1, ss.len() as int)), off(f, ss, i + 1) == off(f, ss, i) + f(ss[i]).len()
{ let (a, b) = (ss.subrange(0, i), ss.subrange(i + 1, ss.len() as int)); one(f, ss[i]); cat(f, a, seq![ss[i]]); cat(f, a + seq![ss[i]], b); assert(a + seq![ss[i]] + b =~= ss); assert(a + seq![ss[i]] =~= ss.subrange(0, i + 1)); }
pub proof fn split2<S, T>(f: spec_fn(S) -> Seq<T>, ss: Seq<S>, i: int) requires 0 <= i <= ss.len()
  ensures flat(f, ss) == flat(f, ss.subrange(0, i)) + flat(f, ss.subrange(i, ss.len() as int))
{ let (a, b) = (ss.subrange(0, i), ss.subrange(i, ss.len() as int)); cat(f, a, b); assert(a + b =~= ss); }
pub broadcast proof fn off_0<S, T>(f: spec_fn(S) -> Seq<T>, ss: Seq<S>) ensures #[trigger] off(f, ss, 0) == 0 { assert(ss.subrange(0, 0) =~= Seq::<S>::empty()); }
pub broadcast proof fn off_n<S, T>(f: spec_fn(S) -> Seq<T>, ss: Seq<S>) ensures #[trigger] off(f, ss, ss.len() as int) == flat(f, ss).len() { assert(ss.subrange(0, ss.len() as int) =~= ss); }
pub broadcast proof fn off_step<S, T>(f: spec_fn(S) -> Seq<T>, ss: Seq<S>, i: int) requires 0 <= i < ss.len()
  ensures #![trigger off(f, ss, i), ss[i]] off(f, ss, i + 1) == off(f, ss, i) + f(ss[i]).len(), off(f, ss, i + 1) <= flat(f, ss).len() { split(f, ss, i); }
pub broadcast proof fn off_le<S, T>(f: spec_fn(S) -> Seq<T>, ss: Seq<S>, i: int) requires 0 <= i <= ss.len() ensures 0 <= #[trigger] off(f, ss, i) <= flat(f, ss).len() { split2(f, ss, i); }
// the offset of a state does not depend on the states behind it
pub proof fn off_ext<S, T>(f: spec_fn(S) -> Seq<T>, a: Seq<S>, b: Seq<S>, i: int) requires 0 <= i <= a.len(), i <= b.len(), forall|j: int| 0 <= j < i ==> a[j] == b[j] ensures off(f, a, i) == off(f, b, i)
{ assert(a.subrange(0, i) =~= b.subrange(0, i)); }
pub broadcast proof fn off_ins<S, T>(f: spec_fn(S) -> Seq<T>, ss: Seq<S>, i: int, x: S) requires 0 <= i <= ss.len() ensures #[trigger] off(f, ss.insert(i, x), i) == off(f, ss, i) { off_ext(f, ss.insert(i, x), ss, i); }
pub broadcast proof fn off_rem<S, T>(f: spec_fn(S) -> Seq<T>, ss: Seq<S>, i: int) requires 0 <= i < ss.len() ensures #[trigger] off(f, ss.remove(i), i) == off(f, ss, i) { off_ext(f, ss.remove(i), ss, i); }
pub broadcast proof fn off_upd<S, T>(f: spec_fn(S) -> Seq<T>, ss: Seq<S>, i: int, x: S) requires 0 <= i < ss.len() ensures #[trigger] off(f, ss.update(i, x), i) == off(f, ss, i) { off_ext(f, ss.update(i, x), ss, i); }

pub broadcast proof fn flat_nil<S, T>(f: spec_fn(S) -> Seq<T>, ss: Seq<S>) requires ss.len() == 0 ensures #[trigger] flat(f, ss) == Seq::<T>::empty() {}
pub broadcast proof fn flat_ins<S, T>(f: spec_fn(S) -> Seq<T>, ss: Seq<S>, i: int, x: S) requires 0 <= i <= ss.len()
  ensures f(x).len() == 0 ==> #[trigger] flat(f, ss.insert(i, x)) == flat(f, ss), f(x).len() == 1 ==> flat(f, ss.insert(i, x)) == flat(f, ss).insert(off(f, ss, i), f(x)[0]), off(f, ss, i) <= flat(f, ss).len()
{ let t = ss.insert(i, x); split2(f, ss, i); split(f, t, i); assert(t.subrange(0, i) =~= ss.subrange(0, i)); assert(t.subrange(i + 1, t.len() as int) =~= ss.subrange(i, ss.len() as int));
  if f(x).len() == 0 { assert(flat(f, t) =~= flat(f, ss)); } if f(x).len() == 1 { assert(flat(f, t) =~= flat(f, ss).insert(off(f, ss, i), f(x)[0])); } }
pub broadcast proof fn flat_rem<S, T>(f: spec_fn(S) -> Seq<T>, ss: Seq<S>, i: int) requires 0 <= i < ss.len()
  ensures f(ss[i]).len() == 0 ==> #[trigger] flat(f, ss.remove(i)) == flat(f, ss), f(ss[i]).len() == 1 ==> flat(f, ss.remove(i)) == flat(f, ss).remove(off(f, ss, i)) && off(f, ss, i) < flat(f, ss).len() && flat(f, ss)[off(f, ss, i)] == f(ss[i])[0]
{ let t = ss.remove(i); split(f, ss, i); split2(f, t, i); assert(t.subrange(0, i) =~= ss.subrange(0, i)); assert(t.subrange(i, t.len() as int) =~= ss.subrange(i + 1, ss.len() as int));
  if f(ss[i]).len() == 0 { assert(flat(f, t) =~= flat(f, ss)); } if f(ss[i]).len() == 1 { assert(flat(f, t) =~= flat(f, ss).remove(off(f, ss, i))); } }
pub broadcast proof fn flat_upd<S, T>(f: spec_fn(S) -> Seq<T>, ss: Seq<S>, i: int, x: S) requires 0 <= i < ss.len()
  ensures #![trigger flat(f, ss.update(i, x))] off(f, ss, i) + f(ss[i]).len() <= flat(f, ss).len(),
    f(x) == f(ss[i]) ==> flat(f, ss.update(i, x)) == flat(f, ss),
    f(x).len() == 1 && f(ss[i]).len() == 1 ==> flat(f, ss.update(i, x)) == flat(f, ss).update(off(f, ss, i), f(x)[0]),
    f(x).len() == 1 && f(ss[i]).len() == 0 ==> flat(f, ss.update(i, x)) == flat(f, ss).insert(off(f, ss, i), f(x)[0]),
    f(x).len() == 0 && f(ss[i]).len() == 1 ==> flat(f, ss.update(i, x)) == flat(f, ss).remove(off(f, ss, i)),
    f(x).len() == 0 && f(ss[i]).len() == 0 ==> flat(f, ss.update(i, x)) == flat(f, ss),
{ let t = ss.update(i, x); split(f, ss, i); split(f, t, i); assert(t.subrange(0, i) =~= ss.subrange(0, i)); assert(t.subrange(i + 1, t.len() as int) =~= ss.subrange(i + 1, ss.len() as int)); let (a, b, o) = (flat(f, t), flat(f, ss), off(f, ss, i));
  if f(x).len() == 1 && f(ss[i]).len() == 1 { assert(a =~= b.update(o, f(x)[0])); }
  if f(x).len() == 1 && f(ss[i]).len() == 0 { assert(a =~= b.insert(o, f(x)[0])); }
  if f(x).len() == 0 && f(ss[i]).len() == 1 { assert(a =~= b.remove(o)); }
  if f(x).len() == 0 && f(ss[i]).len() == 0 { assert(a =~= b); } }
pub broadcast proof fn flat_push<S, T>(f: spec_fn(S) -> Seq<T>, ss: Seq<S>, x: S)
  ensures f(x).len() == 0 ==> #[trigger] flat(f, ss.push(x)) == flat(f, ss), f(x).len() == 1 ==> flat(f, ss.push(x)) == flat(f, ss).push(f(x)[0])
{ assert(ss.push(x).drop_last() =~= ss); if f(x).len() == 0 { assert(flat(f, ss.push(x)) =~= flat(f, ss)); } if f(x).len() == 1 { assert(flat(f, ss.push(x)) =~= flat(f, ss).push(f(x)[0])); } }
pub broadcast proof fn flat_pop<S, T>(f: spec_fn(S) -> Seq<T>, ss: Seq<S>) requires ss.len() > 0
  ensures f(ss.last()).len() == 0 ==> #[trigger] flat(f, ss.subrange(0, ss.len() - 1)) == flat(f, ss), f(ss.last()).len() == 1 ==> flat(f, ss.subrange(0, ss.len() - 1)) == flat(f, ss).subrange(0, flat(f, ss).len() - 1) && flat(f, ss).len() > 0
{ assert(ss.subrange(0, ss.len() - 1) =~= ss.drop_last()); let t = ss.drop_last(); if f(ss.last()).len() == 0 { assert(flat(f, t) =~= flat(f, ss)); } if f(ss.last()).len() == 1 { assert(flat(f, t) =~= flat(f, ss).subrange(0, flat(f, ss).len() - 1)); } }
pub broadcast group basics { off_0, off_n, off_step, off_le, off_ins, off_rem, off_upd, flat_nil, flat_ins, flat_rem, flat_upd, flat_push, flat_pop }
}}
use fbase::{flat, off};
