verus! {
// a source that may be gone: not polled again after its end; l are its contents
pub open spec fn osv<S: SignalVec>(s: Option<S>, l: Seq<S::Item>) -> bool { match s { Some(s) => !s.ended() && s.view() == l, None => true } }
pub open spec fn osvsame<S: SignalVec>(a: Option<S>, b: Option<S>) -> bool { b is Some ==> a is Some && a->0.id() == b->0.id() && a->0.fin() == b->0.fin() && b->0.left() <= a->0.left() }
// it reported a diff, or its end, since
pub open spec fn vmoved<S: SignalVec>(a: Option<S>, b: Option<S>) -> bool { a is Some && (b is None || b->0.left() < a->0.left()) }
// the contents of an optional source after a poll: an ended source is replaced by None
pub open spec fn nview<S: SignalVec>(s0: Option<S>, s1: Option<S>, l: Seq<S::Item>) -> Seq<S::Item> { match (s0, s1) { (_, Some(s)) => s.view(), (Some(s), None) => s.fin(), _ => l } }
pub open spec fn varmed<S: SignalVec>(s: Option<S>, w: int) -> bool { s is Some ==> s->0.armed() == Some(w) }
}
mod pbase { use super::*; verus! {
// a queue of diffs: all valid one after the other / what they make of o
pub open spec fn papp<T>(p: Seq<VecDiff<T>>, o: Seq<T>) -> Seq<T> decreases p.len() { if p.len() == 0 { o } else { p.last().apply(papp(p.drop_last(), o)) } }
pub open spec fn pok<T>(p: Seq<VecDiff<T>>, o: Seq<T>) -> bool decreases p.len() { p.len() == 0 || (pok(p.drop_last(), o) && p.last().ok(papp(p.drop_last(), o))) }
pub broadcast proof fn papp_push<T>(p: Seq<VecDiff<T>>, d: VecDiff<T>, o: Seq<T>) ensures #[trigger] papp(p.push(d), o) == d.apply(papp(p, o)) { assert(p.push(d).drop_last() =~= p); }
pub broadcast proof fn pok_push<T>(p: Seq<VecDiff<T>>, d: VecDiff<T>, o: Seq<T>) ensures #[trigger] pok(p.push(d), o) == (pok(p, o) && d.ok(papp(p, o))) { assert(p.push(d).drop_last() =~= p); }
pub proof fn pop_front<T>(p: Seq<VecDiff<T>>, o: Seq<T>) requires p.len() > 0, pok(p, o)
  ensures p[0].ok(o), pok(p.subrange(1, p.len() as int), p[0].apply(o)), papp(p.subrange(1, p.len() as int), p[0].apply(o)) == papp(p, o) decreases p.len()
{ if p.len() == 1 { assert(p.drop_last() =~= Seq::empty()); assert(p.subrange(1, 1) =~= Seq::empty()); }
  else { let q = p.drop_last(); pop_front(q, o); assert(p.subrange(1, p.len() as int).drop_last() =~= q.subrange(1, q.len() as int)); assert(p.subrange(1, p.len() as int).last() == p.last()); } }
pub broadcast proof fn pq_split<T>(a: VecDiff<T>, p: Seq<VecDiff<T>>, o: Seq<T>) requires #[trigger] pok(seq![a] + p, o) ensures a.ok(o), pok(p, a.apply(o)), papp(p, a.apply(o)) == papp(seq![a] + p, o)
{ let q = seq![a] + p; pop_front(q, o); assert(q.subrange(1, q.len() as int) =~= p); }
pub broadcast proof fn pq_push<T>(a: VecDiff<T>, p: Seq<VecDiff<T>>, d: VecDiff<T>) ensures #[trigger] (seq![a] + p).push(d) == seq![a] + p.push(d) { assert((seq![a] + p).push(d) =~= seq![a] + p.push(d)); }
pub broadcast proof fn p_none<T>(p: Seq<VecDiff<T>>, o: Seq<T>) requires p.len() == 0 ensures #[trigger] papp(p, o) == o, pok(p, o) {}
pub broadcast group basics { pq_split, pq_push, p_none, papp_push, pok_push }
}}
use pbase::{papp, pok};
