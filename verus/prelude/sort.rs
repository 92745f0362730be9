// ---- comparison functions, binary search and sorting
mod sobase { use super::*; verus! {
use core::cmp::Ordering;
// a consistent comparison: the callback computes a total preorder
pub open spec fn le<A>(ord: spec_fn(A, A) -> Ordering, a: A, b: A) -> bool { !(ord(a, b) is Greater) }
pub open spec fn preorder<A>(ord: spec_fn(A, A) -> Ordering) -> bool {
   (forall|a: A, b: A| #![trigger ord(a, b)] (ord(a, b) is Less <==> ord(b, a) is Greater)) && (forall|a: A| #![trigger ord(a, a)] ord(a, a) is Equal)
   && (forall|a: A, b: A, c: A| #![trigger ord(a, b), ord(b, c)] le(ord, a, b) && le(ord, b, c) ==> le(ord, a, c) && ((ord(a, b) is Less || ord(b, c) is Less) ==> ord(a, c) is Less)) }
pub open spec fn ucmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub open spec fn total(m: Seq<Vec<Ordering>>, n: int) -> bool {
  m.len() == n && (forall|i: int| 0 <= i < n ==> (#[trigger] m[i])@.len() == n)
  && (forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> ((#[trigger] m[i]@[j]) is Less <==> m[j]@[i] is Greater))
  && (forall|i: int, j: int, k: int| 0 <= i < n && 0 <= j < n && 0 <= k < n && !((#[trigger] m[i]@[j]) is Greater) && !((#[trigger] m[j]@[k]) is Greater) ==> !(m[i]@[k] is Greater)) }
// p: where the elements come from
pub open spec fn perm_of(p: Seq<int>, n: int) -> bool { p.len() == n && (forall|k: int| 0 <= k < n ==> 0 <= #[trigger] p[k] < n) && (forall|j: int, k: int| 0 <= j < k < n ==> p[j] != p[k]) && (forall|i: int| 0 <= i < n ==> p.contains(i)) }
pub open spec fn sorted_as<A>(o: Seq<A>, f: Seq<A>, m: Seq<Vec<Ordering>>, stable: bool, p: Seq<int>) -> bool {
  perm_of(p, o.len() as int) && f.len() == o.len() && (forall|k: int| 0 <= k < p.len() ==> #[trigger] f[k] == o[p[k]])
     && (forall|j: int, k: int| 0 <= j < k < p.len() ==> { let c = #[trigger] m[p[j]]@[p[k]]; !(c is Greater) && (stable && c is Equal ==> p[j] < p[k]) }) }
}}
use sobase::{le, preorder, ucmp, total, perm_of, sorted_as};
verus! {
use core::cmp::Ordering;
pub trait FnCmp<A>: Sized {
   spec fn ord(&self) -> spec_fn(A, A) -> Ordering;
   fn call_cb(&mut self, a: &A, b: &A) -> (r: Ordering)
     ensures r == old(self).ord()(*a, *b), final(self).ord() == old(self).ord();
}
#[verifier::external_body]
pub fn v_cmp(a: &usize, b: &usize) -> (r: Ordering) ensures r == ucmp(*a as int, *b as int) { unimplemented!() }
// slice::binary_search_by, over the results of the closure for the elements (the standard library asks that they are ordered)
#[verifier::external_body]
pub fn v_bsearch(c: &Vec<Ordering>) -> (r: Result<usize, usize>)
  requires forall|i: int, j: int| 0 <= i < j < c@.len() ==> !((#[trigger] c@[i]) is Greater && !(#[trigger] c@[j] is Greater)) && !(c@[i] is Equal && c@[j] is Less)
  ensures match r { Ok(k) => k < c@.len() && c@[k as int] is Equal, Err(k) => k <= c@.len() && (forall|i: int| 0 <= i < k ==> (#[trigger] c@[i]) is Less) && (forall|i: int| k <= i < c@.len() ==> (#[trigger] c@[i]) is Greater) }
{ unimplemented!() }
// slice::sort_by / sort_unstable_by, over the results of the closure for all pairs of elements
#[verifier::external_body]
pub fn v_sort_by<A>(v: &mut Vec<A>, m: &Vec<Vec<Ordering>>, stable: bool)
  requires total(m@, old(v)@.len() as int)
  ensures exists|p: Seq<int>| #[trigger] sorted_as(old(v)@, final(v)@, m@, stable, p)
{ unimplemented!() }
}
