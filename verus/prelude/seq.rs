verus! {
// a callback which gets the contents as a slice
pub trait FnSeq<A, B>: Sized {
   spec fn rel(&self) -> spec_fn(Seq<A>, B) -> bool;
   spec fn calls(&self) -> Seq<Seq<A>>;
   fn call_cb(&mut self, a: &Vec<A>) -> (b: B)
     ensures old(self).rel()(a@, b), final(self).calls() == old(self).calls().push(a@), final(self).rel() == old(self).rel();
}
// std::iter::Sum over references: a function of the values and their order (nothing else is assumed)
pub uninterp spec fn sum_of<T>(s: Seq<T>) -> T;
#[verifier::external_body]
pub fn v_sum<T>(s: &Vec<T>) -> (r: T) ensures r == sum_of(s@) { unimplemented!() }
}
mod mbase { use super::*; verus! {
// moving an element is a permutation
pub broadcast proof fn move_multiset<T>(s: Seq<T>, i: int, j: int)
  requires 0 <= i < s.len(), 0 <= j <= s.len() - 1
  ensures (#[trigger] s.remove(i).insert(j, s[i])).to_multiset() == s.to_multiset()
{ let m = s.remove(i); broadcast use vstd::seq_lib::group_to_multiset_ensures;
  assert(m.to_multiset() =~= s.to_multiset().remove(s[i]));
  assert(m.insert(j, s[i]).to_multiset() =~= m.to_multiset().insert(s[i])) by { assert(m.insert(j, s[i]).remove(j) =~= m); assert(m.insert(j, s[i])[j] == s[i]); assert(m.insert(j, s[i]).to_multiset().count(s[i]) > 0) by { assert(m.insert(j, s[i]).contains(s[i])); } };
  assert(s.to_multiset().count(s[i]) > 0) by { assert(s.contains(s[i])); };
  assert(m.to_multiset().insert(s[i]) =~= s.to_multiset());
}
pub broadcast group basics { move_multiset }
}}
