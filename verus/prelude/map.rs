// ---- SignalMap, map diffs and ordered maps
mod kbase { use super::*; verus! {
// the order of the keys (Ord): strict, total and consistent with equality (assumed of every key type)
pub uninterp spec fn klt<K>(a: K, b: K) -> bool;
pub proof fn klt_order<K>()
  ensures forall|a: K, b: K| #[trigger] klt(a, b) ==> a != b && !klt(b, a), forall|a: K, b: K| a == b || #[trigger] klt(a, b) || klt(b, a), forall|a: K, b: K, c: K| #[trigger] klt(a, b) && #[trigger] klt(b, c) ==> klt(a, c)
{ admit(); }
pub open spec fn sorted<K>(s: Seq<K>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> klt(#[trigger] s[i], #[trigger] s[j]) }
pub open spec fn keys_of<K, V>(s: Seq<(K, V)>) -> Seq<K> { Seq::new(s.len(), |i: int| s[i].0) }
pub open spec fn distinct<K, V>(s: Seq<(K, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
// the map which a list of entries stands for
pub open spec fn emap<K, V>(s: Seq<(K, V)>) -> Map<K, V> decreases s.len() { if s.len() == 0 { Map::empty() } else { emap(s.drop_last()).insert(s.last().0, s.last().1) } }
pub open spec fn vals_of<K, V>(s: Seq<(K, V)>) -> Seq<V> { Seq::new(s.len(), |i: int| s[i].1) }
impl<K, V> MapDiff<K, V> {
  // valid for the contents m
  pub open spec fn ok(self, m: Map<K, V>) -> bool {
    match self {
      MapDiff::Replace{entries} => distinct(entries@),
      MapDiff::Insert{key, value} => !m.contains_key(key),
      MapDiff::Update{key, value} => m.contains_key(key),
      MapDiff::Remove{key} => m.contains_key(key),
      MapDiff::Clear{} => true,
    }
  }
  // the one map edit it stands for
  pub open spec fn apply(self, m: Map<K, V>) -> Map<K, V> {
    match self {
      MapDiff::Replace{entries} => emap(entries@),
      MapDiff::Insert{key, value} => m.insert(key, value),
      MapDiff::Update{key, value} => m.insert(key, value),
      MapDiff::Remove{key} => m.remove(key),
      MapDiff::Clear{} => Map::empty(),
    }
  }
  // the values it brings in, appended to the log e
  pub open spec fn enter(self, e: Seq<V>) -> Seq<V> {
    match self {
      MapDiff::Replace{entries} => e + vals_of(entries@),
      MapDiff::Insert{key, value} => e.push(value),
      MapDiff::Update{key, value} => e.push(value),
      _ => e,
    }
  }
}
pub broadcast proof fn emap_push<K, V>(s: Seq<(K, V)>, x: (K, V)) ensures #[trigger] emap(s.push(x)) == emap(s).insert(x.0, x.1) { assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn emap_nil<K, V>(s: Seq<(K, V)>) requires s.len() == 0 ensures #[trigger] emap(s) == Map::<K, V>::empty() {}
pub broadcast proof fn vals_push<K, V>(s: Seq<(K, V)>, x: (K, V)) ensures #[trigger] vals_of(s.push(x)) == vals_of(s).push(x.1) { assert(vals_of(s.push(x)) =~= vals_of(s).push(x.1)); }
pub proof fn emap_dom<K, V>(s: Seq<(K, V)>, k: K) ensures emap(s).contains_key(k) <==> (exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k) decreases s.len()
{ if s.len() > 0 { let t = s.drop_last(); emap_dom(t, k); if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; if i < t.len() { assert(t[i].0 == k); } }
    if exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k; assert(s[i].0 == k); } if s.last().0 == k { assert(s[s.len() - 1].0 == k); } } }
pub proof fn emap_at<K, V>(s: Seq<(K, V)>, i: int) requires distinct(s), 0 <= i < s.len() ensures emap(s).contains_key(s[i].0), emap(s)[s[i].0] == s[i].1 decreases s.len()
{ let t = s.drop_last(); if i < t.len() { emap_at(t, i); assert(t[i] == s[i]); assert(s[s.len() - 1].0 != s[i].0); } }
pub broadcast proof fn m_nil<K, V>(m: Map<K, V>) requires m.dom() == Set::<K>::empty() ensures #[trigger] m.dom().len() == 0 {}
// a queue of diffs
pub open spec fn mpapp<K, V>(p: Seq<MapDiff<K, V>>, o: Map<K, V>) -> Map<K, V> decreases p.len() { if p.len() == 0 { o } else { p.last().apply(mpapp(p.drop_last(), o)) } }
pub open spec fn mpok<K, V>(p: Seq<MapDiff<K, V>>, o: Map<K, V>) -> bool decreases p.len() { p.len() == 0 || (mpok(p.drop_last(), o) && p.last().ok(mpapp(p.drop_last(), o))) }
pub broadcast proof fn mpapp_push<K, V>(p: Seq<MapDiff<K, V>>, d: MapDiff<K, V>, o: Map<K, V>) ensures #[trigger] mpapp(p.push(d), o) == d.apply(mpapp(p, o)) { assert(p.push(d).drop_last() =~= p); }
pub broadcast proof fn mpok_push<K, V>(p: Seq<MapDiff<K, V>>, d: MapDiff<K, V>, o: Map<K, V>) ensures #[trigger] mpok(p.push(d), o) == (mpok(p, o) && d.ok(mpapp(p, o))) { assert(p.push(d).drop_last() =~= p); }
pub proof fn mpop_front<K, V>(p: Seq<MapDiff<K, V>>, o: Map<K, V>) requires p.len() > 0, mpok(p, o)
  ensures p[0].ok(o), mpok(p.subrange(1, p.len() as int), p[0].apply(o)), mpapp(p.subrange(1, p.len() as int), p[0].apply(o)) == mpapp(p, o) decreases p.len()
{ if p.len() == 1 { assert(p.drop_last() =~= Seq::empty()); assert(p.subrange(1, 1) =~= Seq::empty()); }
  else { let q = p.drop_last(); mpop_front(q, o); assert(p.subrange(1, p.len() as int).drop_last() =~= q.subrange(1, q.len() as int)); assert(p.subrange(1, p.len() as int).last() == p.last()); } }
pub broadcast proof fn mpq_split<K, V>(a: MapDiff<K, V>, p: Seq<MapDiff<K, V>>, o: Map<K, V>) requires #[trigger] mpok(seq![a] + p, o) ensures a.ok(o), mpok(p, a.apply(o)), mpapp(p, a.apply(o)) == mpapp(seq![a] + p, o)
{ let q = seq![a] + p; mpop_front(q, o); assert(q.subrange(1, q.len() as int) =~= p); }
pub broadcast proof fn mpq_push<K, V>(a: MapDiff<K, V>, p: Seq<MapDiff<K, V>>, d: MapDiff<K, V>) ensures #[trigger] (seq![a] + p).push(d) == seq![a] + p.push(d) { assert((seq![a] + p).push(d) =~= seq![a] + p.push(d)); }
pub broadcast proof fn mp_none<K, V>(p: Seq<MapDiff<K, V>>, o: Map<K, V>) requires p.len() == 0 ensures #[trigger] mpapp(p, o) == o, mpok(p, o) {}
pub broadcast group basics { emap_push, emap_nil, vals_push, mpapp_push, mpok_push, mpq_split, mpq_push, mp_none }
}}
use kbase::{klt, sorted, keys_of, vals_of, distinct, emap, mpapp, mpok};
verus! {
// ---- the SignalMap contract
pub trait SignalMap {
    type Key; type Value;
    spec fn view(&self) -> Map<Self::Key, Self::Value>;
    spec fn entered(&self) -> Seq<Self::Value>;
    spec fn last(&self) -> MapDiff<Self::Key, Self::Value>;
    spec fn ended(&self) -> bool;
    spec fn armed(&self) -> Option<int>;
    spec fn id(&self) -> int;
    spec fn fin(&self) -> Map<Self::Key, Self::Value>;
    // a map whose Replace diffs list the entries in key order (the mutable ordered map: C13)
    spec fn ordered(&self) -> bool;
    spec fn left(&self) -> nat;
}
pub open spec fn map_post<S: SignalMap>(o: S, n: S, w: int, r: Poll<Option<MapDiff<S::Key, S::Value>>>) -> bool {
   n.id() == o.id() && n.fin() == o.fin() && n.ordered() == o.ordered() && n.left() <= o.left() && (is_val(r) ==> n.left() < o.left()) && match r {
     Poll::Ready(Some(d)) => d.ok(o.view()) && n.view() == d.apply(o.view()) && n.entered() == d.enter(o.entered()) && n.last() == d && !n.ended()
        && (o.ordered() ==> match d { MapDiff::Replace { entries } => sorted(keys_of(entries@)), _ => true }),
     Poll::Ready(None) => n.ended() && n.view() == n.fin() && n.view() == o.view() && n.entered() == o.entered(),
     Poll::Pending => !n.ended() && n.view() == o.view() && n.entered() == o.entered() && n.armed() == Some(w),
   }
}
impl<'a, S: SignalMap> Pin<&'a mut S> {
  #[verifier::external_body]
  pub fn poll_map_change(self, cx: &Context) -> (r: Poll<Option<MapDiff<S::Key, S::Value>>>)
    requires !(*old(self.pointer)).ended()
    ensures map_post(*old(self.pointer), *final(self.pointer), wk(*cx), r)
  { unimplemented!() }
}
pub open spec fn msnoc<K, V>(o: Map<K, V>, r: Poll<Option<MapDiff<K, V>>>) -> Map<K, V> { match r { Poll::Ready(Some(d)) => d.apply(o), _ => o } }
// a source that may be gone
pub open spec fn osm<S: SignalMap>(s: Option<S>, l: Map<S::Key, S::Value>) -> bool { match s { Some(s) => !s.ended() && s.view() == l, None => true } }
pub open spec fn osmsame<S: SignalMap>(a: Option<S>, b: Option<S>) -> bool { b is Some ==> a is Some && a->0.id() == b->0.id() && a->0.fin() == b->0.fin() && b->0.left() <= a->0.left() }
pub open spec fn mleft<S: SignalMap>(s: Option<S>) -> nat { match s { Some(s) => s.left() + 1, None => 0 } }
pub open spec fn nmview<S: SignalMap>(s0: Option<S>, s1: Option<S>, l: Map<S::Key, S::Value>) -> Map<S::Key, S::Value> { match (s0, s1) { (_, Some(s)) => s.view(), (Some(s), None) => s.fin(), _ => l } }
pub open spec fn marmed<S: SignalMap>(s: Option<S>, w: int) -> bool { s is Some ==> s->0.armed() == Some(w) }
// ---- std::collections::BTreeMap (assumed contracts)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { inner: std::collections::BTreeMap<K, V> }
impl<K, V> BTreeMap<K, V> {
  pub uninterp spec fn view(&self) -> Map<K, V>;
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }) { unimplemented!() }
  #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None }) { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures (match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) }) { unimplemented!() }
  #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
  #[verifier::external_body] pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
    ensures (match r { Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)), None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@ }) { unimplemented!() }
  #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len(), r == 0 <==> self@ == Map::<K, V>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K, V>::empty()) { unimplemented!() }
  // iteration: the keys in ascending order, and the value at a key
  #[verifier::external_body] pub fn v_keys(&self) -> (r: Vec<K>) ensures sorted(r@), forall|k: K| self@.contains_key(k) <==> r@.contains(k) { unimplemented!() }
  #[verifier::external_body] pub fn v_at(&self, k: &K) -> (r: &V) requires self@.contains_key(*k) ensures *r == self@[*k] { unimplemented!() }
  #[verifier::external_body] pub fn v_at_mut(&mut self, k: &K) -> (r: &mut V) requires old(self)@.contains_key(*k) ensures *r == old(self)@[*k], final(self)@ == old(self)@.insert(*k, *final(r)) { unimplemented!() }
}
}
