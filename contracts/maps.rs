// ---- caches: documented behaviour of Arc<[T]> and hashbrown::HashMap ---------------------
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct ArcSlice<T> { v: Vec<T> }
impl<T> View for ArcSlice<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> vstd::std_specs::core::IndexSpecImpl<usize> for ArcSlice<T> { open spec fn index_req(&self, i: &usize) -> bool { *i < self@.len() } }
impl<T> core::ops::Index<usize> for ArcSlice<T> { type Output = T;
  #[verifier::external_body] fn index(&self, i: usize) -> (r: &T) ensures *r == self@[i as int] { unimplemented!() } }
pub struct Arc {}
impl Arc {
  #[verifier::external_body] pub fn from<T>(v: Vec<T>) -> (r: ArcSlice<T>) ensures r@ == v@ { unimplemented!() }
  #[verifier::external_body] pub fn clone<T>(v: &ArcSlice<T>) -> (r: ArcSlice<T>) ensures r == *v { unimplemented!() }
}
impl<T> ArcSlice<T> {
  #[verifier::external_body] pub fn as_ref(&self) -> (r: &[T]) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> HashMap<K, V> {
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>)
    ensures r.is_some() == self@.dom().contains(*k), r.is_some() ==> *r.unwrap() == self@[*k] { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
  #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k) { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K, V>::empty()) { unimplemented!() }
}
#[verifier::external_body] pub fn kx_take<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { core::mem::take(v) }
#[verifier::external_body] pub fn kx_mut_slice<T>(v: &mut Vec<T>) -> (r: &mut [T]) ensures r@ == old(v)@, final(r)@ == final(v)@ { &mut v[..] }
/// `Vec<MaybeUninit<T>>` scratch: `set_len` within the capacity, contents arbitrary
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct KxUninit<T> { v: Vec<T> }
impl<T> KxUninit<T> {
  pub uninterp spec fn cap(&self) -> int;
  pub uninterp spec fn ulen(&self) -> int;
  #[verifier::external_body] pub fn set_len(&mut self, n: usize) requires n <= old(self).cap() ensures final(self).ulen() == n, final(self).cap() == old(self).cap() { unimplemented!() }
  #[verifier::external_body] pub fn kx_slice_mut(&mut self, n: usize) -> (r: &mut [T]) requires n <= old(self).ulen() ensures r@.len() == n { unimplemented!() }
}
#[verifier::external_body] pub fn kx_uninit<T>(n: usize) -> (r: KxUninit<T>) ensures r.cap() >= n, r.ulen() == 0 { unimplemented!() }
