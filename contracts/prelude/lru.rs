pub mod lru {
// lru_cache::LruCache, std::sync::Mutex
use vstd::prelude::*;
use crate::base::*;
verus! {
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct LruCache<K, V> { x: std::marker::PhantomData<(K, V)> }
impl<K, V> LruCache<K, V> {
    /// what the cache holds
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new(capacity: usize) -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r { Some(x) => old(self)@.contains_key(*k) && *x == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(x)), None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@ }
    { unimplemented!() }
    /// other entries may be evicted
    #[verifier::external_body]
    pub fn vx_insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures forall|q: K| #[trigger] final(self)@.contains_key(q) ==> (if q == k { final(self)@[q] == v } else { old(self)@.contains_key(q) && final(self)@[q] == old(self)@[q] }),
    { unimplemented!() }
}
pub trait VxOptCloned<V>: Sized { fn vx_cloned(self) -> (r: Option<V>); }
impl<'a, V: Clone> VxOptCloned<V> for Option<&'a mut V> {
    #[verifier::external_body] fn vx_cloned(self) -> (r: Option<V>)
        ensures match self { Some(x) => r == Some(*x) && *final(x) == *x, None => r is None }
    { unimplemented!() }
}
/// a lock: the invariant holds of the value whenever the lock is free
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Mutex<T> { x: std::marker::PhantomData<T> }
impl<T> Mutex<T> {
    pub uninterp spec fn inv(&self) -> spec_fn(T) -> bool;
    #[verifier::external_body]
    pub fn vx_new(v: T, i: Ghost<spec_fn(T) -> bool>) -> (r: Self) requires (i@)(v) ensures r.inv() == i@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_lock<'a>(&'a self) -> (r: &'a mut T) ensures (self.inv())(*r) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_unlock(&self, g: &mut T) requires (self.inv())(*old(g)) { unimplemented!() }
}
}
}
