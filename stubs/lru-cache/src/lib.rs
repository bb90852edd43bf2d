//! Stand-in for the lru-cache crate (same eviction policy: least recently used goes first).
use std::hash::Hash;

#[derive(Debug)]
pub struct LruCache<K, V> {
    cap: usize,
    /// most recently used last
    pub items: Vec<(K, V)>,
}

impl<K: Eq + Hash, V> LruCache<K, V> {
    pub fn new(cap: usize) -> Self {
        LruCache { cap, items: vec![] }
    }
    pub fn get_mut(&mut self, k: &K) -> Option<&mut V> {
        let i = self.items.iter().position(|(x, _)| x == k)?;
        let e = self.items.remove(i);
        self.items.push(e);
        self.items.last_mut().map(|e| &mut e.1)
    }
    pub fn contains_key(&mut self, k: &K) -> bool {
        self.items.iter().any(|(x, _)| x == k)
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        let old = self
            .items
            .iter()
            .position(|(x, _)| *x == k)
            .map(|i| self.items.remove(i).1);
        self.items.push((k, v));
        while self.items.len() > self.cap {
            self.items.remove(0);
        }
        old
    }
    pub fn remove(&mut self, k: &K) -> Option<V> {
        let i = self.items.iter().position(|(x, _)| x == k)?;
        Some(self.items.remove(i).1)
    }
    pub fn len(&self) -> usize {
        self.items.len()
    }
    pub fn is_empty(&self) -> bool {
        self.items.is_empty()
    }
    pub fn clear(&mut self) {
        self.items.clear()
    }
    pub fn capacity(&self) -> usize {
        self.cap
    }
}
