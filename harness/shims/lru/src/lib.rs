//! Least-recently-used map with the lru crate's surface.
use std::borrow::Borrow;
use std::collections::{BTreeMap, HashMap};
use std::hash::Hash;
use std::num::NonZeroUsize;
pub struct LruCache<K, V> {
    cap: usize,
    tick: u64,
    map: HashMap<K, (V, u64)>,
    age: BTreeMap<u64, K>,
}
impl<K: Hash + Eq + std::fmt::Debug, V: std::fmt::Debug> std::fmt::Debug for LruCache<K, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("LruCache").field("len", &self.map.len()).field("cap", &self.cap).finish()
    }
}
impl<K: Hash + Eq + Clone, V> LruCache<K, V> {
    pub fn new(cap: NonZeroUsize) -> Self {
        Self { cap: cap.get(), tick: 0, map: HashMap::new(), age: BTreeMap::new() }
    }
    pub fn len(&self) -> usize {
        self.map.len()
    }
    pub fn is_empty(&self) -> bool {
        self.map.is_empty()
    }
    pub fn cap(&self) -> usize {
        self.cap
    }
    pub fn clear(&mut self) {
        self.map.clear();
        self.age.clear();
    }
    pub fn put(&mut self, k: K, v: V) -> Option<V> {
        self.tick += 1;
        let old = self.map.insert(k.clone(), (v, self.tick));
        if let Some((_, t)) = &old {
            self.age.remove(t);
        } else if self.map.len() > self.cap {
            if let Some((_, victim)) = self.age.pop_first() {
                self.map.remove(&victim);
            }
        }
        self.age.insert(self.tick, k);
        old.map(|o| o.0)
    }
    pub fn push(&mut self, k: K, v: V) -> Option<(K, V)> {
        self.put(k.clone(), v).map(|v| (k, v))
    }
    pub fn get<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&V>
    where K: Borrow<Q> {
        self.get_mut(k).map(|v| &*v)
    }
    pub fn get_mut<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&mut V>
    where K: Borrow<Q> {
        let e = self.map.get_mut(k)?;
        self.tick += 1;
        let key = self.age.remove(&e.1)?;
        e.1 = self.tick;
        self.age.insert(self.tick, key);
        Some(&mut e.0)
    }
    pub fn peek<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&V>
    where K: Borrow<Q> {
        self.map.get(k).map(|e| &e.0)
    }
    pub fn contains<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool
    where K: Borrow<Q> {
        self.map.contains_key(k)
    }
    pub fn pop<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<V>
    where K: Borrow<Q> {
        let (v, t) = self.map.remove(k)?;
        self.age.remove(&t);
        Some(v)
    }
    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
        self.map.iter().map(|(k, v)| (k, &v.0))
    }
}
