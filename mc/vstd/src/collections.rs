pub use std::collections::*;

use std::borrow::Borrow;
use std::fmt;
use std::hash::{BuildHasher, Hash, Hasher};
use std::ops::{Deref, DerefMut, Index};

/// Deterministic replacement of `RandomState`; the scenario chooses the seed.
#[derive(Clone, Debug)]
pub struct DetState(u64);
impl Default for DetState {
    fn default() -> Self {
        DetState(crate::rt::k().hash_seed)
    }
}
impl BuildHasher for DetState {
    type Hasher = std::collections::hash_map::DefaultHasher;
    fn build_hasher(&self) -> Self::Hasher {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        h.write_u64(self.0);
        h
    }
}

type RealMap<K, V> = std::collections::HashMap<K, V, DetState>;
type RealSet<K> = std::collections::HashSet<K, DetState>;

pub struct HashMap<K, V>(RealMap<K, V>);
impl<K, V> HashMap<K, V> {
    pub fn new() -> Self {
        HashMap(RealMap::default())
    }
    pub fn with_capacity(n: usize) -> Self {
        HashMap(RealMap::with_capacity_and_hasher(n, DetState::default()))
    }
    pub fn into_keys(self) -> std::collections::hash_map::IntoKeys<K, V> {
        self.0.into_keys()
    }
    pub fn into_values(self) -> std::collections::hash_map::IntoValues<K, V> {
        self.0.into_values()
    }
}
impl<K, V> Deref for HashMap<K, V> {
    type Target = RealMap<K, V>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl<K, V> DerefMut for HashMap<K, V> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}
impl<K, V> Default for HashMap<K, V> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K: Clone, V: Clone> Clone for HashMap<K, V> {
    fn clone(&self) -> Self {
        HashMap(self.0.clone())
    }
}
impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for HashMap<K, V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<K: Eq + Hash, V: PartialEq> PartialEq for HashMap<K, V> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<K: Eq + Hash, V: Eq> Eq for HashMap<K, V> {}
impl<K, Q: ?Sized, V> Index<&Q> for HashMap<K, V>
where
    K: Eq + Hash + Borrow<Q>,
    Q: Eq + Hash,
{
    type Output = V;
    fn index(&self, k: &Q) -> &V {
        &self.0[k]
    }
}
impl<K: Eq + Hash, V> FromIterator<(K, V)> for HashMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self {
        HashMap(i.into_iter().collect())
    }
}
impl<K: Eq + Hash, V> Extend<(K, V)> for HashMap<K, V> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> {
    fn from(a: [(K, V); N]) -> Self {
        a.into_iter().collect()
    }
}
impl<K, V> IntoIterator for HashMap<K, V> {
    type Item = (K, V);
    type IntoIter = std::collections::hash_map::IntoIter<K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<'a, K, V> IntoIterator for &'a HashMap<K, V> {
    type Item = (&'a K, &'a V);
    type IntoIter = std::collections::hash_map::Iter<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = std::collections::hash_map::IterMut<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter_mut()
    }
}
impl<'de, K: serde::Deserialize<'de> + Eq + Hash, V: serde::Deserialize<'de>> serde::Deserialize<'de> for HashMap<K, V> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        RealMap::deserialize(d).map(HashMap)
    }
}
impl<K: serde::Serialize, V: serde::Serialize> serde::Serialize for HashMap<K, V> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.serialize(s)
    }
}

pub struct HashSet<K>(RealSet<K>);
impl<K> HashSet<K> {
    pub fn new() -> Self {
        HashSet(RealSet::default())
    }
    pub fn with_capacity(n: usize) -> Self {
        HashSet(RealSet::with_capacity_and_hasher(n, DetState::default()))
    }
}
impl<K> Deref for HashSet<K> {
    type Target = RealSet<K>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl<K> DerefMut for HashSet<K> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}
impl<K> Default for HashSet<K> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K: Clone> Clone for HashSet<K> {
    fn clone(&self) -> Self {
        HashSet(self.0.clone())
    }
}
impl<K: fmt::Debug> fmt::Debug for HashSet<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<K: Eq + Hash> PartialEq for HashSet<K> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<K: Eq + Hash> Eq for HashSet<K> {}
impl<K: Eq + Hash> FromIterator<K> for HashSet<K> {
    fn from_iter<I: IntoIterator<Item = K>>(i: I) -> Self {
        HashSet(i.into_iter().collect())
    }
}
impl<K: Eq + Hash> Extend<K> for HashSet<K> {
    fn extend<I: IntoIterator<Item = K>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
impl<'a, K: Eq + Hash + Copy + 'a> Extend<&'a K> for HashSet<K> {
    fn extend<I: IntoIterator<Item = &'a K>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
impl<K: Eq + Hash, const N: usize> From<[K; N]> for HashSet<K> {
    fn from(a: [K; N]) -> Self {
        a.into_iter().collect()
    }
}
impl<K> IntoIterator for HashSet<K> {
    type Item = K;
    type IntoIter = std::collections::hash_set::IntoIter<K>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<'a, K> IntoIterator for &'a HashSet<K> {
    type Item = &'a K;
    type IntoIter = std::collections::hash_set::Iter<'a, K>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
