//! Hash maps and sets modelled as association lists.  Keys are still fed to a hasher (so that keys whose
//! `Hash` panics do panic) and iteration order is not promised (see vsym::HASH_REV).
use realstd::borrow::Borrow; use realstd::hash::{Hash, Hasher, BuildHasher}; use realstd::marker::PhantomData; use realstd::vec::{self, Vec};
use realstd::collections::hash_map::RandomState; use realstd::fmt; use realstd::ops::Index; use realstd::option::Option::{self, *}; use realstd::prelude::v1::*;
struct Null;
impl Hasher for Null { fn finish(&self) -> u64 { 0 } fn write(&mut self, _: &[u8]) {} fn write_u8(&mut self, _: u8) {} fn write_u64(&mut self, _: u64) {} fn write_i64(&mut self, _: i64) {} fn write_usize(&mut self, _: usize) {} fn write_isize(&mut self, _: isize) {} fn write_u32(&mut self, _: u32) {} }
#[inline] fn feed<Q: Hash + ?Sized>(q: &Q) { q.hash(&mut Null) }
/// How many entries all hash maps hold together (see C25).
pub static mut LIVE: i64 = 0;
fn count(n: i64) { unsafe { LIVE += n } }
struct Items<K, V> { v: Vec<(K, V)> }
impl<K, V> Items<K, V> {
    fn new() -> Self { Items { v: Vec::new() } } fn capacity(&self) -> usize { self.v.capacity() }
    fn push(&mut self, x: (K, V)) { count(1); self.v.push(x) } fn remove(&mut self, i: usize) -> (K, V) { count(-1); self.v.remove(i) }
    fn take(&mut self) -> Vec<(K, V)> { count(-(self.v.len() as i64)); realstd::mem::take(&mut self.v) } fn clear(&mut self) { self.take(); }
    fn retain_mut<F: FnMut(&mut (K, V)) -> bool>(&mut self, f: F) { let n = self.v.len(); self.v.retain_mut(f); count(self.v.len() as i64 - n as i64) }
}
impl<K, V> Drop for Items<K, V> { fn drop(&mut self) { count(-(self.v.len() as i64)) } }
impl<K: Clone, V: Clone> Clone for Items<K, V> { fn clone(&self) -> Self { count(self.v.len() as i64); Items { v: self.v.clone() } } }
impl<K, V> realstd::ops::Deref for Items<K, V> { type Target = [(K, V)]; fn deref(&self) -> &[(K, V)] { &self.v } }
impl<K, V> realstd::ops::DerefMut for Items<K, V> { fn deref_mut(&mut self) -> &mut [(K, V)] { &mut self.v } }
pub struct HashMap<K, V, S = RandomState> { items: Items<K, V>, s: PhantomData<S> }
impl<K, V> HashMap<K, V, RandomState> { pub fn new() -> Self { HashMap { items: Items::new(), s: PhantomData } } pub fn with_capacity(n: usize) -> Self { let _ = n; Self::new() } }
impl<K, V, S> HashMap<K, V, S> {
    pub fn with_hasher(_s: S) -> Self { HashMap { items: Items::new(), s: PhantomData } }
    pub fn len(&self) -> usize { self.items.len() }
    pub fn is_empty(&self) -> bool { self.items.is_empty() }
    pub fn capacity(&self) -> usize { self.items.capacity() }
    pub fn clear(&mut self) { self.items.clear() }
    pub fn iter(&self) -> Iter<'_, K, V> { Iter { i: self.items.iter(), rev: unsafe { vsym::HASH_REV } } }
    pub fn iter_mut(&mut self) -> IterMut<'_, K, V> { IterMut { i: self.items.iter_mut(), rev: unsafe { vsym::HASH_REV } } }
    pub fn keys(&self) -> Keys<'_, K, V> { Keys { i: self.iter() } }
    pub fn values(&self) -> Values<'_, K, V> { Values { i: self.iter() } }
    pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> { ValuesMut { i: self.iter_mut() } }
    pub fn into_keys(self) -> vec::IntoIter<K> { self.into_iter().map(|x| x.0).collect::<Vec<K>>().into_iter() }
    pub fn into_values(self) -> vec::IntoIter<V> { self.into_iter().map(|x| x.1).collect::<Vec<V>>().into_iter() }
    pub fn drain(&mut self) -> vec::IntoIter<(K, V)> { let mut v = self.items.take(); if unsafe { vsym::HASH_REV } { v.reverse(); } v.into_iter() }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) { self.items.retain_mut(|x| f(&x.0, &mut x.1)) }
    pub fn shrink_to_fit(&mut self) {}
}
impl<K: Eq + Hash, V, S> HashMap<K, V, S> {
    fn find<Q: ?Sized + Hash + Eq>(&self, q: &Q) -> Option<usize> where K: Borrow<Q> { feed(q); let mut i = 0; while i < self.items.len() { if self.items[i].0.borrow() == q { return Some(i); } i += 1; } None }
    pub fn reserve(&mut self, _n: usize) {}
    pub fn get<Q: ?Sized + Hash + Eq>(&self, q: &Q) -> Option<&V> where K: Borrow<Q> { match self.find(q) { Some(i) => Some(&self.items[i].1), None => None } }
    pub fn get_key_value<Q: ?Sized + Hash + Eq>(&self, q: &Q) -> Option<(&K, &V)> where K: Borrow<Q> { match self.find(q) { Some(i) => { let x = &self.items[i]; Some((&x.0, &x.1)) } None => None } }
    pub fn get_mut<Q: ?Sized + Hash + Eq>(&mut self, q: &Q) -> Option<&mut V> where K: Borrow<Q> { match self.find(q) { Some(i) => Some(&mut self.items[i].1), None => None } }
    pub fn contains_key<Q: ?Sized + Hash + Eq>(&self, q: &Q) -> bool where K: Borrow<Q> { self.find(q).is_some() }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> { match self.find(&k) { Some(i) => Some(realstd::mem::replace(&mut self.items[i].1, v)), None => { self.items.push((k, v)); None } } }
    pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, q: &Q) -> Option<V> where K: Borrow<Q> { match self.find(q) { Some(i) => Some(self.items.remove(i).1), None => None } }
    pub fn remove_entry<Q: ?Sized + Hash + Eq>(&mut self, q: &Q) -> Option<(K, V)> where K: Borrow<Q> { match self.find(q) { Some(i) => Some(self.items.remove(i)), None => None } }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V> { match self.find(&k) { Some(i) => Entry::Occupied(OccupiedEntry { m: &mut self.items, i, k }), None => Entry::Vacant(VacantEntry { m: &mut self.items, k }) } }
}
pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
pub struct OccupiedEntry<'a, K, V> { m: &'a mut Items<K, V>, i: usize, k: K }
pub struct VacantEntry<'a, K, V> { m: &'a mut Items<K, V>, k: K }
impl<'a, K, V> Entry<'a, K, V> {
    pub fn or_insert(self, v: V) -> &'a mut V { self.or_insert_with(|| v) }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(v) => v.insert(f()) } }
    pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(v) => { let x = f(&v.k); v.insert(x) } } }
    pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(Default::default) }
    pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self { if let Entry::Occupied(o) = &mut self { f(o.get_mut()) } self }
    pub fn key(&self) -> &K { match self { Entry::Occupied(o) => &o.m[o.i].0, Entry::Vacant(v) => &v.k } }
    pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V> where K: Clone { match self { Entry::Occupied(mut o) => { o.insert(v); o } Entry::Vacant(e) => { let k = e.k.clone(); e.m.push((e.k, v)); let i = e.m.len() - 1; OccupiedEntry { m: e.m, i, k } } } }
}
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn key(&self) -> &K { &self.m[self.i].0 } pub fn get(&self) -> &V { &self.m[self.i].1 } pub fn get_mut(&mut self) -> &mut V { &mut self.m[self.i].1 } pub fn into_mut(self) -> &'a mut V { &mut self.m[self.i].1 }
    pub fn insert(&mut self, v: V) -> V { realstd::mem::replace(&mut self.m[self.i].1, v) } pub fn remove(self) -> V { self.m.remove(self.i).1 } pub fn remove_entry(self) -> (K, V) { self.m.remove(self.i) }
}
impl<'a, K, V> VacantEntry<'a, K, V> { pub fn key(&self) -> &K { &self.k } pub fn into_key(self) -> K { self.k } pub fn insert(self, v: V) -> &'a mut V { self.m.push((self.k, v)); let n = self.m.len() - 1; &mut self.m[n].1 } }
pub struct Iter<'a, K, V> { i: realstd::slice::Iter<'a, (K, V)>, rev: bool }
impl<'a, K, V> Iterator for Iter<'a, K, V> { type Item = (&'a K, &'a V); fn next(&mut self) -> Option<Self::Item> { let x = if self.rev { self.i.next_back() } else { self.i.next() }; match x { Some(x) => Some((&x.0, &x.1)), None => None } } fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() } }
impl<'a, K, V> ExactSizeIterator for Iter<'a, K, V> {}
impl<'a, K, V> Clone for Iter<'a, K, V> { fn clone(&self) -> Self { Iter { i: self.i.clone(), rev: self.rev } } }
pub struct IterMut<'a, K, V> { i: realstd::slice::IterMut<'a, (K, V)>, rev: bool }
impl<'a, K, V> Iterator for IterMut<'a, K, V> { type Item = (&'a K, &'a mut V); fn next(&mut self) -> Option<Self::Item> { let x = if self.rev { self.i.next_back() } else { self.i.next() }; match x { Some(x) => Some((&x.0, &mut x.1)), None => None } } fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() } }
pub struct Keys<'a, K, V> { i: Iter<'a, K, V> }
impl<'a, K, V> Iterator for Keys<'a, K, V> { type Item = &'a K; fn next(&mut self) -> Option<&'a K> { self.i.next().map(|x| x.0) } fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() } }
impl<'a, K, V> ExactSizeIterator for Keys<'a, K, V> {}
pub struct Values<'a, K, V> { i: Iter<'a, K, V> }
impl<'a, K, V> Iterator for Values<'a, K, V> { type Item = &'a V; fn next(&mut self) -> Option<&'a V> { self.i.next().map(|x| x.1) } fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() } }
pub struct ValuesMut<'a, K, V> { i: IterMut<'a, K, V> }
impl<'a, K, V> Iterator for ValuesMut<'a, K, V> { type Item = &'a mut V; fn next(&mut self) -> Option<&'a mut V> { self.i.next().map(|x| x.1) } }
impl<K, V, S> IntoIterator for HashMap<K, V, S> { type Item = (K, V); type IntoIter = vec::IntoIter<(K, V)>; fn into_iter(mut self) -> Self::IntoIter { if unsafe { vsym::HASH_REV } { self.items.reverse(); } self.items.take().into_iter() } }
impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> { type Item = (&'a K, &'a V); type IntoIter = Iter<'a, K, V>; fn into_iter(self) -> Iter<'a, K, V> { self.iter() } }
impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> { type Item = (&'a K, &'a mut V); type IntoIter = IterMut<'a, K, V>; fn into_iter(self) -> IterMut<'a, K, V> { self.iter_mut() } }
impl<K: Eq + Hash, V, S> Extend<(K, V)> for HashMap<K, V, S> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) { for (k, v) in it { self.insert(k, v); } } }
impl<'a, K: Eq + Hash + Copy, V: Copy, S> Extend<(&'a K, &'a V)> for HashMap<K, V, S> { fn extend<I: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, it: I) { for (k, v) in it { self.insert(*k, *v); } } }
impl<K: Eq + Hash, V, S: Default> FromIterator<(K, V)> for HashMap<K, V, S> { fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self { let mut m = Self::default(); m.extend(it); m } }
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V, RandomState> { fn from(a: [(K, V); N]) -> Self { let mut m = Self::new(); for (k, v) in a { m.insert(k, v); } m } }
impl<K, V, S> Default for HashMap<K, V, S> { fn default() -> Self { HashMap { items: Items::new(), s: PhantomData } } }
impl<K: Clone, V: Clone, S> Clone for HashMap<K, V, S> { fn clone(&self) -> Self { HashMap { items: self.items.clone(), s: PhantomData } } }
impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for HashMap<K, V, S> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_map().entries(self.iter()).finish() } }
impl<K: Eq + Hash, V: PartialEq, S> PartialEq for HashMap<K, V, S> { fn eq(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().all(|(k, v)| match o.get(k) { Some(w) => *v == *w, None => false }) } }
impl<K: Eq + Hash, V: Eq, S> Eq for HashMap<K, V, S> {}
impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V, S> Index<&Q> for HashMap<K, V, S> { type Output = V; fn index(&self, q: &Q) -> &V { self.get(q).expect("no entry found for key") } }
impl<K: serde::Serialize, V: serde::Serialize, S> serde::Serialize for HashMap<K, V, S> { fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { z.collect_map(self.iter()) } }
impl<'de, K: serde::Deserialize<'de> + Eq + Hash, V: serde::Deserialize<'de>, S> serde::Deserialize<'de> for HashMap<K, V, S> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Vis<K, V, S>(PhantomData<(K, V, S)>);
        impl<'de, K: serde::Deserialize<'de> + Eq + Hash, V: serde::Deserialize<'de>, S> serde::de::Visitor<'de> for Vis<K, V, S> { type Value = HashMap<K, V, S>; fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("a map") } fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> { let mut m = HashMap::default(); while let Some((k, v)) = a.next_entry()? { m.insert(k, v); } Ok(m) } }
        d.deserialize_map(Vis(PhantomData))
    }
}
pub struct HashSet<T, S = RandomState> { m: HashMap<T, (), S> }
impl<T> HashSet<T, RandomState> { pub fn new() -> Self { HashSet { m: HashMap::new() } } pub fn with_capacity(_: usize) -> Self { Self::new() } }
impl<T, S> HashSet<T, S> { pub fn len(&self) -> usize { self.m.len() } pub fn is_empty(&self) -> bool { self.m.is_empty() } pub fn clear(&mut self) { self.m.clear() } pub fn iter(&self) -> Keys<'_, T, ()> { self.m.keys() } pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) { self.m.retain(|k, _| f(k)) } }
impl<T: Eq + Hash, S> HashSet<T, S> {
    pub fn insert(&mut self, t: T) -> bool { if self.m.contains_key(&t) { false } else { self.m.insert(t, ()); true } }
    pub fn contains<Q: ?Sized + Hash + Eq>(&self, q: &Q) -> bool where T: Borrow<Q> { self.m.contains_key(q) }
    pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, q: &Q) -> bool where T: Borrow<Q> { self.m.remove(q).is_some() }
    pub fn get<Q: ?Sized + Hash + Eq>(&self, q: &Q) -> Option<&T> where T: Borrow<Q> { self.m.get_key_value(q).map(|x| x.0) }
    pub fn take<Q: ?Sized + Hash + Eq>(&mut self, q: &Q) -> Option<T> where T: Borrow<Q> { self.m.remove_entry(q).map(|x| x.0) }
}
impl<T: Eq + Hash, S> PartialEq for HashSet<T, S> { fn eq(&self, o: &Self) -> bool { self.m == o.m } }
impl<T: Eq + Hash, S> Eq for HashSet<T, S> {}
impl<T, S> Default for HashSet<T, S> { fn default() -> Self { HashSet { m: Default::default() } } }
impl<T: Clone, S> Clone for HashSet<T, S> { fn clone(&self) -> Self { HashSet { m: self.m.clone() } } }
impl<T: fmt::Debug, S> fmt::Debug for HashSet<T, S> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_set().entries(self.iter()).finish() } }
impl<T: Eq + Hash, S> Extend<T> for HashSet<T, S> { fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) { for t in it { self.insert(t); } } }
impl<T: Eq + Hash, S: Default> FromIterator<T> for HashSet<T, S> { fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self { let mut m = Self::default(); m.extend(it); m } }
impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T, RandomState> { fn from(a: [T; N]) -> Self { let mut m = Self::new(); m.extend(a); m } }
impl<T, S> IntoIterator for HashSet<T, S> { type Item = T; type IntoIter = vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.m.into_keys() } }
impl<'a, T, S> IntoIterator for &'a HashSet<T, S> { type Item = &'a T; type IntoIter = Keys<'a, T, ()>; fn into_iter(self) -> Keys<'a, T, ()> { self.m.keys() } }
