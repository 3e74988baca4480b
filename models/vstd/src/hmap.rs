use ::std::borrow::Borrow;
use ::std::collections::hash_map::RandomState;
use ::std::collections::TryReserveError;
use ::std::fmt;
use ::std::hash::{BuildHasher, Hash};
use ::std::iter::FusedIterator;
use ::std::marker::PhantomData;
use ::std::ops::Index;

pub struct HashMap<K, V, S = RandomState> { pub(crate) v: Vec<(K, V)>, s: PhantomData<S> }

impl<K, V> HashMap<K, V, RandomState> {
    pub fn new() -> Self { HashMap { v: Vec::new(), s: PhantomData } }
    pub fn with_capacity(_n: usize) -> Self { Self::new() }
}
impl<K, V, S> HashMap<K, V, S> {
    pub fn with_hasher(_h: S) -> Self { HashMap { v: Vec::new(), s: PhantomData } }
    pub fn with_capacity_and_hasher(_n: usize, _h: S) -> Self { HashMap { v: Vec::new(), s: PhantomData } }
    pub fn capacity(&self) -> usize { self.v.capacity() }
    pub fn len(&self) -> usize { self.v.len() }
    pub fn is_empty(&self) -> bool { self.v.is_empty() }
    pub fn clear(&mut self) { self.v.clear() }
    pub fn iter(&self) -> Iter<'_, K, V> { Iter { i: crate::ordered(self.v.iter().collect()) } }
    pub fn iter_mut(&mut self) -> IterMut<'_, K, V> { IterMut { i: crate::ordered(self.v.iter_mut().collect()) } }
    pub fn keys(&self) -> Keys<'_, K, V> { Keys { i: self.iter() } }
    pub fn values(&self) -> Values<'_, K, V> { Values { i: self.iter() } }
    pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> { ValuesMut { i: self.iter_mut() } }
    pub fn into_keys(self) -> IntoKeys<K, V> { IntoKeys { i: self.into_iter() } }
    pub fn into_values(self) -> IntoValues<K, V> { IntoValues { i: self.into_iter() } }
    pub fn drain(&mut self) -> Drain<'_, K, V> { Drain { i: crate::ordered(::std::mem::take(&mut self.v)), p: PhantomData } }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) { self.v.retain_mut(|e| f(&e.0, &mut e.1)) }
    pub fn extract_if<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) -> ::std::vec::IntoIter<(K, V)> {
        let mut keep = vec![]; let mut out = vec![];
        for mut e in ::std::mem::take(&mut self.v) { if f(&e.0, &mut e.1) { out.push(e) } else { keep.push(e) } }
        self.v = keep;
        out.into_iter()
    }
}
impl<K: Eq + Hash, V, S: BuildHasher> HashMap<K, V, S> {
    pub fn reserve(&mut self, _n: usize) {}
    pub fn try_reserve(&mut self, _n: usize) -> Result<(), TryReserveError> { Ok(()) }
    pub fn shrink_to_fit(&mut self) {}
    pub fn shrink_to(&mut self, _n: usize) {}
    fn pos<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> {
        let mut i = 0;
        while i < self.v.len() { if self.v[i].0.borrow() == k { return Some(i); } i += 1; }
        None
    }
    pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> { match self.pos(k) { Some(i) => Some(&self.v[i].1), None => None } }
    pub fn get_key_value<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<(&K, &V)> where K: Borrow<Q> { match self.pos(k) { Some(i) => Some((&self.v[i].0, &self.v[i].1)), None => None } }
    pub fn get_mut<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { match self.pos(k) { Some(i) => Some(&mut self.v[i].1), None => None } }
    pub fn contains_key<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { self.pos(k).is_some() }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> { match self.pos(&k) { Some(i) => Some(::std::mem::replace(&mut self.v[i].1, v)), None => { self.v.push((k, v)); None } } }
    pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> { match self.pos(k) { Some(i) => Some(self.v.remove(i).1), None => None } }
    pub fn remove_entry<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> { match self.pos(k) { Some(i) => Some(self.v.remove(i)), None => None } }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V> { match self.pos(&k) { Some(i) => Entry::Occupied(OccupiedEntry { v: &mut self.v, i, k: Some(k) }), None => Entry::Vacant(VacantEntry { v: &mut self.v, k }) } }
}
pub enum Entry<'a, K: 'a, V: 'a> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
pub struct OccupiedEntry<'a, K: 'a, V: 'a> { v: &'a mut Vec<(K, V)>, i: usize, k: Option<K> }
pub struct VacantEntry<'a, K: 'a, V: 'a> { v: &'a mut Vec<(K, V)>, k: K }
impl<'a, K, V> Entry<'a, K, V> {
    pub fn or_insert(self, d: V) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(e) => e.insert(d) } }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(e) => e.insert(f()) } }
    pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(e) => { let x = f(&e.k); e.insert(x) } } }
    pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(V::default) }
    pub fn key(&self) -> &K { match self { Entry::Occupied(o) => o.key(), Entry::Vacant(e) => &e.k } }
    pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self { if let Entry::Occupied(o) = &mut self { f(o.get_mut()) } self }
    pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V> { match self { Entry::Occupied(mut o) => { o.insert(v); o } Entry::Vacant(e) => { e.v.push((e.k, v)); let i = e.v.len() - 1; OccupiedEntry { v: e.v, i, k: None } } } }
}
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn key(&self) -> &K { &self.v[self.i].0 }
    pub fn get(&self) -> &V { &self.v[self.i].1 }
    pub fn get_mut(&mut self) -> &mut V { &mut self.v[self.i].1 }
    pub fn into_mut(self) -> &'a mut V { let _ = self.k; &mut self.v[self.i].1 }
    pub fn insert(&mut self, v: V) -> V { ::std::mem::replace(&mut self.v[self.i].1, v) }
    pub fn remove(self) -> V { self.v.remove(self.i).1 }
    pub fn remove_entry(self) -> (K, V) { self.v.remove(self.i) }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub fn key(&self) -> &K { &self.k }
    pub fn into_key(self) -> K { self.k }
    pub fn insert(self, v: V) -> &'a mut V { self.v.push((self.k, v)); &mut self.v.last_mut().unwrap().1 }
}

pub struct Iter<'a, K, V> { i: ::std::vec::IntoIter<&'a (K, V)> }
impl<'a, K, V> Clone for Iter<'a, K, V> { fn clone(&self) -> Self { Iter { i: self.i.clone() } } }
impl<'a, K, V> Iterator for Iter<'a, K, V> { type Item = (&'a K, &'a V); fn next(&mut self) -> Option<Self::Item> { match self.i.next() { Some(e) => Some((&e.0, &e.1)), None => None } } fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() } }
impl<'a, K, V> ExactSizeIterator for Iter<'a, K, V> {}
impl<'a, K, V> FusedIterator for Iter<'a, K, V> {}
pub struct IterMut<'a, K, V> { i: ::std::vec::IntoIter<&'a mut (K, V)> }
impl<'a, K, V> Iterator for IterMut<'a, K, V> { type Item = (&'a K, &'a mut V); fn next(&mut self) -> Option<Self::Item> { match self.i.next() { Some(e) => Some((&e.0, &mut e.1)), None => None } } fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() } }
impl<'a, K, V> ExactSizeIterator for IterMut<'a, K, V> {}
pub struct IntoIter<K, V> { i: ::std::vec::IntoIter<(K, V)> }
impl<K, V> Iterator for IntoIter<K, V> { type Item = (K, V); fn next(&mut self) -> Option<(K, V)> { self.i.next() } fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() } }
impl<K, V> ExactSizeIterator for IntoIter<K, V> {}
pub struct Drain<'a, K, V> { i: ::std::vec::IntoIter<(K, V)>, p: PhantomData<&'a ()> }
impl<'a, K, V> Iterator for Drain<'a, K, V> { type Item = (K, V); fn next(&mut self) -> Option<(K, V)> { self.i.next() } }
pub struct Keys<'a, K, V> { i: Iter<'a, K, V> }
impl<'a, K, V> Clone for Keys<'a, K, V> { fn clone(&self) -> Self { Keys { i: self.i.clone() } } }
impl<'a, K, V> Iterator for Keys<'a, K, V> { type Item = &'a K; fn next(&mut self) -> Option<&'a K> { match self.i.next() { Some(e) => Some(e.0), None => None } } fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() } }
impl<'a, K, V> ExactSizeIterator for Keys<'a, K, V> {}
pub struct Values<'a, K, V> { i: Iter<'a, K, V> }
impl<'a, K, V> Clone for Values<'a, K, V> { fn clone(&self) -> Self { Values { i: self.i.clone() } } }
impl<'a, K, V> Iterator for Values<'a, K, V> { type Item = &'a V; fn next(&mut self) -> Option<&'a V> { match self.i.next() { Some(e) => Some(e.1), None => None } } fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() } }
impl<'a, K, V> ExactSizeIterator for Values<'a, K, V> {}
pub struct ValuesMut<'a, K, V> { i: IterMut<'a, K, V> }
impl<'a, K, V> Iterator for ValuesMut<'a, K, V> { type Item = &'a mut V; fn next(&mut self) -> Option<&'a mut V> { match self.i.next() { Some(e) => Some(e.1), None => None } } }
pub struct IntoKeys<K, V> { i: IntoIter<K, V> }
impl<K, V> Iterator for IntoKeys<K, V> { type Item = K; fn next(&mut self) -> Option<K> { self.i.next().map(|e| e.0) } }
pub struct IntoValues<K, V> { i: IntoIter<K, V> }
impl<K, V> Iterator for IntoValues<K, V> { type Item = V; fn next(&mut self) -> Option<V> { self.i.next().map(|e| e.1) } }

impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> { type Item = (&'a K, &'a V); type IntoIter = Iter<'a, K, V>; fn into_iter(self) -> Iter<'a, K, V> { self.iter() } }
impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> { type Item = (&'a K, &'a mut V); type IntoIter = IterMut<'a, K, V>; fn into_iter(self) -> IterMut<'a, K, V> { self.iter_mut() } }
impl<K, V, S> IntoIterator for HashMap<K, V, S> { type Item = (K, V); type IntoIter = IntoIter<K, V>; fn into_iter(self) -> IntoIter<K, V> { IntoIter { i: crate::ordered(self.v) } } }
impl<K: Eq + Hash, V, S: BuildHasher + Default> FromIterator<(K, V)> for HashMap<K, V, S> { fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self { let mut m = HashMap { v: Vec::new(), s: PhantomData }; for (k, v) in it { m.insert(k, v); } m } }
impl<K: Eq + Hash, V, S: BuildHasher> Extend<(K, V)> for HashMap<K, V, S> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) { for (k, v) in it { self.insert(k, v); } } }
impl<'a, K: Eq + Hash + Copy, V: Copy, S: BuildHasher> Extend<(&'a K, &'a V)> for HashMap<K, V, S> { fn extend<I: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, it: I) { for (k, v) in it { self.insert(*k, *v); } } }
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V, RandomState> { fn from(a: [(K, V); N]) -> Self { a.into_iter().collect() } }
impl<K, V, S: Default> Default for HashMap<K, V, S> { fn default() -> Self { HashMap { v: Vec::new(), s: PhantomData } } }
impl<K: Clone, V: Clone, S> Clone for HashMap<K, V, S> { fn clone(&self) -> Self { HashMap { v: self.v.clone(), s: PhantomData } } }
impl<K: Eq + Hash, V: PartialEq, S: BuildHasher> PartialEq for HashMap<K, V, S> { fn eq(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).map_or(false, |x| *v == *x)) } }
impl<K: Eq + Hash, V: Eq, S: BuildHasher> Eq for HashMap<K, V, S> {}
impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for HashMap<K, V, S> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_map().entries(self.iter()).finish() } }
impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V, S: BuildHasher> Index<&Q> for HashMap<K, V, S> { type Output = V; fn index(&self, k: &Q) -> &V { self.get(k).expect("no entry found for key") } }
