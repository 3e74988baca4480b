use ::std::borrow::Borrow;
use ::std::collections::hash_map::RandomState;
use ::std::fmt;
use ::std::hash::{BuildHasher, Hash};
use ::std::iter::FusedIterator;
use ::std::marker::PhantomData;
use ::std::ops::{BitAnd, BitOr, BitXor, Sub};

pub struct HashSet<T, S = RandomState> { pub(crate) v: Vec<T>, s: PhantomData<S> }
impl<T> HashSet<T, RandomState> {
    pub fn new() -> Self { HashSet { v: Vec::new(), s: PhantomData } }
    pub fn with_capacity(_n: usize) -> Self { Self::new() }
}
impl<T, S> HashSet<T, S> {
    pub fn with_hasher(_h: S) -> Self { HashSet { v: Vec::new(), s: PhantomData } }
    pub fn capacity(&self) -> usize { self.v.capacity() }
    pub fn len(&self) -> usize { self.v.len() }
    pub fn is_empty(&self) -> bool { self.v.is_empty() }
    pub fn clear(&mut self) { self.v.clear() }
    pub fn iter(&self) -> Iter<'_, T> { Iter { i: crate::ordered(self.v.iter().collect()) } }
    pub fn drain(&mut self) -> Drain<'_, T> { Drain { i: crate::ordered(::std::mem::take(&mut self.v)), p: PhantomData } }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) { self.v.retain(f) }
}
impl<T: Eq + Hash, S: BuildHasher> HashSet<T, S> {
    pub fn reserve(&mut self, _n: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    fn pos<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<usize> where T: Borrow<Q> {
        let mut i = 0;
        while i < self.v.len() { if self.v[i].borrow() == k { return Some(i); } i += 1; }
        None
    }
    pub fn contains<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool where T: Borrow<Q> { self.pos(k).is_some() }
    pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&T> where T: Borrow<Q> { match self.pos(k) { Some(i) => Some(&self.v[i]), None => None } }
    pub fn insert(&mut self, k: T) -> bool { match self.pos(&k) { Some(_) => false, None => { self.v.push(k); true } } }
    pub fn replace(&mut self, k: T) -> Option<T> { match self.pos(&k) { Some(i) => Some(::std::mem::replace(&mut self.v[i], k)), None => { self.v.push(k); None } } }
    pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> bool where T: Borrow<Q> { match self.pos(k) { Some(i) => { self.v.remove(i); true } None => false } }
    pub fn take<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<T> where T: Borrow<Q> { match self.pos(k) { Some(i) => Some(self.v.remove(i)), None => None } }
    pub fn is_subset(&self, o: &Self) -> bool { self.v.iter().all(|x| o.contains(x)) }
    pub fn is_superset(&self, o: &Self) -> bool { o.is_subset(self) }
    pub fn is_disjoint(&self, o: &Self) -> bool { !self.v.iter().any(|x| o.contains(x)) }
    pub fn union<'a>(&'a self, o: &'a Self) -> ::std::vec::IntoIter<&'a T> { let mut r: Vec<&'a T> = self.v.iter().collect(); for x in o.v.iter() { if !self.contains(x) { r.push(x); } } crate::ordered(r) }
    pub fn intersection<'a>(&'a self, o: &'a Self) -> ::std::vec::IntoIter<&'a T> { crate::ordered(self.v.iter().filter(|x| o.contains(*x)).collect()) }
    pub fn difference<'a>(&'a self, o: &'a Self) -> ::std::vec::IntoIter<&'a T> { crate::ordered(self.v.iter().filter(|x| !o.contains(*x)).collect()) }
    pub fn symmetric_difference<'a>(&'a self, o: &'a Self) -> ::std::vec::IntoIter<&'a T> { let mut r: Vec<&'a T> = self.v.iter().filter(|x| !o.contains(*x)).collect(); r.extend(o.v.iter().filter(|x| !self.contains(*x))); crate::ordered(r) }
}
pub struct Iter<'a, T> { i: ::std::vec::IntoIter<&'a T> }
impl<'a, T> Clone for Iter<'a, T> { fn clone(&self) -> Self { Iter { i: self.i.clone() } } }
impl<'a, T> Iterator for Iter<'a, T> { type Item = &'a T; fn next(&mut self) -> Option<&'a T> { self.i.next() } fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() } }
impl<'a, T> ExactSizeIterator for Iter<'a, T> {}
impl<'a, T> FusedIterator for Iter<'a, T> {}
pub struct IntoIter<T> { i: ::std::vec::IntoIter<T> }
impl<T> Iterator for IntoIter<T> { type Item = T; fn next(&mut self) -> Option<T> { self.i.next() } fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() } }
impl<T> ExactSizeIterator for IntoIter<T> {}
pub struct Drain<'a, T> { i: ::std::vec::IntoIter<T>, p: PhantomData<&'a ()> }
impl<'a, T> Iterator for Drain<'a, T> { type Item = T; fn next(&mut self) -> Option<T> { self.i.next() } }
impl<'a, T, S> IntoIterator for &'a HashSet<T, S> { type Item = &'a T; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Iter<'a, T> { self.iter() } }
impl<T, S> IntoIterator for HashSet<T, S> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter { i: crate::ordered(self.v) } } }
impl<T: Eq + Hash, S: BuildHasher + Default> FromIterator<T> for HashSet<T, S> { fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self { let mut m = HashSet { v: Vec::new(), s: PhantomData }; for k in it { m.insert(k); } m } }
impl<T: Eq + Hash, S: BuildHasher> Extend<T> for HashSet<T, S> { fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) { for k in it { self.insert(k); } } }
impl<'a, T: Eq + Hash + Copy + 'a, S: BuildHasher> Extend<&'a T> for HashSet<T, S> { fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) { for k in it { self.insert(*k); } } }
impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T, RandomState> { fn from(a: [T; N]) -> Self { a.into_iter().collect() } }
impl<T, S: Default> Default for HashSet<T, S> { fn default() -> Self { HashSet { v: Vec::new(), s: PhantomData } } }
impl<T: Clone, S> Clone for HashSet<T, S> { fn clone(&self) -> Self { HashSet { v: self.v.clone(), s: PhantomData } } }
impl<T: Eq + Hash, S: BuildHasher> PartialEq for HashSet<T, S> { fn eq(&self, o: &Self) -> bool { self.len() == o.len() && self.v.iter().all(|k| o.contains(k)) } }
impl<T: Eq + Hash, S: BuildHasher> Eq for HashSet<T, S> {}
impl<T: fmt::Debug, S> fmt::Debug for HashSet<T, S> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_set().entries(self.iter()).finish() } }
impl<T: Eq + Hash + Clone, S: BuildHasher + Default> BitOr<&HashSet<T, S>> for &HashSet<T, S> { type Output = HashSet<T, S>; fn bitor(self, o: &HashSet<T, S>) -> HashSet<T, S> { self.union(o).cloned().collect() } }
impl<T: Eq + Hash + Clone, S: BuildHasher + Default> BitAnd<&HashSet<T, S>> for &HashSet<T, S> { type Output = HashSet<T, S>; fn bitand(self, o: &HashSet<T, S>) -> HashSet<T, S> { self.intersection(o).cloned().collect() } }
impl<T: Eq + Hash + Clone, S: BuildHasher + Default> BitXor<&HashSet<T, S>> for &HashSet<T, S> { type Output = HashSet<T, S>; fn bitxor(self, o: &HashSet<T, S>) -> HashSet<T, S> { self.symmetric_difference(o).cloned().collect() } }
impl<T: Eq + Hash + Clone, S: BuildHasher + Default> Sub<&HashSet<T, S>> for &HashSet<T, S> { type Output = HashSet<T, S>; fn sub(self, o: &HashSet<T, S>) -> HashSet<T, S> { self.difference(o).cloned().collect() } }
