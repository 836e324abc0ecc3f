//! Stands in for `std::collections` in the mechanical copies verified by Kani: `HashMap` by its
//! contract (a finite map; the order of iteration is unspecified), as a list of entries.  Proofs run
//! with both orders of iteration (`GHOST_REVERSED`).  Everything else is the real std.
pub use std::collections::*;
use std::marker::PhantomData;

pub static mut GHOST_REVERSED: bool = false;

pub struct RandomState;

pub struct HashMap<K, V, S = RandomState> {
  list: Vec<(K, V)>,
  s: PhantomData<S>
}

impl<K: Eq, V> HashMap<K, V> {
  pub fn new() -> Self {
    HashMap { list: Vec::with_capacity(4), s: PhantomData }
  }
  pub fn with_capacity(n: usize) -> Self {
    HashMap { list: Vec::with_capacity(n), s: PhantomData }
  }
  fn at(&self, k: &K) -> Option<usize> {
    let mut i = 0;
    while i < self.list.len() {
      if self.list[i].0 == *k {
        return Some(i);
      }
      i += 1;
    }
    None
  }
  pub fn insert(&mut self, k: K, v: V) -> Option<V> {
    match self.at(&k) {
      Some(i) => Some(std::mem::replace(&mut self.list[i].1, v)),
      None => {
        if unsafe { GHOST_REVERSED } {
          self.list.insert(0, (k, v));
        } else {
          self.list.push((k, v));
        }
        None
      }
    }
  }
  pub fn get(&self, k: &K) -> Option<&V> {
    match self.at(k) {
      Some(i) => Some(&self.list[i].1),
      None => None
    }
  }
  pub fn get_mut(&mut self, k: &K) -> Option<&mut V> {
    match self.at(k) {
      Some(i) => Some(&mut self.list[i].1),
      None => None
    }
  }
  pub fn contains_key(&self, k: &K) -> bool {
    self.at(k).is_some()
  }
  pub fn remove(&mut self, k: &K) -> Option<V> {
    match self.at(k) {
      Some(i) => Some(self.list.remove(i).1),
      None => None
    }
  }
  pub fn len(&self) -> usize {
    self.list.len()
  }
  pub fn is_empty(&self) -> bool {
    self.list.is_empty()
  }
  pub fn iter(&self) -> Iter<'_, K, V> {
    Iter(self.list.iter())
  }
  pub fn keys(&self) -> Keys<'_, K, V> {
    Keys(self.list.iter())
  }
  pub fn values(&self) -> Values<'_, K, V> {
    Values(self.list.iter())
  }
  pub fn clear(&mut self) {
    self.list.clear()
  }
}

pub struct Iter<'a, K, V>(std::slice::Iter<'a, (K, V)>);
impl<'a, K, V> Iterator for Iter<'a, K, V> {
  type Item = (&'a K, &'a V);
  fn next(&mut self) -> Option<Self::Item> {
    self.0.next().map(|e| (&e.0, &e.1))
  }
  fn size_hint(&self) -> (usize, Option<usize>) {
    self.0.size_hint()
  }
}
impl<'a, K, V> ExactSizeIterator for Iter<'a, K, V> {}
pub struct Keys<'a, K, V>(std::slice::Iter<'a, (K, V)>);
impl<'a, K, V> Iterator for Keys<'a, K, V> {
  type Item = &'a K;
  fn next(&mut self) -> Option<Self::Item> {
    self.0.next().map(|e| &e.0)
  }
  fn size_hint(&self) -> (usize, Option<usize>) {
    self.0.size_hint()
  }
}
impl<'a, K, V> ExactSizeIterator for Keys<'a, K, V> {}
pub struct Values<'a, K, V>(std::slice::Iter<'a, (K, V)>);
impl<'a, K, V> Iterator for Values<'a, K, V> {
  type Item = &'a V;
  fn next(&mut self) -> Option<Self::Item> {
    self.0.next().map(|e| &e.1)
  }
  fn size_hint(&self) -> (usize, Option<usize>) {
    self.0.size_hint()
  }
}
impl<'a, K, V> ExactSizeIterator for Values<'a, K, V> {}
impl<K, V> IntoIterator for HashMap<K, V> {
  type Item = (K, V);
  type IntoIter = std::vec::IntoIter<(K, V)>;
  fn into_iter(self) -> Self::IntoIter {
    self.list.into_iter()
  }
}
impl<'a, K: Eq, V> IntoIterator for &'a HashMap<K, V> {
  type Item = (&'a K, &'a V);
  type IntoIter = Iter<'a, K, V>;
  fn into_iter(self) -> Self::IntoIter {
    self.iter()
  }
}
impl<K: Eq, V> std::iter::FromIterator<(K, V)> for HashMap<K, V> {
  fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self {
    let mut m = HashMap::new();
    for (k, v) in i {
      m.insert(k, v);
    }
    m
  }
}
impl<K: Eq, V> Extend<(K, V)> for HashMap<K, V> {
  fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) {
    for (k, v) in i {
      self.insert(k, v);
    }
  }
}
impl<K: Clone, V: Clone> Clone for HashMap<K, V> {
  fn clone(&self) -> Self {
    HashMap { list: self.list.clone(), s: PhantomData }
  }
}
impl<K: Eq, V> Default for HashMap<K, V> {
  fn default() -> Self {
    HashMap::new()
  }
}
impl<K: std::fmt::Debug, V: std::fmt::Debug> std::fmt::Debug for HashMap<K, V> {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_map().entries(self.list.iter().map(|e| (&e.0, &e.1))).finish()
  }
}
impl<'a, K: Eq, V> std::ops::Index<&'a K> for HashMap<K, V> {
  type Output = V;
  fn index(&self, k: &'a K) -> &V {
    self.get(k).expect("no entry found for key")
  }
}
