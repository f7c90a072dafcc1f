//! Two-way map with the interface of the `bimap` crate.
use std::{collections::HashMap, hash::Hash};
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Overwritten<L, R> {
    Neither,
    Left(L, R),
    Right(L, R),
    Pair(L, R),
    Both((L, R), (L, R)),
}
#[derive(Clone, Debug)]
pub struct BiHashMap<L, R> {
    l: HashMap<L, R>,
    r: HashMap<R, L>,
}
pub type BiMap<L, R> = BiHashMap<L, R>;
impl<L: Eq + Hash, R: Eq + Hash> Default for BiHashMap<L, R> {
    fn default() -> Self {
        Self { l: HashMap::new(), r: HashMap::new() }
    }
}
impl<L: Eq + Hash + Clone, R: Eq + Hash + Clone> PartialEq for BiHashMap<L, R> {
    fn eq(&self, o: &Self) -> bool {
        self.l == o.l
    }
}
impl<L: Eq + Hash + Clone, R: Eq + Hash + Clone> Eq for BiHashMap<L, R> {}
impl<L: Eq + Hash + Clone, R: Eq + Hash + Clone> BiHashMap<L, R> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn len(&self) -> usize {
        self.l.len()
    }
    pub fn is_empty(&self) -> bool {
        self.l.is_empty()
    }
    pub fn get_by_left<Q: ?Sized + Eq + Hash>(&self, l: &Q) -> Option<&R>
    where
        L: std::borrow::Borrow<Q>,
    {
        self.l.get(l)
    }
    pub fn get_by_right<Q: ?Sized + Eq + Hash>(&self, r: &Q) -> Option<&L>
    where
        R: std::borrow::Borrow<Q>,
    {
        self.r.get(r)
    }
    pub fn contains_left<Q: ?Sized + Eq + Hash>(&self, l: &Q) -> bool
    where
        L: std::borrow::Borrow<Q>,
    {
        self.l.contains_key(l)
    }
    pub fn contains_right<Q: ?Sized + Eq + Hash>(&self, r: &Q) -> bool
    where
        R: std::borrow::Borrow<Q>,
    {
        self.r.contains_key(r)
    }
    pub fn remove_by_left(&mut self, l: &L) -> Option<(L, R)> {
        let (l, r) = self.l.remove_entry(l)?;
        self.r.remove(&r);
        Some((l, r))
    }
    pub fn remove_by_right(&mut self, r: &R) -> Option<(L, R)> {
        let (r, l) = self.r.remove_entry(r)?;
        self.l.remove(&l);
        Some((l, r))
    }
    pub fn insert(&mut self, l: L, r: R) -> Overwritten<L, R> {
        let out = match (self.remove_by_left(&l), self.remove_by_right(&r)) {
            (None, None) => Overwritten::Neither,
            (None, Some((a, b))) => Overwritten::Right(a, b),
            (Some((a, b)), None) if b == r => Overwritten::Pair(a, b),
            (Some((a, b)), None) => Overwritten::Left(a, b),
            (Some(x), Some(y)) => Overwritten::Both(x, y),
        };
        self.l.insert(l.clone(), r.clone());
        self.r.insert(r, l);
        out
    }
    pub fn iter(&self) -> impl Iterator<Item = (&L, &R)> {
        self.l.iter()
    }
    pub fn left_values(&self) -> impl Iterator<Item = &L> {
        self.l.keys()
    }
    pub fn right_values(&self) -> impl Iterator<Item = &R> {
        self.l.values()
    }
}
impl<L: Eq + Hash + Clone, R: Eq + Hash + Clone> FromIterator<(L, R)> for BiHashMap<L, R> {
    fn from_iter<I: IntoIterator<Item = (L, R)>>(i: I) -> Self {
        let mut m = Self::new();
        for (l, r) in i {
            m.insert(l, r);
        }
        m
    }
}
impl<'a, L: Eq + Hash, R: Eq + Hash> IntoIterator for &'a BiHashMap<L, R> {
    type Item = (&'a L, &'a R);
    type IntoIter = std::collections::hash_map::Iter<'a, L, R>;
    fn into_iter(self) -> Self::IntoIter {
        self.l.iter()
    }
}
