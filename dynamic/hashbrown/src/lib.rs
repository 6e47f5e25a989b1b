//! The contract which is assumed of hashbrown 0.13: a finite map and set with an
//! unspecified iteration order.
//!
//! This stands in for the dependency, not for code in /repo. It holds at most
//! `CAP` entries in slots. The order in which slots are taken and visited is
//! chosen by `order`, which the contracts quantify over.

use core::sync::atomic::{AtomicBool, Ordering::Relaxed};

pub const CAP: usize = 3;

static ORDER: AtomicBool = AtomicBool::new(false);

/// Chooses the order: from the first or from the last slot.
pub fn order(reversed: bool) {
    ORDER.store(reversed, Relaxed);
}

fn slot(i: usize) -> usize {
    if ORDER.load(Relaxed) {
        CAP - 1 - i
    } else {
        i
    }
}

pub mod hash_map {
    use super::*;
    use core::hash::Hash;

    #[derive(Clone, Copy, Default)]
    pub struct DefaultHashBuilder;

    pub struct HashMap<K, V, S = DefaultHashBuilder> {
        pub(crate) at: [Option<(K, V)>; CAP],
        build: core::marker::PhantomData<S>,
    }

    impl<K: Clone, V: Clone, S> Clone for HashMap<K, V, S> {
        fn clone(&self) -> Self {
            HashMap { at: self.at.clone(), build: self.build }
        }
    }

    impl<K, V> HashMap<K, V, DefaultHashBuilder> {
        pub fn new() -> Self {
            HashMap {
                at: [const { None }; CAP],
                build: core::marker::PhantomData,
            }
        }
        pub fn with_capacity(_: usize) -> Self {
            Self::new()
        }
    }

    impl<K, V> Default for HashMap<K, V, DefaultHashBuilder> {
        fn default() -> Self {
            Self::new()
        }
    }

    impl<K, V, S> HashMap<K, V, S> {
        fn free(&self) -> usize {
            for i in 0..CAP {
                if self.at[slot(i)].is_none() {
                    return slot(i);
                }
            }
            panic!("assumed contract: at most CAP entries");
        }
        pub fn len(&self) -> usize {
            self.at.iter().filter(|e| e.is_some()).count()
        }
        pub fn is_empty(&self) -> bool {
            self.at.iter().all(|e| e.is_none())
        }
        pub fn capacity(&self) -> usize {
            CAP
        }
        pub fn clear(&mut self) {
            self.at = [const { None }; CAP];
        }
        pub fn iter(&self) -> Iter<'_, K, V> {
            Iter { at: &self.at, i: 0 }
        }
        pub fn keys(&self) -> Keys<'_, K, V> {
            Keys { inner: self.iter() }
        }
        pub fn values(&self) -> Values<'_, K, V> {
            Values { inner: self.iter() }
        }
        pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
            let mut left = self.at.each_mut().map(|e| e.as_mut().map(|(k, v)| (&*k, v)));
            if slot(0) != 0 {
                left.reverse();
            }
            IterMut { left, i: 0 }
        }
        pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> {
            ValuesMut { inner: self.iter_mut() }
        }
        pub fn into_keys(self) -> impl Iterator<Item = K> {
            self.into_iter().map(|(k, _)| k)
        }
        pub fn into_values(self) -> impl Iterator<Item = V> {
            self.into_iter().map(|(_, v)| v)
        }
        pub fn drain(&mut self) -> IntoIter<K, V> {
            IntoIter { left: core::mem::replace(&mut self.at, [const { None }; CAP]), i: 0 }
        }
        pub fn retain<F>(&mut self, mut f: F)
        where
            F: FnMut(&K, &mut V) -> bool,
        {
            for i in 0..CAP {
                let e = &mut self.at[slot(i)];
                let keep = match e {
                    Some((k, v)) => f(k, v),
                    None => true,
                };
                if !keep {
                    *e = None;
                }
            }
        }
    }

    impl<K: Eq + Hash, V, S> HashMap<K, V, S> {
        fn find(&self, key: &K) -> Option<usize> {
            for i in 0..CAP {
                if let Some((k, _)) = &self.at[i] {
                    if k == key {
                        return Some(i);
                    }
                }
            }
            None
        }
        pub fn insert(&mut self, key: K, value: V) -> Option<V> {
            match self.find(&key) {
                Some(i) => self.at[i].as_mut().map(|(_, v)| core::mem::replace(v, value)),
                None => {
                    let i = self.free();
                    self.at[i] = Some((key, value));
                    None
                }
            }
        }
        pub fn contains_key(&self, key: &K) -> bool {
            self.find(key).is_some()
        }
        pub fn get(&self, key: &K) -> Option<&V> {
            let i = self.find(key)?;
            self.at[i].as_ref().map(|(_, v)| v)
        }
        pub fn get_mut(&mut self, key: &K) -> Option<&mut V> {
            let i = self.find(key)?;
            self.at[i].as_mut().map(|(_, v)| v)
        }
        pub fn get_key_value(&self, key: &K) -> Option<(&K, &V)> {
            let i = self.find(key)?;
            self.at[i].as_ref().map(|(k, v)| (k, v))
        }
        pub fn remove(&mut self, key: &K) -> Option<V> {
            self.remove_entry(key).map(|(_, v)| v)
        }
        pub fn remove_entry(&mut self, key: &K) -> Option<(K, V)> {
            let i = self.find(key)?;
            self.at[i].take()
        }
        pub fn reserve(&mut self, _: usize) {}
        pub fn shrink_to_fit(&mut self) {}
        pub fn entry(&mut self, key: K) -> Entry<'_, K, V, S> {
            match self.find(&key) {
                Some(i) => Entry::Occupied(OccupiedEntry { map: self, i }),
                None => Entry::Vacant(VacantEntry { map: self, key }),
            }
        }
    }

    impl<K: Eq + Hash, V: PartialEq, S> PartialEq for HashMap<K, V, S> {
        fn eq(&self, other: &Self) -> bool {
            self.len() == other.len()
                && self.iter().all(|(k, v)| other.get(k).map_or(false, |w| *v == *w))
        }
    }
    impl<K: Eq + Hash, V: Eq, S> Eq for HashMap<K, V, S> {}

    pub enum Entry<'a, K, V, S = DefaultHashBuilder> {
        Occupied(OccupiedEntry<'a, K, V, S>),
        Vacant(VacantEntry<'a, K, V, S>),
    }

    impl<'a, K: Hash, V, S> Entry<'a, K, V, S> {
        pub fn key(&self) -> &K {
            match self {
                Entry::Occupied(e) => e.key(),
                Entry::Vacant(e) => e.key(),
            }
        }
        pub fn or_insert(self, value: V) -> &'a mut V {
            self.or_insert_with(|| value)
        }
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
            match self {
                Entry::Occupied(e) => e.into_mut(),
                Entry::Vacant(e) => e.insert(f()),
            }
        }
        pub fn or_default(self) -> &'a mut V
        where
            V: Default,
        {
            self.or_insert_with(V::default)
        }
        pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
            if let Entry::Occupied(e) = &mut self {
                f(e.get_mut());
            }
            self
        }
    }

    pub struct OccupiedEntry<'a, K, V, S = DefaultHashBuilder> {
        map: &'a mut HashMap<K, V, S>,
        i: usize,
    }

    impl<'a, K, V, S> OccupiedEntry<'a, K, V, S> {
        pub fn key(&self) -> &K {
            match &self.map.at[self.i] {
                Some((k, _)) => k,
                None => unreachable!(),
            }
        }
        pub fn get(&self) -> &V {
            match &self.map.at[self.i] {
                Some((_, v)) => v,
                None => unreachable!(),
            }
        }
        pub fn get_mut(&mut self) -> &mut V {
            match &mut self.map.at[self.i] {
                Some((_, v)) => v,
                None => unreachable!(),
            }
        }
        pub fn into_mut(self) -> &'a mut V {
            match &mut self.map.at[self.i] {
                Some((_, v)) => v,
                None => unreachable!(),
            }
        }
        pub fn insert(&mut self, value: V) -> V {
            core::mem::replace(self.get_mut(), value)
        }
        pub fn remove(self) -> V {
            self.remove_entry().1
        }
        pub fn remove_entry(self) -> (K, V) {
            match self.map.at[self.i].take() {
                Some(e) => e,
                None => unreachable!(),
            }
        }
    }

    pub struct VacantEntry<'a, K, V, S = DefaultHashBuilder> {
        map: &'a mut HashMap<K, V, S>,
        key: K,
    }

    impl<'a, K: Hash, V, S> VacantEntry<'a, K, V, S> {
        pub fn insert(self, value: V) -> &'a mut V {
            let i = self.map.free();
            let (_, v) = self.map.at[i].insert((self.key, value));
            v
        }
    }
    impl<'a, K, V, S> VacantEntry<'a, K, V, S> {
        pub fn key(&self) -> &K {
            &self.key
        }
        pub fn into_key(self) -> K {
            self.key
        }
    }

    pub struct Iter<'a, K, V> {
        at: &'a [Option<(K, V)>; CAP],
        i: usize,
    }
    impl<K, V> Clone for Iter<'_, K, V> {
        fn clone(&self) -> Self {
            Iter { at: self.at, i: self.i }
        }
    }
    impl<'a, K, V> Iterator for Iter<'a, K, V> {
        type Item = (&'a K, &'a V);
        fn next(&mut self) -> Option<Self::Item> {
            while self.i < CAP {
                self.i += 1;
                if let Some((k, v)) = &self.at[slot(self.i - 1)] {
                    return Some((k, v));
                }
            }
            None
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            let n = self.clone().count();
            (n, Some(n))
        }
    }
    impl<K, V> ExactSizeIterator for Iter<'_, K, V> {}

    pub struct Keys<'a, K, V> {
        inner: Iter<'a, K, V>,
    }
    impl<K, V> Clone for Keys<'_, K, V> {
        fn clone(&self) -> Self {
            Keys { inner: self.inner.clone() }
        }
    }
    impl<'a, K, V> Iterator for Keys<'a, K, V> {
        type Item = &'a K;
        fn next(&mut self) -> Option<&'a K> {
            self.inner.next().map(|(k, _)| k)
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.inner.size_hint()
        }
    }
    impl<K, V> ExactSizeIterator for Keys<'_, K, V> {}

    pub struct Values<'a, K, V> {
        inner: Iter<'a, K, V>,
    }
    impl<K, V> Clone for Values<'_, K, V> {
        fn clone(&self) -> Self {
            Values { inner: self.inner.clone() }
        }
    }
    impl<'a, K, V> Iterator for Values<'a, K, V> {
        type Item = &'a V;
        fn next(&mut self) -> Option<&'a V> {
            self.inner.next().map(|(_, v)| v)
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.inner.size_hint()
        }
    }
    impl<K, V> ExactSizeIterator for Values<'_, K, V> {}

    pub struct IterMut<'a, K, V> {
        left: [Option<(&'a K, &'a mut V)>; CAP],
        i: usize,
    }
    impl<'a, K, V> Iterator for IterMut<'a, K, V> {
        type Item = (&'a K, &'a mut V);
        fn next(&mut self) -> Option<Self::Item> {
            while self.i < CAP {
                self.i += 1;
                if let Some(e) = self.left[self.i - 1].take() {
                    return Some(e);
                }
            }
            None
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            let n = self.left.iter().filter(|e| e.is_some()).count();
            (n, Some(n))
        }
    }
    impl<K, V> ExactSizeIterator for IterMut<'_, K, V> {}

    pub struct ValuesMut<'a, K, V> {
        inner: IterMut<'a, K, V>,
    }
    impl<'a, K, V> Iterator for ValuesMut<'a, K, V> {
        type Item = &'a mut V;
        fn next(&mut self) -> Option<&'a mut V> {
            self.inner.next().map(|(_, v)| v)
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.inner.size_hint()
        }
    }
    impl<K, V> ExactSizeIterator for ValuesMut<'_, K, V> {}

    pub struct IntoIter<K, V> {
        left: [Option<(K, V)>; CAP],
        i: usize,
    }
    impl<K, V> Iterator for IntoIter<K, V> {
        type Item = (K, V);
        fn next(&mut self) -> Option<(K, V)> {
            while self.i < CAP {
                self.i += 1;
                if let Some(e) = self.left[slot(self.i - 1)].take() {
                    return Some(e);
                }
            }
            None
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            let n = self.left.iter().filter(|e| e.is_some()).count();
            (n, Some(n))
        }
    }
    impl<K, V> ExactSizeIterator for IntoIter<K, V> {}

    impl<K, V, S> IntoIterator for HashMap<K, V, S> {
        type Item = (K, V);
        type IntoIter = IntoIter<K, V>;
        fn into_iter(self) -> IntoIter<K, V> {
            IntoIter { left: self.at, i: 0 }
        }
    }
    impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
        type Item = (&'a K, &'a V);
        type IntoIter = Iter<'a, K, V>;
        fn into_iter(self) -> Iter<'a, K, V> {
            self.iter()
        }
    }
    impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
        type Item = (&'a K, &'a mut V);
        type IntoIter = IterMut<'a, K, V>;
        fn into_iter(self) -> IterMut<'a, K, V> {
            self.iter_mut()
        }
    }
    impl<K: Eq + Hash, V> Extend<(K, V)> for HashMap<K, V> {
        fn extend<T: IntoIterator<Item = (K, V)>>(&mut self, iter: T) {
            for (k, v) in iter {
                self.insert(k, v);
            }
        }
    }
    impl<K: Eq + Hash, V> FromIterator<(K, V)> for HashMap<K, V> {
        fn from_iter<T: IntoIterator<Item = (K, V)>>(iter: T) -> Self {
            let mut map = HashMap::new();
            map.extend(iter);
            map
        }
    }
}

pub mod hash_set {
    use super::*;
    use crate::hash_map::{DefaultHashBuilder, HashMap};
    use core::hash::Hash;

    pub struct HashSet<T, S = DefaultHashBuilder> {
        map: HashMap<T, (), S>,
    }

    impl<T: Clone, S> Clone for HashSet<T, S> {
        fn clone(&self) -> Self {
            HashSet { map: self.map.clone() }
        }
    }

    impl<T> HashSet<T> {
        pub fn new() -> Self {
            HashSet { map: HashMap::new() }
        }
        pub fn with_capacity(_: usize) -> Self {
            Self::new()
        }
    }
    impl<T> Default for HashSet<T> {
        fn default() -> Self {
            Self::new()
        }
    }

    impl<T, S> HashSet<T, S> {
        pub fn len(&self) -> usize {
            self.map.len()
        }
        pub fn is_empty(&self) -> bool {
            self.map.is_empty()
        }
        pub fn clear(&mut self) {
            self.map.clear()
        }
        pub fn iter(&self) -> Iter<'_, T> {
            Iter { at: &self.map.at, i: 0 }
        }
        pub fn capacity(&self) -> usize {
            CAP
        }
        pub fn shrink_to_fit(&mut self) {}
        pub fn drain(&mut self) -> impl Iterator<Item = T> {
            self.map.drain().map(|(k, _)| k)
        }
        pub fn retain<F>(&mut self, mut f: F)
        where
            F: FnMut(&T) -> bool,
        {
            self.map.retain(|k, _| f(k))
        }
    }

    impl<T: Eq + Hash, S> HashSet<T, S> {
        pub fn reserve(&mut self, _: usize) {}
        pub fn get_or_insert(&mut self, value: T) -> &T
        where
            T: Clone,
        {
            if !self.contains(&value) {
                self.insert(value.clone());
            }
            self.get(&value).unwrap()
        }
        pub fn insert(&mut self, value: T) -> bool {
            self.map.insert(value, ()).is_none()
        }
        pub fn replace(&mut self, value: T) -> Option<T> {
            let old = self.map.remove_entry(&value).map(|(k, _)| k);
            self.map.insert(value, ());
            old
        }
        pub fn contains(&self, value: &T) -> bool {
            self.map.contains_key(value)
        }
        pub fn get(&self, value: &T) -> Option<&T> {
            self.map.get_key_value(value).map(|(k, _)| k)
        }
        pub fn remove(&mut self, value: &T) -> bool {
            self.map.remove(value).is_some()
        }
        pub fn take(&mut self, value: &T) -> Option<T> {
            self.map.remove_entry(value).map(|(k, _)| k)
        }
    }

    impl<T: Eq + Hash, S> PartialEq for HashSet<T, S> {
        fn eq(&self, other: &Self) -> bool {
            self.len() == other.len() && self.iter().all(|k| other.contains(k))
        }
    }
    impl<T: Eq + Hash, S> Eq for HashSet<T, S> {}

    pub struct Iter<'a, T> {
        at: &'a [Option<(T, ())>; CAP],
        i: usize,
    }
    impl<T> Clone for Iter<'_, T> {
        fn clone(&self) -> Self {
            Iter { at: self.at, i: self.i }
        }
    }
    impl<'a, T> Iterator for Iter<'a, T> {
        type Item = &'a T;
        fn next(&mut self) -> Option<&'a T> {
            while self.i < CAP {
                self.i += 1;
                if let Some((k, _)) = &self.at[slot(self.i - 1)] {
                    return Some(k);
                }
            }
            None
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            let n = self.clone().count();
            (n, Some(n))
        }
    }
    impl<T> ExactSizeIterator for Iter<'_, T> {}

    pub struct IntoIter<T> {
        inner: crate::hash_map::IntoIter<T, ()>,
    }
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.inner.next().map(|(k, _)| k)
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.inner.size_hint()
        }
    }
    impl<T> ExactSizeIterator for IntoIter<T> {}

    impl<T, S> IntoIterator for HashSet<T, S> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter { inner: self.map.into_iter() }
        }
    }
    impl<'a, T, S> IntoIterator for &'a HashSet<T, S> {
        type Item = &'a T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Iter<'a, T> {
            self.iter()
        }
    }
    impl<T: Eq + Hash> Extend<T> for HashSet<T> {
        fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
            for k in iter {
                self.insert(k);
            }
        }
    }
    impl<T: Eq + Hash> FromIterator<T> for HashSet<T> {
        fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
            let mut set = HashSet::new();
            set.extend(iter);
            set
        }
    }
}

pub use hash_map::HashMap;
pub use hash_set::HashSet;
