//! C14: bulk construction equals inserting the items one by one.

use crate::nd::*;
use crate::shapes::*;
use crate::spec::*;
use fixed_map::{Map, Set};

/// Number of items supplied: bounded here, any keys, any values, any order, any
/// repetitions.
const ITEMS: usize = 4;

/// An iterator over up to `ITEMS` arbitrary items, with no useful size hint or an
/// exact one.
struct Items<T> {
    items: [Option<T>; ITEMS],
    at: usize,
    len: usize,
    exact: bool,
}

impl<T: Copy> Iterator for Items<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.at < self.len {
            self.at += 1;
            self.items[self.at - 1]
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.exact {
            (self.len - self.at, Some(self.len - self.at))
        } else {
            (0, None)
        }
    }
}

/// `ensures` the view after collecting is: last item of each key wins.
pub fn map<K: Shape, const N: usize>() {
    let len = any_below(ITEMS + 1);
    let mut view = [None; N];
    let mut items = [None; ITEMS];
    each!(n in ITEMS => {
        let i = any_below(N);
        let v = any_u8();
        items[n] = Some((K::nth(i), v));
        if n < len {
            view[i] = Some(v);
        }
    });
    let it = Items { items, at: 0, len, exact: any_bool() };
    let map: Map<K, u8> = it.collect();
    map_is(&map, &view);
    assert!(map.len() == count_map(&view), "collect: nothing else is present");
}

pub fn set<K: Shape, const N: usize>() {
    let len = any_below(ITEMS + 1);
    let mut view = [false; N];
    let mut items = [None; ITEMS];
    each!(n in ITEMS => {
        let i = any_below(N);
        items[n] = Some(K::nth(i));
        if n < len {
            view[i] = true;
        }
    });
    let it = Items { items, at: 0, len, exact: any_bool() };
    let set: Set<K> = it.collect();
    set_is(&set, &view);
    assert!(set.len() == count_set(&view), "collect: nothing else is contained");
}

pub fn array<K: Shape, const N: usize>() {
    let i = [any_below(N), any_below(N), any_below(N)];
    let set = Set::<K>::from([K::nth(i[0]), K::nth(i[1]), K::nth(i[2])]);
    let j = any_below(N);
    assert!(
        set.contains(K::nth(j)) == (i[0] == j || i[1] == j || i[2] == j),
        "from: contains exactly the values of the array"
    );
    let none = Set::<K>::from([]);
    assert!(!none.contains(K::nth(j)), "from: an empty array gives an empty set");
    assert!(none.is_empty(), "from: an empty array gives an empty set");
}

pub fn default<K: Shape, const N: usize>() {
    let map = Map::<K, u8>::default();
    let set = Set::<K>::default();
    map_is::<K, N>(&map, &[None; N]);
    set_is::<K, N>(&set, &[false; N]);
    assert!(map.is_empty() && map.len() == 0, "default: an empty map");
    assert!(set.is_empty() && set.len() == 0, "default: an empty set");
}

/// Collecting what iteration yields rebuilds an equal container.
pub fn rebuild_map<K: Shape, const N: usize>() {
    let view = any_map::<N>();
    let map = map_of::<K, N>(&view);
    let again: Map<K, u8> = map.iter().map(|(k, v)| (k, *v)).collect();
    map_is(&again, &view);
    let again: Map<K, u8> = map.into_iter().collect();
    map_is(&again, &view);
}

pub fn rebuild_set<K: Shape, const N: usize>() {
    let view = any_set::<N>();
    let set = set_of::<K, N>(&view);
    let again: Set<K> = set.iter().collect();
    set_is(&again, &view);
    let again: Set<K> = set.into_iter().collect();
    set_is(&again, &view);
}

macro_rules! small {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        proofs!($name, $K, $N, 6; map, set, array, default);
    };
}
small_shapes!(small);

macro_rules! bits {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        proofs!($name, $K, $N, 6; set, array, default);
    };
}
small_bitsets!(bits);

pub mod rebuild {
    use super::*;
    macro_rules! both {
        ($name:ident, $K:ty, $N:expr, $U:expr) => {
            proofs!($name, $K, $N, $U; rebuild_map, rebuild_set);
        };
    }
    both!(unit3, U3, 3, 5);
    both!(singleton, (), 1, 3);
    both!(boolean, bool, 2, 4);
    both!(opt_boolean, Option<bool>, 3, 5);
    both!(comp_unit, Unit, 3, 5);
    both!(comp_tiny, Tiny, 3, 5);
    proofs!(bits3, B3, 3, 5; rebuild_set);
}

pub mod large_map {
    use super::*;
    macro_rules! large {
        ($name:ident, $K:ty, $N:expr, $U:expr) => {
            proofs!($name, $K, $N, 6; sparse_map, default_large);
        };
    }
    large_maps!(large);
}

pub mod large_set {
    use super::*;
    macro_rules! large {
        ($name:ident, $K:ty, $N:expr, $U:expr) => {
            proofs!($name, $K, $N, 6; sparse_set, default_large_set);
        };
    }
    large_sets!(large);
}

pub fn sparse_map<K: Shape, const N: usize>() {
    let s = Sparse::any(N);
    let items = [s.va.map(|v| (K::nth(s.a), v)), s.vb.map(|v| (K::nth(s.b), v))];
    let map: Map<K, u8> = items.into_iter().flatten().collect();
    let j = any_below(N);
    assert!(map.get(K::nth(j)).copied() == s.get(j), "collect: the last value of a key wins");
}

pub fn sparse_set<K: Shape, const N: usize>() {
    let a = any_below(N);
    let b = any_below(N);
    let set: Set<K> = [K::nth(a), K::nth(b)].into_iter().collect();
    let j = any_below(N);
    assert!(set.contains(K::nth(j)) == (a == j || b == j), "collect: contains exactly the items");
    let set = Set::from([K::nth(a), K::nth(b)]);
    assert!(set.contains(K::nth(j)) == (a == j || b == j), "from: contains exactly the items");
}

pub fn default_large<K: Shape, const N: usize>() {
    let map = Map::<K, u8>::default();
    let j = any_below(N);
    assert!(map.get(K::nth(j)).is_none() && map.is_empty(), "default: an empty map");
}

pub fn default_large_set<K: Shape, const N: usize>() {
    let set = Set::<K>::default();
    let j = any_below(N);
    assert!(!set.contains(K::nth(j)) && set.is_empty(), "default: an empty set");
}
