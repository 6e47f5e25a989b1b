//! C03: length and emptiness agree with the contents.

use crate::nd::*;
use crate::shapes::*;
use crate::spec::*;
use fixed_map::{Map, Set};

/// In every state.
pub fn map<K: Shape, const N: usize>() {
    let view = any_map::<N>();
    let map = map_of::<K, N>(&view);
    map_size::<K, N>(&map);
    assert!(map.len() == count_map(&view), "len: number of distinct keys inserted");
}

/// After every operation.
pub fn map_after<K: Shape, const N: usize>() {
    let mut view = any_map::<N>();
    let mut map = map_of::<K, N>(&view);
    map_step(&mut map, &mut view);
    map_size::<K, N>(&map);
    assert!(map.len() == count_map(&view), "len: number of keys left by the operation");
}

pub fn set<K: Shape, const N: usize>() {
    let view = any_set::<N>();
    let set = set_of::<K, N>(&view);
    set_size::<K, N>(&set);
    assert!(set.len() == count_set(&view), "len: number of distinct values inserted");
}

pub fn set_after<K: Shape, const N: usize>() {
    let mut view = any_set::<N>();
    let mut set = set_of::<K, N>(&view);
    set_step(&mut set, &mut view);
    set_size::<K, N>(&set);
    assert!(set.len() == count_set(&view), "len: number of values left by the operation");
}

pub fn fresh<K: Shape, const N: usize>() {
    map_size::<K, N>(&Map::<K, u8>::new());
    set_size::<K, N>(&Set::<K>::new());
}

macro_rules! small {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        proofs!($name, $K, $N, $U; map, map_after, set, set_after, fresh);
    };
}
small_shapes!(small);
macro_rules! bits {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        proofs!($name, $K, $N, $U; set, set_after);
    };
}
small_bitsets!(bits);
proofs!(deep, Deep, 10, 12; map, set, set_after);
proofs!(empty, U0, 0, 3; fresh);

/// Large keys with at most two entries.
pub fn any_map_len<K: Shape, const N: usize>() {
    let (map, view) = dense_map::<K, N>();
    let mut n = 0;
    let mut i = 0;
    while i < N {
        n += view[i].is_some() as usize;
        i += 1;
    }
    assert!(map.len() == n, "len: equals the number of present keys");
    assert!(map.is_empty() == (n == 0), "is_empty: iff no key is present");
}

pub fn any_set_len<K: Shape, const N: usize>() {
    let (set, view) = dense_set::<K, N>();
    let mut n = 0;
    let mut i = 0;
    while i < N {
        n += view[i] as usize;
        i += 1;
    }
    assert!(set.len() == n, "len: equals the number of contained values");
    assert!(set.is_empty() == (n == 0), "is_empty: iff nothing is contained");
}

/// All keys but one present.
pub fn full_set<K: Shape, const N: usize>() {
    let c = any_below(N);
    let mut set = Set::<K>::new();
    let mut i = 0;
    while i < N {
        set.insert(K::nth(i));
        i += 1;
    }
    assert!(set.len() == N && !set.is_empty(), "len: number of distinct values inserted");
    set.remove(K::nth(c));
    assert!(set.len() == N - 1, "len: one less after removing a contained value");
}

pub fn full_map<K: Shape, const N: usize>() {
    let c = any_below(N);
    let mut map = Map::<K, u8>::new();
    let mut i = 0;
    while i < N {
        map.insert(K::nth(i), 7);
        i += 1;
    }
    assert!(map.len() == N && !map.is_empty(), "len: number of distinct keys inserted");
    map.remove(K::nth(c));
    assert!(map.len() == N - 1, "len: one less after removing a present key");
}

macro_rules! large_m {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        proofs!($name, $K, $N, $U; any_map_len, full_map);
    };
}
pub mod large_map {
    use super::*;
    large_maps!(large_m);
}
macro_rules! large_s {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        proofs!($name, $K, $N, $U; any_set_len, full_set);
    };
}
pub mod large_set {
    use super::*;
    large_sets!(large_s);
}
/// More keys than a byte counts: every key present.
#[cfg(feature = "thorough")]
pub fn all_set<K: Shape, const N: usize>() {
    let mut set = Set::<K>::new();
    let mut i = 0;
    while i < N {
        set.insert(K::nth(i));
        i += 1;
    }
    assert!(set.len() == N && !set.is_empty(), "len: number of distinct values inserted");
}

#[cfg(feature = "thorough")]
pub fn all_map<K: Shape, const N: usize>() {
    let mut map = Map::<K, ()>::new();
    let mut i = 0;
    while i < N {
        map.insert(K::nth(i), ());
        i += 1;
    }
    assert!(map.len() == N && !map.is_empty(), "len: number of distinct keys inserted");
}
#[cfg(feature = "thorough")]
proofs!(unit260, U260, 260, 262; all_set, all_map);
