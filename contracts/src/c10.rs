//! C10: equality means equal contents, and clones are equal and independent.

use crate::nd::*;
use crate::shapes::*;
use crate::spec::*;
use fixed_map::{Map, Set};

fn same_map<const N: usize>(a: &MapView<N>, b: &MapView<N>) -> bool {
    let mut same = true;
    each!(i in N => {
        same = same && a[i] == b[i];
    });
    same
}

fn same_set<const N: usize>(a: &SetView<N>, b: &SetView<N>) -> bool {
    let mut same = true;
    each!(i in N => {
        same = same && a[i] == b[i];
    });
    same
}

/// `ensures a == b iff their views are equal`, after an arbitrary further
/// operation on one of them.
pub fn map_eq<K: Shape, const N: usize>()
where
    Map<K, u8>: PartialEq,
{
    let mut a = any_map::<N>();
    let b = any_map::<N>();
    let mut x = map_of::<K, N>(&a);
    let y = map_of::<K, N>(&b);
    assert!((x == y) == same_map(&a, &b), "eq: iff the contents are equal");
    map_step(&mut x, &mut a);
    assert!((x == y) == same_map(&a, &b), "eq: iff the contents are equal, whatever the history");
    assert!((x != y) == !same_map(&a, &b), "ne: iff the contents differ");
    assert!((y == x) == same_map(&a, &b), "eq: symmetric");
}

pub fn set_eq<K: Shape, const N: usize>()
where
    Set<K>: PartialEq,
{
    let mut a = any_set::<N>();
    let b = any_set::<N>();
    let mut x = set_of::<K, N>(&a);
    let y = set_of::<K, N>(&b);
    assert!((x == y) == same_set(&a, &b), "eq: iff the contents are equal");
    set_step(&mut x, &mut a);
    assert!((x == y) == same_set(&a, &b), "eq: iff the contents are equal, whatever the history");
    assert!((x != y) == !same_set(&a, &b), "ne: iff the contents differ");
    assert!((y == x) == same_set(&a, &b), "eq: symmetric");
}

/// A value which does not always equal itself.
#[derive(Clone, Copy, Debug)]
pub struct Odd(u8);
impl PartialEq for Odd {
    fn eq(&self, other: &Self) -> bool {
        self.0 == other.0 && self.0 != 255
    }
}

/// `ensures` equality is that of the values, also when that is partial.
pub fn partial_eq<K: Shape, const N: usize>()
where
    Map<K, Odd>: PartialEq,
{
    let a = any_map::<N>();
    let b = any_map::<N>();
    let mut x = Map::<K, Odd>::new();
    let mut y = Map::<K, Odd>::new();
    let mut same = true;
    each!(i in N => {
        if let Some(v) = a[i] {
            x.insert(K::nth(i), Odd(v));
        }
        if let Some(v) = b[i] {
            y.insert(K::nth(i), Odd(v));
        }
        same = same && match (a[i], b[i]) {
            (None, None) => true,
            (Some(v), Some(w)) => Odd(v) == Odd(w),
            _ => false,
        };
    });
    assert!((x == y) == same, "eq: iff the same keys have equal values");
}

/// `ensures` a clone has the same view, and keeps it when the other changes.
pub fn map_clone<K: Shape, const N: usize>()
where
    Map<K, u8>: Clone + PartialEq,
{
    let mut view = any_map::<N>();
    let old = view;
    let mut map = map_of::<K, N>(&view);
    let mut copy = map.clone();
    assert!(map == copy, "clone: equals its original");
    if any_bool() {
        map_step(&mut map, &mut view);
        map_is(&map, &view);
        map_is(&copy, &old);
        assert!(copy.len() == count_map(&old), "clone: is not changed with its original");
    } else {
        map_step(&mut copy, &mut view);
        map_is(&copy, &view);
        map_is(&map, &old);
        assert!(map.len() == count_map(&old), "clone: does not change its original");
    }
}

pub fn set_clone<K: Shape, const N: usize>()
where
    Set<K>: Clone + PartialEq,
{
    let mut view = any_set::<N>();
    let old = view;
    let mut set = set_of::<K, N>(&view);
    let mut copy = set.clone();
    assert!(set == copy, "clone: equals its original");
    if any_bool() {
        set_step(&mut set, &mut view);
        set_is(&set, &view);
        set_is(&copy, &old);
        assert!(copy.len() == count_set(&old), "clone: is not changed with its original");
    } else {
        set_step(&mut copy, &mut view);
        set_is(&copy, &view);
        set_is(&set, &old);
        assert!(set.len() == count_set(&old), "clone: does not change its original");
    }
}

/// `clone_from` overwrites what was there.
pub fn clone_from<K: Shape, const N: usize>()
where
    Map<K, u8>: Clone, Set<K>: Clone,
{
    let a = any_map::<N>();
    let b = any_map::<N>();
    let mut x = map_of::<K, N>(&a);
    let y = map_of::<K, N>(&b);
    x.clone_from(&y);
    map_is(&x, &b);
    let a = any_set::<N>();
    let b = any_set::<N>();
    let mut x = set_of::<K, N>(&a);
    let y = set_of::<K, N>(&b);
    x.clone_from(&y);
    set_is(&x, &b);
}

/// A value whose clone goes through `Clone`, not through a copy of its bytes.
#[derive(PartialEq, Eq, Debug)]
pub struct Counted<'a>(u8, &'a core::cell::Cell<u8>);
impl Clone for Counted<'_> {
    fn clone(&self) -> Self {
        self.1.set(self.1.get() + 1);
        Counted(self.0, self.1)
    }
}

/// `ensures` each present value is cloned once.
pub fn deep_clone<K: Shape, const N: usize>()
where
    for<'a> Map<K, Counted<'a>>: Clone,
{
    let view = any_map::<N>();
    let clones = core::cell::Cell::new(0);
    let mut map = Map::<K, Counted<'_>>::new();
    each!(i in N => {
        if let Some(v) = view[i] {
            map.insert(K::nth(i), Counted(v, &clones));
        }
    });
    let copy = map.clone();
    assert!(clones.get() as usize == count_map(&view), "clone: clones each value once");
    let j = any_below(N);
    assert!(copy.get(K::nth(j)).map(|c| c.0) == view[j], "clone: each value under its key");
}

macro_rules! small {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        proofs!($name, $K, $N, $U; map_eq, set_eq, partial_eq, map_clone, set_clone, clone_from, deep_clone);
    };
}
small_shapes!(small);

macro_rules! bits {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        proofs!($name, $K, $N, $U; set_eq, set_clone);
    };
}
small_bitsets!(bits);

/// Any two states of a large key.
pub fn map_pair<K: Shape, const N: usize>()
where
    Map<K, u8>: Clone + PartialEq,
{
    let (x, a) = dense_map::<K, N>();
    let (y, b) = dense_map::<K, N>();
    let mut same = true;
    let mut i = 0;
    while i < N {
        same &= a[i] == b[i];
        i += 1;
    }
    assert!((x == y) == same, "eq: iff the contents are equal");
    let copy = x.clone();
    let j = any_below(N);
    assert!(copy.get(K::nth(j)).copied() == a[j], "clone: equals its original");
}

pub fn set_pair<K: Shape, const N: usize>()
where
    Set<K>: Clone + PartialEq,
{
    let (x, a) = dense_set::<K, N>();
    let (y, b) = dense_set::<K, N>();
    let mut same = true;
    let mut i = 0;
    while i < N {
        same &= a[i] == b[i];
        i += 1;
    }
    assert!((x == y) == same, "eq: iff the contents are equal");
    let copy = x.clone();
    let j = any_below(N);
    assert!(copy.contains(K::nth(j)) == a[j], "clone: equals its original");
}

pub mod large_map {
    use super::*;
    macro_rules! large {
        ($name:ident, $K:ty, $N:expr, $U:expr) => {
            proofs!($name, $K, $N, $U; map_pair);
        };
    }
    large_maps!(large);
    proofs!(comp_deep, Deep, 10, 12; map_pair);
}

pub mod large_set {
    use super::*;
    macro_rules! large {
        ($name:ident, $K:ty, $N:expr, $U:expr) => {
            proofs!($name, $K, $N, $U; set_pair);
        };
    }
    large_sets!(large);
    proofs!(comp_deep, Deep, 10, 12; set_pair);
}
