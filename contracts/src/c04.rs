//! C04: map iteration visits each entry once, in declaration order.

use crate::nd::*;
use crate::shapes::*;
use crate::spec::*;

/// `ensures iter() yields exactly elems(view), in order, then None`
pub fn iter<K: Shape, const N: usize>() {
    let view = any_map::<N>();
    let e = Elems::<K, N>::of_map(&view);
    let map = map_of::<K, N>(&view);
    let mut it = map.iter();
    each!(i in N => {
        let next = it.next().map(|(k, v)| (k, *v));
        assert!(next == e.get(i), "iter: yields each entry once in declaration order");
    });
    assert!(it.next().is_none(), "iter: ends after the last entry");
}

pub fn keys<K: Shape, const N: usize>() {
    let view = any_map::<N>();
    let e = Elems::<K, N>::of_map(&view);
    let map = map_of::<K, N>(&view);
    let mut it = map.keys();
    each!(i in N => {
        assert!(it.next() == e.key(i), "keys: yields each present key once in declaration order");
    });
    assert!(it.next().is_none(), "keys: ends after the last key");
}

pub fn values<K: Shape, const N: usize>() {
    let view = any_map::<N>();
    let e = Elems::<K, N>::of_map(&view);
    let map = map_of::<K, N>(&view);
    let mut it = map.values();
    each!(i in N => {
        assert!(it.next().copied() == e.value(i), "values: yields each value once in declaration order");
    });
    assert!(it.next().is_none(), "values: ends after the last value");
}

pub fn into_iter<K: Shape, const N: usize>() {
    let view = any_map::<N>();
    let e = Elems::<K, N>::of_map(&view);
    let map = map_of::<K, N>(&view);
    let mut it = map.into_iter();
    each!(i in N => {
        assert!(it.next() == e.get(i), "into_iter: yields each entry once in declaration order");
    });
    assert!(it.next().is_none(), "into_iter: ends after the last entry");
}

/// Also the postcondition on what is written through the yielded references.
pub fn iter_mut<K: Shape, const N: usize>() {
    let view = any_map::<N>();
    let e = Elems::<K, N>::of_map(&view);
    let mut map = map_of::<K, N>(&view);
    // The n-th yielded entry is overwritten with `new[n]`.
    let new = any_values::<N>();
    {
        let mut it = map.iter_mut();
        each!(i in N => {
            let next = it.next();
            assert!(
                next.as_ref().map(|(k, v)| (*k, **v)) == e.get(i),
                "iter_mut: yields each entry once in declaration order"
            );
            if let Some((_, slot)) = next {
                *slot = new[i];
            }
        });
        assert!(it.next().is_none(), "iter_mut: ends after the last entry");
    }
    map_is(&map, &overwritten(&view, &new));
}

pub fn values_mut<K: Shape, const N: usize>() {
    let view = any_map::<N>();
    let e = Elems::<K, N>::of_map(&view);
    let mut map = map_of::<K, N>(&view);
    let new = any_values::<N>();
    {
        let mut it = map.values_mut();
        each!(i in N => {
            let next = it.next();
            assert!(
                next.as_ref().map(|v| **v) == e.value(i),
                "values_mut: yields each value once in declaration order"
            );
            if let Some(slot) = next {
                *slot = new[i];
            }
        });
        assert!(it.next().is_none(), "values_mut: ends after the last value");
    }
    map_is(&map, &overwritten(&view, &new));
}

/// The `IntoIterator` impls of references.
pub fn by_reference<K: Shape, const N: usize>() {
    let view = any_map::<N>();
    let e = Elems::<K, N>::of_map(&view);
    let map = map_of::<K, N>(&view);
    let mut it = (&map).into_iter();
    each!(i in N => {
        let next = it.next().map(|(k, v)| (k, *v));
        assert!(next == e.get(i), "&map: yields each entry once in declaration order");
    });
    assert!(it.next().is_none(), "&map: ends after the last entry");
}

pub fn by_mutable_reference<K: Shape, const N: usize>() {
    let view = any_map::<N>();
    let e = Elems::<K, N>::of_map(&view);
    let mut map = map_of::<K, N>(&view);
    let mut it = (&mut map).into_iter();
    each!(i in N => {
        let next = it.next().map(|(k, v)| (k, *v));
        assert!(next == e.get(i), "&mut map: yields each entry once in declaration order");
    });
    assert!(it.next().is_none(), "&mut map: ends after the last entry");
}

fn any_values<const N: usize>() -> [u8; N] {
    let mut new = [0; N];
    each!(i in N => {
        new[i] = any_u8();
    });
    new
}

fn overwritten<const N: usize>(view: &MapView<N>, new: &[u8; N]) -> MapView<N> {
    let mut out = *view;
    let mut n = 0;
    each!(i in N => {
        if out[i].is_some() {
            out[i] = Some(new[n]);
            n += 1;
        }
    });
    out
}

macro_rules! small {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        proofs!($name, $K, $N, $U; iter, keys, values, into_iter, iter_mut, values_mut);
    };
}
iter_shapes!(small);
/// Loops over references are generic code.
pub mod references {
    use super::*;
    macro_rules! both {
        ($name:ident, $K:ty, $N:expr, $U:expr) => {
            proofs!($name, $K, $N, $U; by_reference, by_mutable_reference);
        };
    }
    both!(unit3, U3, 3, 5);
    both!(boolean, bool, 2, 3);
    both!(opt_boolean, Option<bool>, 3, 3);
    both!(comp_mid, Mid, 4, 4);
}
proofs!(comp_long, Long, 7, 7; iter, keys, into_iter, iter_mut);
#[cfg(feature = "thorough")]
pub mod thorough {
    use super::*;
    proofs!(comp_duo, Duo, 3, 4; iter, keys, values, into_iter, iter_mut, values_mut, by_reference, by_mutable_reference);
    proofs!(comp_long, Long, 7, 7; values, values_mut, by_reference, by_mutable_reference);
}

/// A map of a large key with any keys present, where values tell entries apart.
fn tagged_map<K: Shape, const N: usize>() -> (fixed_map::Map<K, u8>, SetView<N>) {
    let mut view = [false; N];
    let mut map = fixed_map::Map::new();
    let mut i = 0;
    while i < N {
        view[i] = any_bool();
        if view[i] {
            map.insert(K::nth(i), i as u8);
        }
        i += 1;
    }
    (map, view)
}

/// The entry an item of an iterator is about.
trait Place {
    fn place(&self) -> usize;
}
impl<K: Shape> Place for K {
    fn place(&self) -> usize {
        self.index()
    }
}
impl<K: Shape> Place for (K, u8) {
    fn place(&self) -> usize {
        self.0.index()
    }
}
impl Place for u8 {
    fn place(&self) -> usize {
        *self as usize
    }
}

/// Nested and large keys, by every iterator.
macro_rules! sparse_contract {
    ($name:ident, $what:literal, $map:ident => $it:expr, $e:ident => $proj:expr) => {
        pub mod $name {
            use super::*;

            /// The first step.
            pub fn first<K: Shape, const N: usize>() {
                #[allow(unused_mut)]
                let (mut $map, view) = dense_map::<K, N>();
                let proj = |$e: (usize, u8)| $proj;
                let mut x = None;
                let mut i = N;
                while i > 0 {
                    i -= 1;
                    if let Some(v) = view[i] {
                        x = Some((i, v));
                    }
                }
                assert!(
                    $it.next() == x.map(proj),
                    concat!($what, ": starts with the first entry in declaration order")
                );
            }

            /// Every step.
            #[allow(dead_code)]
            pub fn pair<K: Shape, const N: usize>() {
                let state = Sparse::any(N);
                #[allow(unused_mut)]
                let mut $map = state.map::<K>();
                let proj = |$e: (usize, u8)| $proj;
                let [x, y] = state.elems();
                let mut it = $it;
                assert!(it.next() == x.map(proj), concat!($what, ": yields each entry once in declaration order"));
                assert!(it.next() == y.map(proj), concat!($what, ": yields each entry once in declaration order"));
                assert!(it.next().is_none(), concat!($what, ": ends after the last entry"));
            }

            /// Internal iteration, in any state.
            pub fn fold<K: Shape, const N: usize>() {
                #[allow(unused_mut)]
                let (mut $map, view) = tagged_map::<K, N>();
                let j = any_below(N);
                let mut next = 0;
                let mut seen = false;
                $it.for_each(|e| {
                    let i = e.place();
                    assert!(
                        i >= next && i < N && view[i],
                        concat!($what, ": yields each entry once in declaration order")
                    );
                    let $e = (i, i as u8);
                    assert!(e == $proj, concat!($what, ": yields each entry with its own value"));
                    next = i + 1;
                    seen |= i == j;
                });
                assert!(seen == view[j], concat!($what, ": yields every entry"));
            }

            proofs!(unit9, U9, 9, 11; first, fold);
            proofs!(unit17, U17, 17, 19; first, fold);
            proofs!(unit33, U33, 33, 35; first, fold);
            proofs!(comp_wide, Wide, 22, 24; first);
            #[cfg(feature = "thorough")]
            pub mod thorough {
                use super::*;
                proofs!(deep, Deep, 10, 4; pair);
            }
        }
    };
}
sparse_contract!(large_iter, "iter", map => map.iter().map(|(k, v)| (k, *v)), e => (K::nth(e.0), e.1));
sparse_contract!(large_keys, "keys", map => map.keys(), e => K::nth(e.0));
sparse_contract!(large_values, "values", map => map.values().copied(), e => e.1);
sparse_contract!(large_iter_mut, "iter_mut", map => map.iter_mut().map(|(k, v)| (k, *v)), e => (K::nth(e.0), e.1));
sparse_contract!(large_values_mut, "values_mut", map => map.values_mut().map(|v| *v), e => e.1);
sparse_contract!(large_into_iter, "into_iter", map => map.into_iter(), e => (K::nth(e.0), e.1));

/// A key nested twice.
pub mod nested {
    macro_rules! nested {
        ($($name:ident from $from:ident),*) => {
            $(pub mod $name {
                use crate::c04::$from::first;
                use crate::shapes::*;
                proofs!(deep, Deep, 10, 12; first);
            })*
        };
    }
    nested!(iter from large_iter, keys from large_keys, values from large_values, iter_mut from large_iter_mut, values_mut from large_values_mut);
}

/// `iter` and `into_iter` after any operation.
pub fn lived<K: Shape, const N: usize>() {
    let (map, view) = lived_map::<K, N>();
    let e = Elems::<K, N>::of_map(&view);
    {
        let mut it = map.iter();
        each!(i in N => {
            let next = it.next().map(|(k, v)| (k, *v));
            assert!(next == e.get(i), "iter: yields each entry once in declaration order");
        });
        assert!(it.next().is_none(), "iter: ends after the last entry");
    }
    let mut it = map.into_iter();
    each!(i in N => {
        assert!(it.next() == e.get(i), "into_iter: yields each entry once in declaration order");
    });
    assert!(it.next().is_none(), "into_iter: ends after the last entry");
}
lived_maps!(lived);
