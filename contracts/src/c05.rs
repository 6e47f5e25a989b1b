//! C05: set iteration visits each value once, in declaration order.

use crate::nd::*;
use crate::shapes::*;
use crate::spec::*;

pub fn iter<K: Shape, const N: usize>() {
    let view = any_set::<N>();
    let e = Elems::<K, N>::of_set(&view);
    let set = set_of::<K, N>(&view);
    let mut it = set.iter();
    each!(i in N => {
        assert!(it.next() == e.key(i), "iter: yields each value once in declaration order");
    });
    assert!(it.next().is_none(), "iter: ends after the last value");
}

pub fn into_iter<K: Shape, const N: usize>() {
    let view = any_set::<N>();
    let e = Elems::<K, N>::of_set(&view);
    let set = set_of::<K, N>(&view);
    let mut it = set.into_iter();
    each!(i in N => {
        assert!(it.next() == e.key(i), "into_iter: yields each value once in declaration order");
    });
    assert!(it.next().is_none(), "into_iter: ends after the last value");
}

pub fn by_reference<K: Shape, const N: usize>() {
    let view = any_set::<N>();
    let e = Elems::<K, N>::of_set(&view);
    let set = set_of::<K, N>(&view);
    let mut it = (&set).into_iter();
    each!(i in N => {
        assert!(it.next() == e.key(i), "&set: yields each value once in declaration order");
    });
    assert!(it.next().is_none(), "&set: ends after the last value");
    set_is(&set, &view);
}

macro_rules! small {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        proofs!($name, $K, $N, $U; iter, into_iter, by_reference);
    };
}
iter_shapes!(small);
iter_bitsets!(small);
proofs!(deep, Deep, 10, 12; first);

/// Large keys: the first value of any set.
pub fn first<K: Shape, const N: usize>() {
    let (set, view) = dense_set::<K, N>();
    let mut x = None;
    let mut i = N;
    while i > 0 {
        i -= 1;
        if view[i] {
            x = Some(K::nth(i));
        }
    }
    if any_bool() {
        assert!(set.iter().next() == x, "iter: starts with the first value in declaration order");
    } else {
        assert!(set.into_iter().next() == x, "into_iter: starts with the first value in declaration order");
    }
}

/// Any set of a large key, by internal iteration.
pub fn dense<K: Shape, const N: usize>() {
    let (set, view) = dense_set::<K, N>();
    let j = any_below(N);
    let mut next = 0;
    let mut seen = false;
    let visit = |k: K| {
        let i = k.index();
        assert!(
            i >= next && i < N && view[i],
            "into_iter: yields each value once in declaration order"
        );
        next = i + 1;
        seen |= i == j;
    };
    set.into_iter().for_each(visit);
    assert!(seen == view[j], "into_iter: yields every value");
}

/// The same by reference.
pub fn dense_ref<K: Shape, const N: usize>() {
    let (set, view) = dense_set::<K, N>();
    let j = any_below(N);
    let mut next = 0;
    let mut seen = false;
    let visit = |k: K| {
        let i = k.index();
        assert!(
            i >= next && i < N && view[i],
            "iter: yields each value once in declaration order"
        );
        next = i + 1;
        seen |= i == j;
    };
    set.iter().for_each(visit);
    assert!(seen == view[j], "iter: yields every value");
}

proofs!(unit9, U9, 9, 11; first, dense, dense_ref);
proofs!(unit17, U17, 17, 19; first, dense, dense_ref);
proofs!(unit33, U33, 33, 35; first, dense, dense_ref);
proofs!(bits8, B8, 8, 10; first, dense, dense_ref);
proofs!(bits9, B9, 9, 11; first, dense, dense_ref);
proofs!(bits16, B16, 16, 18; first, dense, dense_ref);
proofs!(bits17, B17, 17, 19; first, dense, dense_ref);
proofs!(bits32, B32, 32, 34; first, dense, dense_ref);
proofs!(bits33, B33, 33, 35; first, dense, dense_ref);
proofs!(bits64, B64, 64, 66; dense, dense_ref);
proofs!(bits65, B65, 65, 67; dense, dense_ref);
proofs!(bits128, B128, 128, 130; dense, dense_ref);
proofs!(comp_wide, Wide, 22, 24; first);
#[cfg(feature = "thorough")]
pub mod thorough {
    use super::*;
    proofs!(bits64, B64, 64, 66; first);
    proofs!(bits65, B65, 65, 67; first);
    proofs!(bits128, B128, 128, 130; first);
}

/// `iter` and `into_iter` after any operation.
pub fn lived<K: Shape, const N: usize>() {
    let (set, view) = lived_set::<K, N>();
    let e = Elems::<K, N>::of_set(&view);
    {
        let mut it = set.iter();
        each!(i in N => {
            assert!(it.next() == e.key(i), "iter: yields each value once in declaration order");
        });
        assert!(it.next().is_none(), "iter: ends after the last value");
    }
    let mut it = set.into_iter();
    each!(i in N => {
        assert!(it.next() == e.key(i), "into_iter: yields each value once in declaration order");
    });
    assert!(it.next().is_none(), "into_iter: ends after the last value");
}
lived_sets!(lived);
