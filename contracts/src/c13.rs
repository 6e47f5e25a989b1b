//! C13: intersection yields exactly the common values, once, in order.

use crate::nd::*;
use crate::shapes::*;
use crate::spec::*;

fn common<const N: usize>(a: &SetView<N>, b: &SetView<N>) -> SetView<N> {
    let mut c = [false; N];
    each!(i in N => {
        c[i] = a[i] && b[i];
    });
    c
}

/// `ensures` step by step, with the size bounds bracketing what is left.
pub fn step<K: Shape, const N: usize>() {
    let a = any_set::<N>();
    let b = any_set::<N>();
    let e = Elems::<K, N>::of_set(&common(&a, &b));
    let x = set_of::<K, N>(&a);
    let y = set_of::<K, N>(&b);
    let mut it = x.intersection(&y);
    each!(n in N => {
        bracket(it.size_hint(), if n < e.len { e.len - n } else { 0 });
        assert!(it.next() == e.key(n), "intersection: yields the common values in order");
    });
    bracket(it.size_hint(), 0);
    assert!(it.next().is_none(), "intersection: ends after the last common value");
    set_is(&x, &a);
    set_is(&y, &b);
}

/// `ensures` folding the rest visits what is left, after an arbitrary number of
/// steps.
pub fn fold<K: Shape, const N: usize>() {
    let a = any_set::<N>();
    let b = any_set::<N>();
    let e = Elems::<K, N>::of_set(&common(&a, &b));
    let x = set_of::<K, N>(&a);
    let y = set_of::<K, N>(&b);
    let mut it = x.intersection(&y);
    let mut n = 0;
    if any_bool() {
        assert!(it.next() == e.key(0), "intersection: yields the common values in order");
        n = if e.len == 0 { 0 } else { 1 };
    }
    let start = any_u8();
    let skipped = n;
    let end = it.fold(start, |acc, k| {
        assert!(e.key(n) == Some(k), "intersection: fold visits the common values in order");
        assert!(
            acc == start.wrapping_add((n - skipped) as u8),
            "intersection: fold threads its accumulator"
        );
        n += 1;
        start.wrapping_add((n - skipped) as u8)
    });
    assert!(n == e.len, "intersection: fold visits every common value");
    assert!(
        end == start.wrapping_add((n - skipped) as u8),
        "intersection: fold returns its accumulator"
    );
}

/// `ensures` a clone continues on its own.
pub fn clone<K: Shape, const N: usize>() {
    let a = any_set::<N>();
    let b = any_set::<N>();
    let e = Elems::<K, N>::of_set(&common(&a, &b));
    let x = set_of::<K, N>(&a);
    let y = set_of::<K, N>(&b);
    let mut it = x.intersection(&y);
    let mut f = 0;
    if any_bool() {
        let _ = it.next();
        f = 1;
    }
    let mut copy = it.clone();
    let mut g = f;
    each!(_n in N => {
        if any_bool() {
            assert!(copy.next() == e.key(f), "clone: yields what is left");
            f += 1;
        } else {
            assert!(it.next() == e.key(g), "clone: does not disturb the original");
            g += 1;
        }
    });
}

/// Sets with at most two values each: the first common value, folded and
/// stepped.
pub fn sparse_first<K: Shape, const N: usize>() {
    let (x, y, first, _) = sparse::<K>(N);
    assert!(
        x.intersection(&y).next() == first.map(K::nth),
        "intersection: starts with the first common value"
    );
}

/// Any two sets of a large key.
pub fn dense_fold<K: Shape, const N: usize>() {
    let (x, a) = dense_set::<K, N>();
    let (y, b) = dense_set::<K, N>();
    let j = any_below(N);
    let mut next = 0;
    let mut seen = false;
    x.intersection(&y).for_each(|k| {
        let i = k.index();
        assert!(
            i >= next && i < N && a[i] && b[i],
            "intersection: fold visits the common values in order"
        );
        next = i + 1;
        seen |= i == j;
    });
    assert!(seen == (a[j] && b[j]), "intersection: fold visits every common value");
}

fn sparse<K: Shape>(n: usize) -> (fixed_map::Set<K>, fixed_map::Set<K>, Option<usize>, Option<usize>) {
    let s = Sparse::any(n);
    let t = Sparse::any(n);
    let x = s.set::<K>();
    let y = t.set::<K>();
    let has = |s: &Sparse, j: usize| {
        (s.va.is_some() && s.a == j) || (s.vb.is_some() && s.b == j)
    };
    let (lo, hi) = if s.a <= s.b { (s.a, s.b) } else { (s.b, s.a) };
    let first = if has(&s, lo) && has(&t, lo) { Some(lo) } else { None };
    let second = if hi != lo && has(&s, hi) && has(&t, hi) { Some(hi) } else { None };
    let (first, second) = if first.is_none() { (second, None) } else { (first, second) };
    (x, y, first, second)
}

macro_rules! small {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        proofs!($name, $K, $N, $U; step, fold);
    };
}
small!(unit3, U3, 3, 5);
small!(singleton, (), 1, 3);
small!(boolean, bool, 2, 4);
small!(opt_singleton, Option<()>, 2, 4);
small!(opt_boolean, Option<bool>, 3, 5);
small!(opt_unit2, Option<U2>, 3, 5);
small!(comp_unit, Unit, 3, 5);
small!(comp_tiny, Tiny, 3, 5);
small!(bits1, B1, 1, 3);
small!(bits3, B3, 3, 5);

pub mod cloned {
    use super::*;
    proofs!(unit3, U3, 3, 5; clone);
    proofs!(singleton, (), 1, 3; clone);
    proofs!(boolean, bool, 2, 4; clone);
    proofs!(opt_boolean, Option<bool>, 3, 5; clone);
    proofs!(comp_unit, Unit, 3, 5; clone);
    proofs!(bits3, B3, 3, 5; clone);
}

macro_rules! large {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        proofs!($name, $K, $N, $U; sparse_first, dense_fold);
    };
}
large!(unit9, U9, 9, 11);
large!(bits9, B9, 9, 11);
proofs!(unit17, U17, 17, 19; dense_fold);
proofs!(bits17, B17, 17, 19; dense_fold);

#[cfg(feature = "thorough")]
pub mod thorough {
    use super::*;
    large!(unit17, U17, 17, 19);
    large!(bits17, B17, 17, 19);
    small!(comp_outer, Outer, 4, 6);
    small!(comp_mid, Mid, 4, 6);
    small!(comp_opt, Opt, 4, 6);
    small!(bits4, B4, 4, 6);
    small!(unit4, U4, 4, 6);
    large!(unit33, U33, 33, 35);
    large!(bits33, B33, 33, 35);
}

/// Intersections of sets with a history.
pub fn lived<K: Shape, const N: usize>() {
    let (x, a) = lived_set::<K, N>();
    let (y, b) = lived_set::<K, N>();
    let e = Elems::<K, N>::of_set(&common(&a, &b));
    let mut it = x.intersection(&y);
    each!(n in N => {
        assert!(it.next() == e.key(n), "intersection: yields the common values in order");
    });
    assert!(it.next().is_none(), "intersection: ends after the last common value");
}
lived_sets!(lived);
