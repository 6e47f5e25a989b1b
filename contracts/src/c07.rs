//! C07: retain asks once per present entry and keeps the accepted ones.

use crate::nd::*;
use crate::shapes::*;
use crate::spec::*;

/// `ensures` the predicate was called for exactly `elems(view)`, in order, with
/// the entry's value, and the view afterwards is the accepted entries with the
/// values the predicate left.
pub fn map<K: Shape, const N: usize>() {
    let view = any_map::<N>();
    let e = Elems::<K, N>::of_map(&view);
    // The answer to the n-th question, and the value left behind.
    let answers = any_map::<N>();
    let touch = any_bool();
    let mut map = map_of::<K, N>(&view);
    let mut n = 0;
    map.retain(|k, v| {
        assert!(
            e.get(n) == Some((k, *v)),
            "retain: asks once for each present entry, in order, with its value"
        );
        let answer = answers[n];
        n += 1;
        match answer {
            Some(new) => {
                if touch {
                    *v = new;
                }
                true
            }
            None => {
                *v = 0;
                false
            }
        }
    });
    assert!(n == e.len, "retain: asks for every present entry");
    let mut after = [None; N];
    let mut n = 0;
    each!(i in N => {
        if view[i].is_some() {
            after[i] = answers[n].and_then(|new| if touch { Some(new) } else { view[i] });
            n += 1;
        }
    });
    map_is(&map, &after);
    assert!(map.len() == count_map(&after), "retain: len counts what was kept");
}

pub fn set<K: Shape, const N: usize>() {
    let view = any_set::<N>();
    let e = Elems::<K, N>::of_set(&view);
    let answers = any_set::<N>();
    let mut set = set_of::<K, N>(&view);
    let mut n = 0;
    set.retain(|k| {
        assert!(
            e.key(n) == Some(k),
            "retain: asks once for each contained value, in order"
        );
        let answer = answers[n];
        n += 1;
        answer
    });
    assert!(n == e.len, "retain: asks for every contained value");
    let mut after = [false; N];
    let mut n = 0;
    each!(i in N => {
        if view[i] {
            after[i] = answers[n];
            n += 1;
        }
    });
    set_is(&set, &after);
    assert!(set.len() == count_set(&after), "retain: len counts what was kept");
}

/// Any state of a large key, any answers.
pub fn map_dense<K: Shape, const N: usize>() {
    let (mut map, view) = dense_map::<K, N>();
    let j = any_below(N);
    let mut next = 0;
    let mut asked = false;
    let mut after = None;
    map.retain(|k, v| {
        let i = k.index();
        assert!(
            i >= next && i < N && view[i] == Some(*v),
            "retain: asks once for each present entry, in order, with its value"
        );
        next = i + 1;
        let keep = any_bool();
        *v = any_u8();
        if i == j {
            asked = true;
            after = if keep { Some(*v) } else { None };
        }
        keep
    });
    assert!(asked == view[j].is_some(), "retain: asks for every present entry");
    assert!(
        map.get(K::nth(j)).copied() == after,
        "retain: keeps exactly the accepted entries"
    );
}

pub fn set_dense<K: Shape, const N: usize>() {
    let (mut set, view) = dense_set::<K, N>();
    let j = any_below(N);
    let mut next = 0;
    let mut asked = false;
    let mut after = false;
    set.retain(|k| {
        let i = k.index();
        assert!(
            i >= next && i < N && view[i],
            "retain: asks once for each contained value, in order"
        );
        next = i + 1;
        let keep = any_bool();
        if i == j {
            asked = true;
            after = keep;
        }
        keep
    });
    assert!(asked == view[j], "retain: asks for every contained value");
    assert!(set.contains(K::nth(j)) == after, "retain: keeps exactly the accepted values");
}

macro_rules! small {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        proofs!($name, $K, $N, $U; map, set);
    };
}
small_shapes!(small);

macro_rules! bits {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        proofs!($name, $K, $N, $U; set);
    };
}
small_bitsets!(bits);

pub mod large_map {
    use super::*;
    macro_rules! large {
        ($name:ident, $K:ty, $N:expr, $U:expr) => {
            proofs!($name, $K, $N, $U; map_dense);
        };
    }
    large_maps!(large);
    proofs!(comp_deep, Deep, 10, 12; map_dense);
}

pub mod large_set {
    use super::*;
    macro_rules! large {
        ($name:ident, $K:ty, $N:expr, $U:expr) => {
            proofs!($name, $K, $N, $U; set_dense);
        };
    }
    large!(unit9, U9, 9, 11);
    large!(unit17, U17, 17, 19);
    large!(comp_wide, Wide, 22, 24);
    large!(bits8, B8, 8, 10);
    large!(bits9, B9, 9, 11);
    large!(bits16, B16, 16, 18);
    large!(bits17, B17, 17, 19);
    large!(bits32, B32, 32, 34);
    large!(bits33, B33, 33, 35);
    large!(unit33, U33, 33, 35);
    large!(bits64, B64, 64, 66);
    large!(bits65, B65, 65, 67);
    large!(bits128, B128, 128, 130);
    proofs!(comp_deep, Deep, 10, 12; set_dense);
}

/// `retain` after any operation.
pub fn lived<K: Shape, const N: usize>() {
    let (mut map, view) = lived_map::<K, N>();
    let e = Elems::<K, N>::of_map(&view);
    let i = any_below(N);
    let (keep, other) = (any_bool(), any_bool());
    let mut n = 0;
    map.retain(|k, v| {
        assert!(
            e.get(n) == Some((k, *v)),
            "retain: asks once for each present entry, in order, with its value"
        );
        n += 1;
        if k == K::nth(i) { keep } else { other }
    });
    assert!(n == e.len, "retain: asks for every present entry");
    let mut after = view;
    each!(j in N => {
        if !(if j == i { keep } else { other }) {
            after[j] = None;
        }
    });
    map_is(&map, &after);
}

pub fn lived_values<K: Shape, const N: usize>() {
    let (mut set, view) = lived_set::<K, N>();
    let e = Elems::<K, N>::of_set(&view);
    let i = any_below(N);
    let (keep, other) = (any_bool(), any_bool());
    let mut n = 0;
    set.retain(|k| {
        assert!(e.key(n) == Some(k), "retain: asks once for each contained value, in order");
        n += 1;
        if k == K::nth(i) { keep } else { other }
    });
    assert!(n == e.len, "retain: asks for every contained value");
    let mut after = view;
    each!(j in N => {
        if !(if j == i { keep } else { other }) {
            after[j] = false;
        }
    });
    set_is(&set, &after);
}
lived_maps!(lived);
lived_sets!(lived_values);
