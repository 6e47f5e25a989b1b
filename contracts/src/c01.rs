//! C01: a map is a finite function from keys to values.

use crate::nd::*;
use crate::shapes::*;
use crate::spec::*;
use fixed_map::Map;

/// `ensures view(result) == {}`
pub fn new<K: Shape, const N: usize>() {
    map_is(&Map::<K, u8>::new(), &[None; N]);
}

/// `ensures result == old(view)[k] && view == old(view)[k := v]`
pub fn insert<K: Shape, const N: usize>() {
    let mut view = any_map::<N>();
    let mut map = map_of::<K, N>(&view);
    let i = any_below(N);
    let v = any_u8();
    let old = map.insert(K::nth(i), v);
    assert!(old == view[i], "insert: returns the value previously stored");
    view[i] = Some(v);
    map_is(&map, &view);
}

/// `ensures result == old(view)[k] && view == old(view) - k`
pub fn remove<K: Shape, const N: usize>() {
    let mut view = any_map::<N>();
    let mut map = map_of::<K, N>(&view);
    let i = any_below(N);
    let old = map.remove(K::nth(i));
    assert!(old == view[i], "remove: returns the value stored");
    view[i] = None;
    map_is(&map, &view);
}

/// `ensures *result == old(view)[k] && view == old(view)[k := *final(result)]`
pub fn get_mut<K: Shape, const N: usize>() {
    let mut view = any_map::<N>();
    let mut map = map_of::<K, N>(&view);
    let i = any_below(N);
    let v = any_u8();
    match map.get_mut(K::nth(i)) {
        Some(slot) => {
            assert!(view[i] == Some(*slot), "get_mut: reads the value stored");
            *slot = v;
            view[i] = Some(v);
        }
        None => assert!(view[i].is_none(), "get_mut: finds every present key"),
    }
    map_is(&map, &view);
}

/// `ensures view == {}`
pub fn clear<K: Shape, const N: usize>() {
    let view = any_map::<N>();
    let mut map = map_of::<K, N>(&view);
    map.clear();
    map_is(&map, &[None; N]);
}

/// Lookups do not change the map.
pub fn pure<K: Shape, const N: usize>() {
    let view = any_map::<N>();
    let mut map = map_of::<K, N>(&view);
    let i = any_below(N);
    let _ = map.get(K::nth(i));
    let _ = map.contains_key(K::nth(i));
    let _ = map.get_mut(K::nth(i));
    let _ = map.len();
    let _ = map.is_empty();
    let _ = map.iter().next();
    let _ = map.iter_mut().next();
    map_is(&map, &view);
}

/// Three arbitrary operations in a row on an arbitrary map.
pub fn history<K: Shape, const N: usize>() {
    let mut view = any_map::<N>();
    let mut map = map_of::<K, N>(&view);
    map_step(&mut map, &mut view);
    map_step(&mut map, &mut view);
    map_step(&mut map, &mut view);
    map_is(&map, &view);
}

macro_rules! small {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        proofs!($name, $K, $N, $U; new, insert, remove, get_mut, clear, pure, history);
    };
}
small_shapes!(small);
proofs!(deep, Deep, 10, 12; insert, remove, get_mut, clear);

/// All point operations on a map of a large key.
pub fn dense<K: Shape, const N: usize>() {
    let (mut map, state) = dense_map::<K, N>();
    let c = any_below(N);
    let j = any_below(N);
    let v = any_u8();
    let mut now = state[c];
    match any_below(4) {
        0 => {
            let old = map.insert(K::nth(c), v);
            assert!(old == state[c], "insert: returns the value previously stored");
            now = Some(v);
        }
        1 => {
            let old = map.remove(K::nth(c));
            assert!(old == state[c], "remove: returns the value stored");
            now = None;
        }
        2 => {
            if let Some(slot) = map.get_mut(K::nth(c)) {
                assert!(Some(*slot) == state[c], "get_mut: reads the value stored");
                *slot = v;
                now = Some(v);
            } else {
                assert!(state[c].is_none(), "get_mut: finds every present key");
            }
        }
        _ => {
            map.clear();
            assert!(
                map.get(K::nth(j)).is_none() && !map.contains_key(K::nth(j)),
                "clear: forgets everything"
            );
            return;
        }
    }
    let expect = if j == c { now } else { state[j] };
    assert!(
        map.get(K::nth(j)).copied() == expect,
        "view: lookup of every key gives the value last written to it"
    );
    assert!(
        map.contains_key(K::nth(j)) == expect.is_some(),
        "view: membership test of every key agrees with its lookup"
    );
}

macro_rules! large {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        proofs!($name, $K, $N, $U; dense);
    };
}
large_maps!(large);
