//! C08: an entry is a faithful view of one key's slot.

use crate::nd::*;
use crate::shapes::*;
use crate::spec::*;
use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};

/// `ensures` occupied iff present, carrying the key and value; the map is
/// unchanged when the entry is only looked at.
pub fn look<K: Shape, const N: usize>() {
    let view = any_map::<N>();
    let i = any_below(N);
    let mut map = map_of::<K, N>(&view);
    {
    let entry = map.entry(K::nth(i));
    assert!(entry.key() == K::nth(i), "entry: carries the key it was asked for");
    match entry {
        Entry::Occupied(mut e) => {
            assert!(view[i].is_some(), "entry: occupied only for a present key");
            assert!(e.key() == K::nth(i), "occupied: carries its key");
            assert!(Some(*e.get()) == view[i], "occupied: shows the current value");
            assert!(Some(*e.get_mut()) == view[i], "occupied: shows the current value mutably");
            assert!(e.key() == K::nth(i), "occupied: keeps its key");
        }
        Entry::Vacant(e) => {
            assert!(view[i].is_none(), "entry: vacant only for an absent key");
            assert!(e.key() == K::nth(i), "vacant: carries its key");
        }
    }
    }
    map_is(&map, &view);
    assert!(map.len() == count_map(&view), "entry: looking changes nothing");
}

/// `ensures` each use of an entry has the effect of the map operation.
pub fn act<K: Shape, const N: usize>() {
    let mut view = any_map::<N>();
    let i = any_below(N);
    let v = any_u8();
    let w = any_u8();
    let mut map = map_of::<K, N>(&view);
    let op = any_below(5);
    match map.entry(K::nth(i)) {
        Entry::Occupied(mut e) => match op {
            0 => {
                assert!(Some(e.insert(v)) == view[i], "occupied.insert: returns the old value");
                assert!(*e.get() == v, "occupied.insert: the entry shows the new value");
                assert!(e.key() == K::nth(i), "occupied.insert: keeps its key");
                view[i] = Some(v);
            }
            1 => {
                assert!(Some(e.remove()) == view[i], "occupied.remove: returns the value");
                view[i] = None;
            }
            2 => {
                *e.get_mut() = v;
                assert!(*e.get() == v, "occupied.get_mut: writes the entry's value");
                view[i] = Some(v);
            }
            3 => {
                let slot = e.into_mut();
                assert!(Some(*slot) == view[i], "occupied.into_mut: refers to the value");
                *slot = v;
                view[i] = Some(v);
            }
            _ => {
                assert!(Some(e.insert(v)) == view[i], "occupied.insert: returns the old value");
                assert!(e.insert(w) == v, "occupied.insert: returns the replaced value");
                assert!(e.remove() == w, "occupied.remove: returns the last value");
                view[i] = None;
            }
        },
        Entry::Vacant(e) => {
            let slot = e.insert(v);
            assert!(*slot == v, "vacant.insert: refers to the inserted value");
            if op == 0 {
                view[i] = Some(v);
            } else {
                *slot = w;
                view[i] = Some(w);
            }
        }
    }
    map_is(&map, &view);
    assert!(map.len() == count_map(&view), "entry: len counts what is present");
}

/// The value type whose default is not its zero.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Val(u8);
impl Default for Val {
    fn default() -> Self {
        Val(77)
    }
}

/// `ensures` the closures are called iff needed, with the key or value.
pub fn combine<K: Shape, const N: usize>() {
    let view = any_map::<N>();
    let i = any_below(N);
    let key = K::nth(i);
    let v = any_u8();
    let w = any_u8();
    let mut map = fixed_map::Map::<K, Val>::new();
    each!(j in N => {
        if let Some(v) = view[j] {
            map.insert(K::nth(j), Val(v));
        }
    });
    let mut calls = 0;
    let mut touched = 0;
    let mut entry = map.entry(key);
    let mut want = view[i];
    if any_bool() {
        entry = entry.and_modify(|slot| {
            assert!(Some(slot.0) == view[i], "and_modify: is given the current value");
            touched += 1;
            slot.0 = w;
        });
        assert!(
            touched == view[i].is_some() as u8,
            "and_modify: calls its closure iff the key is present"
        );
        want = want.map(|_| w);
    }
    let missing = want.is_none();
    let slot = match any_below(4) {
        0 => {
            want = want.or(Some(v));
            entry.or_insert(Val(v))
        }
        1 => {
            want = want.or(Some(v));
            let slot = entry.or_insert_with(|| {
                calls += 1;
                Val(v)
            });
            assert!(calls == missing as u8, "or_insert_with: calls its closure iff the key is absent");
            slot
        }
        2 => {
            want = want.or(Some(v));
            let slot = entry.or_insert_with_key(|k| {
                assert!(k == key, "or_insert_with_key: is given the entry's key");
                calls += 1;
                Val(v)
            });
            assert!(calls == missing as u8, "or_insert_with_key: calls its closure iff the key is absent");
            slot
        }
        _ => {
            want = want.or(Some(77));
            entry.or_default()
        }
    };
    assert!(Some(slot.0) == want, "entry: refers to the value present afterwards");
    let z = any_u8();
    slot.0 = z;
    let j = any_below(N);
    let expect = if j == i { Some(Val(z)) } else { view[j].map(Val) };
    assert!(
        map.get(K::nth(j)).copied() == expect,
        "entry: writes its key's slot and no other"
    );
}

/// Large keys.
pub fn dense<K: Shape, const N: usize>() {
    let (mut map, state) = dense_map::<K, N>();
    let i = any_below(N);
    let v = any_u8();
    let old = state[i];
    let new = match map.entry(K::nth(i)) {
        Entry::Occupied(mut e) => {
            assert!(e.key() == K::nth(i), "occupied: carries its key");
            assert!(Some(*e.get()) == old, "occupied: shows the current value");
            if any_bool() {
                assert!(Some(e.remove()) == old, "occupied.remove: returns the value");
                None
            } else if any_bool() {
                assert!(Some(e.insert(v)) == old, "occupied.insert: returns the old value");
                Some(v)
            } else {
                *e.into_mut() = v;
                Some(v)
            }
        }
        Entry::Vacant(e) => {
            assert!(old.is_none(), "entry: vacant only for an absent key");
            assert!(e.key() == K::nth(i), "vacant: carries its key");
            assert!(*e.insert(v) == v, "vacant.insert: refers to the inserted value");
            Some(v)
        }
    };
    let j = any_below(N);
    let want = if j == i { new } else { state[j] };
    assert!(map.get(K::nth(j)).copied() == want, "entry: changes its key's slot and no other");
}

macro_rules! small {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        proofs!($name, $K, $N, $U; look, act, combine);
    };
}
small_shapes!(small);

macro_rules! large {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        proofs!($name, $K, $N, $U; dense);
    };
}
large_maps!(large);
proofs!(comp_deep, Deep, 10, 12; dense);

/// An entry after any operation, another one included.
pub fn lived<K: Shape, const N: usize>() {
    let (mut map, mut view) = lived_map::<K, N>();
    let i = any_below(N);
    let v = any_u8();
    match map.entry(K::nth(i)) {
        Entry::Occupied(mut e) => {
            assert!(Some(*e.get()) == view[i], "occupied: shows the current value");
            assert!(e.key() == K::nth(i), "occupied: carries its key");
            if any_bool() {
                assert!(Some(e.insert(v)) == view[i], "occupied.insert: returns the old value");
                view[i] = Some(v);
            } else {
                assert!(Some(e.remove()) == view[i], "occupied.remove: returns the value");
                view[i] = None;
            }
        }
        Entry::Vacant(e) => {
            assert!(view[i].is_none(), "entry: vacant only for an absent key");
            assert!(e.key() == K::nth(i), "vacant: carries its key");
            assert!(*e.insert(v) == v, "vacant.insert: refers to the inserted value");
            view[i] = Some(v);
        }
    }
    map_is(&map, &view);
    assert!(map.len() == count_map(&view), "entry: len counts what is present");
}
lived_maps!(lived);
