//! The abstract view of containers and the checks shared by the contracts.

use crate::nd::*;
use crate::shapes::Shape;
use fixed_map::{Map, Set};

/// Abstract view of a map: the value of each inhabitant of the key.
pub type MapView<const N: usize> = [Option<u8>; N];
/// Abstract view of a set: the membership of each inhabitant of the key.
pub type SetView<const N: usize> = [bool; N];

/// Every abstract map.
pub fn any_map<const N: usize>() -> MapView<N> {
    let mut m = [None; N];
    each!(i in N => {
        m[i] = any_option();
    });
    m
}

/// Every abstract set.
pub fn any_set<const N: usize>() -> SetView<N> {
    let mut m = [false; N];
    each!(i in N => {
        m[i] = any_bool();
    });
    m
}

pub fn map_of<K: Shape, const N: usize>(view: &MapView<N>) -> Map<K, u8> {
    assert!(K::N == N, "harness: number of inhabitants");
    let mut map = Map::new();
    each!(i in N => {
        if let Some(v) = view[i] {
            map.insert(K::nth(i), v);
        }
    });
    map
}

pub fn set_of<K: Shape, const N: usize>(view: &SetView<N>) -> Set<K> {
    assert!(K::N == N, "harness: number of inhabitants");
    let mut set = Set::new();
    each!(i in N => {
        if view[i] {
            set.insert(K::nth(i));
        }
    });
    set
}

pub fn count_map<const N: usize>(view: &MapView<N>) -> usize {
    let mut n = 0;
    each!(i in N => {
        n += view[i].is_some() as usize;
    });
    n
}

pub fn count_set<const N: usize>(view: &SetView<N>) -> usize {
    let mut n = 0;
    each!(i in N => {
        n += view[i] as usize;
    });
    n
}

/// The map's observable contents are `view`: checked at one universally
/// quantified key.
pub fn map_is<K: Shape, const N: usize>(map: &Map<K, u8>, view: &MapView<N>) {
    let j = any_below(N);
    let key = K::nth(j);
    assert!(
        map.get(key).copied() == view[j],
        "view: lookup of every key gives the value last written to it"
    );
    assert!(
        map.contains_key(key) == view[j].is_some(),
        "view: membership test of every key agrees with its lookup"
    );
}

pub fn set_is<K: Shape, const N: usize>(set: &Set<K>, view: &SetView<N>) {
    let j = any_below(N);
    assert!(
        set.contains(K::nth(j)) == view[j],
        "view: membership of every value is as last written"
    );
}

/// The entries of a view in declaration order, compacted.
pub struct Elems<K, const N: usize> {
    pub at: [Option<(K, u8)>; N],
    pub len: usize,
}

impl<K: Shape, const N: usize> Elems<K, N> {
    pub fn of_map(view: &MapView<N>) -> Self {
        let mut at = [None; N];
        let mut len = 0;
        each!(i in N => {
            if let Some(v) = view[i] {
                at[len] = Some((K::nth(i), v));
                len += 1;
            }
        });
        Elems { at, len }
    }

    pub fn of_set(view: &SetView<N>) -> Self {
        let mut at = [None; N];
        let mut len = 0;
        each!(i in N => {
            if view[i] {
                at[len] = Some((K::nth(i), 0));
                len += 1;
            }
        });
        Elems { at, len }
    }

    pub fn get(&self, i: usize) -> Option<(K, u8)> {
        if i < self.len {
            self.at[i]
        } else {
            None
        }
    }

    pub fn key(&self, i: usize) -> Option<K> {
        self.get(i).map(|(k, _)| k)
    }

    pub fn value(&self, i: usize) -> Option<u8> {
        self.get(i).map(|(_, v)| v)
    }
}

/// Reported size bounds bracket the number of elements left.
pub fn bracket(hint: (usize, Option<usize>), left: usize) {
    assert!(hint.0 <= left, "size_hint: lower bound is a lower bound");
    if let Some(upper) = hint.1 {
        assert!(upper >= left, "size_hint: upper bound is an upper bound");
    }
}

/// Observable size agrees with the contents found by lookups.
pub fn map_size<K: Shape, const N: usize>(map: &Map<K, u8>) {
    let mut n = 0;
    each!(i in N => {
        n += map.contains_key(K::nth(i)) as usize;
    });
    assert!(map.len() == n, "len: equals the number of present keys");
    assert!(map.is_empty() == (n == 0), "is_empty: iff no key is present");
}

pub fn set_size<K: Shape, const N: usize>(set: &Set<K>) {
    let mut n = 0;
    each!(i in N => {
        n += set.contains(K::nth(i)) as usize;
    });
    assert!(set.len() == n, "len: equals the number of contained values");
    assert!(set.is_empty() == (n == 0), "is_empty: iff nothing is contained");
}

/// One arbitrary operation on a map, together with its effect on the view.
pub fn map_step<K: Shape, const N: usize>(map: &mut Map<K, u8>, view: &mut MapView<N>) {
    use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};

    let op = any_below(6);
    let i = any_below(N);
    let key = K::nth(i);
    let v = any_u8();
    match op {
        0 => {
            let old = map.insert(key, v);
            assert!(old == view[i], "insert: returns the value previously stored");
            view[i] = Some(v);
        }
        1 => {
            let old = map.remove(key);
            assert!(old == view[i], "remove: returns the value stored");
            view[i] = None;
        }
        2 => {
            if let Some(slot) = map.get_mut(key) {
                *slot = v;
            }
            if view[i].is_some() {
                view[i] = Some(v);
            }
        }
        3 => {
            map.clear();
            *view = [None; N];
        }
        4 => {
            map.retain(|k, _| k == key);
            each!(j in N => {
                if j != i {
                    view[j] = None;
                }
            });
        }
        _ => match map.entry(key) {
            Entry::Occupied(mut e) => {
                if any_bool() {
                    e.remove();
                    view[i] = None;
                } else {
                    e.insert(v);
                    view[i] = Some(v);
                }
            }
            Entry::Vacant(e) => {
                e.insert(v);
                view[i] = Some(v);
            }
        },
    }
}

/// One arbitrary operation on a set, together with its effect on the view.
pub fn set_step<K: Shape, const N: usize>(set: &mut Set<K>, view: &mut SetView<N>) {
    let op = any_below(4);
    let i = any_below(N);
    let key = K::nth(i);
    match op {
        0 => {
            let new = set.insert(key);
            assert!(new != view[i], "insert: true iff the value was absent");
            view[i] = true;
        }
        1 => {
            let old = set.remove(key);
            assert!(old == view[i], "remove: true iff the value was present");
            view[i] = false;
        }
        2 => {
            set.clear();
            *view = [false; N];
        }
        _ => {
            let keep = any_bool();
            set.retain(|k| (k == key) == keep);
            each!(j in N => {
                if (j == i) != keep {
                    view[j] = false;
                }
            });
        }
    }
}

/// A container of a large key type with at most two entries.
#[derive(Clone, Copy)]
pub struct Sparse {
    pub a: usize,
    pub va: Option<u8>,
    pub b: usize,
    pub vb: Option<u8>,
}

impl Sparse {
    pub fn any(n: usize) -> Self {
        Sparse {
            a: any_below(n),
            va: any_option(),
            b: any_below(n),
            vb: any_option(),
        }
    }

    pub fn get(&self, j: usize) -> Option<u8> {
        if j == self.b && self.vb.is_some() {
            self.vb
        } else if j == self.a {
            self.va
        } else {
            None
        }
    }

    pub fn len(&self) -> usize {
        let second = self.vb.is_some() && !(self.a == self.b && self.va.is_some());
        self.va.is_some() as usize + second as usize
    }

    /// The entries in order.
    pub fn elems(&self) -> [Option<(usize, u8)>; 2] {
        let (first, second) = if self.a <= self.b {
            (self.a, self.b)
        } else {
            (self.b, self.a)
        };
        let x = self.get(first).map(|v| (first, v));
        let y = if second == first {
            None
        } else {
            self.get(second).map(|v| (second, v))
        };
        match (x, y) {
            (None, y) => [y, None],
            (x, y) => [x, y],
        }
    }

    pub fn map<K: Shape>(&self) -> Map<K, u8> {
        let mut map = Map::new();
        if let Some(v) = self.va {
            map.insert(K::nth(self.a), v);
        }
        if let Some(v) = self.vb {
            map.insert(K::nth(self.b), v);
        }
        map
    }

    pub fn set<K: Shape>(&self) -> Set<K> {
        let mut set = Set::new();
        if self.va.is_some() {
            set.insert(K::nth(self.a));
        }
        if self.vb.is_some() {
            set.insert(K::nth(self.b));
        }
        set
    }
}

/// A map in any state, reached through building and one arbitrary operation.
pub fn lived_map<K: Shape, const N: usize>() -> (Map<K, u8>, MapView<N>) {
    let mut view = any_map::<N>();
    let mut map = map_of::<K, N>(&view);
    map_step::<K, N>(&mut map, &mut view);
    (map, view)
}

/// A set in any state, reached through building and one arbitrary operation.
pub fn lived_set<K: Shape, const N: usize>() -> (Set<K>, SetView<N>) {
    let mut view = any_set::<N>();
    let mut set = set_of::<K, N>(&view);
    set_step::<K, N>(&mut set, &mut view);
    (set, view)
}

/// A map of a large key, in any state.
pub fn dense_map<K: Shape, const N: usize>() -> (Map<K, u8>, MapView<N>) {
    assert!(K::N == N, "harness: number of inhabitants");
    let mut view = [None; N];
    let mut map = Map::new();
    let mut i = 0;
    while i < N {
        view[i] = any_option();
        if let Some(v) = view[i] {
            map.insert(K::nth(i), v);
        }
        i += 1;
    }
    (map, view)
}

/// A set of a large key, in any state.
pub fn dense_set<K: Shape, const N: usize>() -> (Set<K>, SetView<N>) {
    assert!(K::N == N, "harness: number of inhabitants");
    let mut view = [false; N];
    let mut set = Set::new();
    let mut i = 0;
    while i < N {
        view[i] = any_bool();
        if view[i] {
            set.insert(K::nth(i));
        }
        i += 1;
    }
    (set, view)
}
