//! C16: dynamic keys obey the same map and set contract.

use crate::nd::*;
use core::fmt::Debug;
use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fixed_map::{Key, Map, Set};

/// A key with an unbounded domain: any value of it, and its place in the
/// declaration where it has one.
pub trait Dynamic: Key + Copy + PartialEq + Eq + Debug {
    fn any() -> Self;
    /// The rank which iteration has to respect: entries of one variant are
    /// together, in declaration order.
    fn rank(&self) -> u8 {
        0
    }
}

macro_rules! integers {
    ($($t:ty, $any:ident;)*) => {
        $(impl Dynamic for $t {
            fn any() -> Self {
                $any() as $t
            }
        })*
    };
}
integers! {
    u8, any_u8;
    u32, any_u32;
    u64, any_u64;
    u128, any_u128;
    usize, any_u64;
    i8, any_u8;
    i32, any_u32;
    i64, any_u64;
    i128, any_u128;
    isize, any_u64;
}

impl Dynamic for char {
    fn any() -> Self {
        match char::from_u32(any_u32()) {
            Some(c) => c,
            None => {
                assume(false);
                '\0'
            }
        }
    }
}

impl Dynamic for &'static str {
    fn any() -> Self {
        match any_below(4) {
            0 => "",
            1 => "a",
            2 => "b",
            _ => "ab",
        }
    }
}

impl Dynamic for &'static [u8] {
    fn any() -> Self {
        match any_below(4) {
            0 => b"",
            1 => b"a",
            2 => b"b",
            _ => b"ab",
        }
    }
}

impl<T: Dynamic> Dynamic for Option<T> {
    fn any() -> Self {
        if any_bool() {
            Some(T::any())
        } else {
            None
        }
    }
    fn rank(&self) -> u8 {
        match self {
            Some(k) => k.rank(),
            None => 100,
        }
    }
}

/// Dynamic keys inside enum variants.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum Dyn {
    A(u32),
    B,
    C(Option<u8>),
}

impl Dynamic for Dyn {
    fn any() -> Self {
        match any_below(3) {
            0 => Dyn::A(any_u32()),
            1 => Dyn::B,
            _ => Dyn::C(Option::<u8>::any()),
        }
    }
    fn rank(&self) -> u8 {
        match self {
            Dyn::A(_) => 0,
            Dyn::B => 1,
            Dyn::C(Some(_)) => 2,
            Dyn::C(None) => 3,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
pub enum Two {
    L(u8),
    R(u8),
}

impl Dynamic for Two {
    fn any() -> Self {
        if any_bool() {
            Two::L(any_u8())
        } else {
            Two::R(any_u8())
        }
    }
    fn rank(&self) -> u8 {
        matches!(self, Two::R(_)) as u8
    }
}

/// The abstract view of a container after inserting at most two entries.
#[derive(Clone, Copy)]
pub struct State<K> {
    a: K,
    va: Option<u8>,
    b: K,
    vb: Option<u8>,
}

impl<K: Dynamic> State<K> {
    pub fn any() -> Self {
        hashbrown::order(any_bool());
        State {
            a: K::any(),
            va: any_option(),
            b: K::any(),
            vb: any_option(),
        }
    }
    fn get(&self, k: K) -> Option<u8> {
        if self.vb.is_some() && k == self.b {
            self.vb
        } else if k == self.a {
            self.va
        } else {
            None
        }
    }
    fn has(&self, k: K) -> bool {
        self.get(k).is_some()
    }
    fn len(&self) -> usize {
        let twice = self.va.is_some() && self.vb.is_some() && self.a == self.b;
        self.va.is_some() as usize + self.vb.is_some() as usize - twice as usize
    }
    fn map(&self) -> Map<K, u8> {
        let mut map = Map::new();
        if let Some(v) = self.va {
            map.insert(self.a, v);
        }
        if let Some(v) = self.vb {
            map.insert(self.b, v);
        }
        map
    }
    fn set(&self) -> Set<K> {
        let mut set = Set::new();
        if self.va.is_some() {
            set.insert(self.a);
        }
        if self.vb.is_some() {
            set.insert(self.b);
        }
        set
    }
}

fn map_is<K: Dynamic>(map: &Map<K, u8>, view: impl Fn(K) -> Option<u8>) {
    let k = K::any();
    assert!(map.get(k).copied() == view(k), "view: lookup of every key gives its last value");
    assert!(map.contains_key(k) == view(k).is_some(), "view: membership agrees with lookup");
}

/// `ensures` the point operations act on exactly their key.
pub fn map_point<K: Dynamic>() {
    let s = State::<K>::any();
    let mut map = s.map();
    map_is(&map, |k| s.get(k));
    assert!(map.len() == s.len(), "len: the number of present keys");
    assert!(map.is_empty() == (s.len() == 0), "is_empty: iff no key is present");
    let key = K::any();
    let v = any_u8();
    let old = s.get(key);
    let new = match any_below(4) {
        0 => {
            assert!(map.insert(key, v) == old, "insert: returns the previous value");
            Some(v)
        }
        1 => {
            assert!(map.remove(key) == old, "remove: returns the value");
            None
        }
        2 => {
            let slot = map.get_mut(key);
            assert!(slot.is_some() == old.is_some(), "get_mut: agrees with get");
            if let Some(slot) = slot {
                assert!(Some(*slot) == old, "get_mut: agrees with get");
                *slot = v;
            }
            old.map(|_| v)
        }
        _ => {
            map.clear();
            assert!(map.is_empty() && map.len() == 0, "clear: forgets everything");
            map_is(&map, |_| None);
            return;
        }
    };
    map_is(&map, |k| if k == key { new } else { s.get(k) });
    let len = s.len() - old.is_some() as usize + new.is_some() as usize;
    assert!(map.len() == len, "len: the number of present keys");
    assert!(map.is_empty() == (len == 0), "is_empty: iff no key is present");
}

pub fn map_entry<K: Dynamic>() {
    let s = State::<K>::any();
    let mut map = s.map();
    let key = K::any();
    let v = any_u8();
    let old = s.get(key);
    let new = match map.entry(key) {
        Entry::Occupied(mut e) => {
            assert!(old.is_some(), "entry: occupied only for a present key");
            assert!(e.key() == key, "occupied: carries its key");
            assert!(Some(*e.get()) == old, "occupied: shows the current value");
            match any_below(4) {
                0 => {
                    assert!(Some(e.insert(v)) == old, "occupied.insert: returns the old value");
                    Some(v)
                }
                1 => {
                    assert!(Some(e.remove()) == old, "occupied.remove: returns the value");
                    None
                }
                2 => {
                    *e.get_mut() = v;
                    Some(v)
                }
                _ => {
                    *e.into_mut() = v;
                    Some(v)
                }
            }
        }
        Entry::Vacant(e) => {
            assert!(old.is_none(), "entry: vacant only for an absent key");
            assert!(e.key() == key, "vacant: carries its key");
            if any_bool() {
                assert!(*e.insert(v) == v, "vacant.insert: refers to the value");
                Some(v)
            } else {
                None
            }
        }
    };
    map_is(&map, |k| if k == key { new } else { s.get(k) });
}

pub fn map_retain<K: Dynamic>() {
    let s = State::<K>::any();
    let mut map = s.map();
    let keep_a = any_bool();
    let keep_b = any_bool();
    let new = any_u8();
    let keep = |k: K| if k == s.a { keep_a } else { keep_b };
    let mut n = 0;
    map.retain(|k, v| {
        assert!(Some(*v) == s.get(k), "retain: is given each entry's value");
        n += 1;
        *v = new;
        keep(k)
    });
    assert!(n == s.len(), "retain: asks once for each present entry");
    map_is(&map, |k| if keep(k) { s.get(k).map(|_| new) } else { None });
}

/// Each entry once, and then no more.
struct Seen<K> {
    first: Option<K>,
    n: usize,
}

impl<K: Dynamic> Seen<K> {
    fn new() -> Self {
        Seen { first: None, n: 0 }
    }
    fn key(&mut self, s: &State<K>, k: K) {
        assert!(s.has(k), "iteration: yields only what is present");
        if let Some(f) = self.first {
            assert!(f != k, "iteration: yields nothing twice");
            assert!(f.rank() <= k.rank(), "iteration: variants in declaration order");
        } else {
            self.first = Some(k);
        }
        self.n += 1;
    }
    fn all(&self, s: &State<K>) {
        assert!(self.n == s.len(), "iteration: yields everything");
    }
}

pub fn map_iter<K: Dynamic>() {
    let s = State::<K>::any();
    let map = s.map();
    let mut seen = Seen::new();
    let mut it = map.iter();
    each!(_n in 2 => {
        if let Some((k, v)) = it.next() {
            seen.key(&s, k);
            assert!(Some(*v) == s.get(k), "iter: each key with its value");
        }
    });
    assert!(it.next().is_none(), "iter: ends after the last entry");
    seen.all(&s);
}

pub fn map_keys<K: Dynamic>() {
    let s = State::<K>::any();
    let map = s.map();
    let mut seen = Seen::new();
    let mut it = map.keys();
    each!(_n in 2 => {
        if let Some(k) = it.next() {
            seen.key(&s, k);
        }
    });
    assert!(it.next().is_none(), "keys: ends after the last key");
    seen.all(&s);
}

pub fn map_into_iter<K: Dynamic>() {
    let s = State::<K>::any();
    let map = s.map();
    let mut seen = Seen::new();
    let mut it = map.into_iter();
    each!(_n in 2 => {
        if let Some((k, v)) = it.next() {
            seen.key(&s, k);
            assert!(Some(v) == s.get(k), "into_iter: each key with its value");
        }
    });
    assert!(it.next().is_none(), "into_iter: ends after the last entry");
    seen.all(&s);
}

pub fn map_iter_mut<K: Dynamic>() {
    let s = State::<K>::any();
    let mut map = s.map();
    let mut seen = Seen::new();
    let va = any_u8();
    let vb = any_u8();
    let new = |k: K| if k == s.a { va } else { vb };
    {
        let mut it = map.iter_mut();
        each!(_n in 2 => {
            if let Some((k, v)) = it.next() {
                seen.key(&s, k);
                assert!(Some(*v) == s.get(k), "iter_mut: each key with its value");
                *v = new(k);
            }
        });
        assert!(it.next().is_none(), "iter_mut: ends after the last entry");
    }
    map_is(&map, |k| s.get(k).map(|_| new(k)));
    seen.all(&s);
}

/// The values are those of `iter`, in its order.
pub fn map_values<K: Dynamic>() {
    let s = State::<K>::any();
    let mut map = s.map();
    let mut want = [None; 2];
    let mut n = 0;
    {
        let mut it = map.iter();
        each!(_n in 2 => {
            if let Some((_, v)) = it.next() {
                want[n] = Some(*v);
                n += 1;
            }
        });
    }
    if any_bool() {
        let mut it = map.values();
        each!(i in 2 => {
            assert!(it.next().copied() == want[i], "values: the values of iter");
        });
        assert!(it.next().is_none(), "values: ends after the last value");
    } else {
        let new = any_u8();
        {
            let mut it = map.values_mut();
            each!(i in 2 => {
                let slot = it.next();
                assert!(slot.as_ref().map(|v| **v) == want[i], "values_mut: the values of iter");
                if let Some(slot) = slot {
                    *slot = new;
                }
            });
            assert!(it.next().is_none(), "values_mut: ends after the last value");
        }
        map_is(&map, |k| s.get(k).map(|_| new));
    }
}

pub fn map_bulk<K: Dynamic>() {
    let s = State::<K>::any();
    let c = K::any();
    let vc = any_u8();
    let want = |k: K| if k == c { Some(vc) } else { s.get(k) };
    let map: Map<K, u8> = [s.va.map(|v| (s.a, v)), s.vb.map(|v| (s.b, v)), Some((c, vc))]
        .into_iter()
        .flatten()
        .collect();
    map_is(&map, want);
    let none = Map::<K, u8>::default();
    map_is(&none, |_| None);
    assert!(none.is_empty(), "default: an empty map");
}

pub fn map_eq<K: Dynamic>()
where
    Map<K, u8>: PartialEq + Clone,
{
    let s = State::<K>::any();
    let mut x = s.map();
    hashbrown::order(any_bool());
    let t = State::<K>::any();
    let y = t.map();
    let same = s.get(s.a) == t.get(s.a)
        && s.get(s.b) == t.get(s.b)
        && s.get(t.a) == t.get(t.a)
        && s.get(t.b) == t.get(t.b);
    assert!((x == y) == same, "eq: iff the contents are equal");
    let copy = x.clone();
    assert!(copy == x, "clone: equals its original");
    x.insert(K::any(), any_u8());
    map_is(&copy, |k| s.get(k));
}

fn set_is<K: Dynamic>(set: &Set<K>, view: impl Fn(K) -> bool) {
    let k = K::any();
    assert!(set.contains(k) == view(k), "view: membership of every value is as last written");
}

pub fn set_point<K: Dynamic>() {
    let s = State::<K>::any();
    let mut set = s.set();
    set_is(&set, |k| s.has(k));
    assert!(set.len() == s.len(), "len: the number of values");
    assert!(set.is_empty() == (s.len() == 0), "is_empty: iff no value");
    let key = K::any();
    let old = s.has(key);
    let new = match any_below(3) {
        0 => {
            assert!(set.insert(key) != old, "insert: true iff the value was absent");
            true
        }
        1 => {
            assert!(set.remove(key) == old, "remove: true iff the value was present");
            false
        }
        _ => {
            set.clear();
            assert!(set.is_empty() && set.len() == 0, "clear: forgets everything");
            set_is(&set, |_| false);
            return;
        }
    };
    set_is(&set, |k| if k == key { new } else { s.has(k) });
    let len = s.len() - old as usize + new as usize;
    assert!(set.len() == len, "len: the number of values");
    assert!(set.is_empty() == (len == 0), "is_empty: iff no value");
}

pub fn set_retain<K: Dynamic>() {
    let s = State::<K>::any();
    let mut set = s.set();
    let keep_a = any_bool();
    let keep_b = any_bool();
    let keep = |k: K| if k == s.a { keep_a } else { keep_b };
    let mut n = 0;
    set.retain(|k| {
        assert!(s.has(k), "retain: asks only for contained values");
        n += 1;
        keep(k)
    });
    assert!(n == s.len(), "retain: asks once for each contained value");
    set_is(&set, |k| s.has(k) && keep(k));
}

pub fn set_iterate<K: Dynamic>() {
    let s = State::<K>::any();
    let set = s.set();
    let mut seen = Seen::new();
    if any_bool() {
        let mut it = set.iter();
        each!(_n in 2 => {
            if let Some(k) = it.next() {
                seen.key(&s, k);
            }
        });
        assert!(it.next().is_none(), "iter: ends after the last value");
    } else {
        let mut it = set.into_iter();
        each!(_n in 2 => {
            if let Some(k) = it.next() {
                seen.key(&s, k);
            }
        });
        assert!(it.next().is_none(), "into_iter: ends after the last value");
    }
    seen.all(&s);
}

pub fn set_bulk<K: Dynamic>() {
    hashbrown::order(any_bool());
    let k = [K::any(), K::any(), K::any()];
    let want = |j: K| k[0] == j || k[1] == j || k[2] == j;
    if any_bool() {
        set_is(&k.into_iter().collect::<Set<K>>(), want);
    } else {
        set_is(&Set::from(k), want);
    }
    let none = Set::<K>::default();
    set_is(&none, |_| false);
    assert!(none.is_empty(), "default: an empty set");
}

pub fn set_eq<K: Dynamic>()
where
    Set<K>: PartialEq + Clone,
{
    let s = State::<K>::any();
    let mut x = s.set();
    hashbrown::order(any_bool());
    let t = State::<K>::any();
    let y = t.set();
    let same = s.has(s.a) == t.has(s.a)
        && s.has(s.b) == t.has(s.b)
        && s.has(t.a) == t.has(t.a)
        && s.has(t.b) == t.has(t.b);
    assert!((x == y) == same, "eq: iff the contents are equal");
    let copy = x.clone();
    assert!(copy == x, "clone: equals its original");
    x.insert(K::any());
    set_is(&copy, |k| s.has(k));
}

pub fn set_intersection<K: Dynamic>() {
    let s = State::<K>::any();
    let t = State::<K>::any();
    let x = s.set();
    let y = t.set();
    let mut first = None;
    let mut n = 0;
    {
        let mut it = x.intersection(&y);
        each!(_n in 2 => {
            if let Some(k) = it.next() {
                assert!(s.has(k) && t.has(k), "intersection: yields only common values");
                assert!(first != Some(k), "intersection: yields nothing twice");
                first = Some(k);
                n += 1;
            }
        });
        assert!(it.next().is_none(), "intersection: ends after the last common value");
    }
    let same = s.va.is_some() && s.vb.is_some() && s.a == s.b;
    let common = (s.va.is_some() && t.has(s.a)) as usize
        + (s.vb.is_some() && !same && t.has(s.b)) as usize;
    assert!(n == common, "intersection: yields every common value");
}

macro_rules! proofs_of {
    ($name:ident, $K:ty, $U:expr; $($c:ident),* $(,)?) => {
        pub mod $name {
            #[allow(unused_imports)]
            use super::*;
            $(proof!($c, $U, super::$c::<$K>());)*
        }
    };
}

macro_rules! all {
    ($name:ident, $K:ty) => {
        proofs_of!($name, $K, 6; map_point, map_entry, map_retain, map_iter, map_keys, map_into_iter, map_iter_mut, map_values,
            map_bulk, map_eq, set_point, set_retain, set_iterate, set_bulk, set_eq, set_intersection);
    };
}
all!(key_u32, u32);
all!(key_option, Option<u8>);

macro_rules! some {
    ($name:ident, $K:ty) => {
        proofs_of!($name, $K, 6; map_point, set_point);
    };
}
some!(key_char, char);
some!(key_u8, u8);
some!(key_u64, u64);
some!(key_u128, u128);
some!(key_usize, usize);
some!(key_i8, i8);
some!(key_i32, i32);
some!(key_i64, i64);
some!(key_i128, i128);
some!(key_isize, isize);
some!(key_str, &'static str);
some!(key_bytes, &'static [u8]);
some!(key_dyn, Dyn);
proofs_of!(key_two, Two, 6; map_point, map_entry, map_retain, map_iter, map_keys, map_into_iter, map_iter_mut, map_bulk,
    set_point, set_retain, set_iterate, set_bulk);

#[cfg(feature = "thorough")]
pub mod thorough {
    use super::*;
    all!(key_char, char);
    proofs_of!(key_two, Two, 6; map_values, map_eq, set_eq, set_intersection);
    all!(key_dyn, Dyn);
    all!(key_str, &'static str);
    all!(key_option_two, Option<Two>);
}
