//! C09: every stored value is dropped exactly once and memory stays safe.
//!
//! The verifier checks every pointer operation, every `unreachable_unchecked`
//! and every arithmetic operation it meets for undefined behaviour, in addition
//! to the contracts below.

use crate::nd::*;
use crate::shapes::*;
use core::cell::Cell;
use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fixed_map::option_bucket::{NoneBucket, OptionBucket, SomeBucket};
use fixed_map::Map;

/// Ghost state: how often each value was dropped.
pub struct Ledger<const M: usize>([Cell<u8>; M]);

impl<const M: usize> Ledger<M> {
    fn new() -> Self {
        Ledger([const { Cell::new(0) }; M])
    }
    fn tracked(&self, id: usize) -> Tracked<'_> {
        Tracked { drops: &self.0[id], alive: true }
    }
    /// Every one of the given values is gone, once.
    fn all_once(&self, created: [bool; M]) {
        each!(i in M => {
            let n = self.0[i].get();
            assert!(n <= 1, "drops: no value is dropped twice");
            assert!(n == created[i] as u8, "drops: every value is dropped");
        });
    }
}

/// A value which notices being dropped.
pub struct Tracked<'a> {
    drops: &'a Cell<u8>,
    alive: bool,
}

impl Tracked<'_> {
    fn use_it(&self) {
        assert!(
            self.alive && self.drops.get() == 0,
            "drops: no value is used after it was given up"
        );
    }
}

impl Drop for Tracked<'_> {
    fn drop(&mut self) {
        self.use_it();
        self.alive = false;
        self.drops.set(self.drops.get() + 1);
    }
}

/// A map over arbitrary present keys whose values are tracked as `0..N`.
fn tracked_map<'a, K: Shape, const N: usize, const M: usize>(
    ledger: &'a Ledger<M>,
    created: &mut [bool; M],
) -> Map<K, Tracked<'a>> {
    let mut map = Map::new();
    each!(i in N => {
        if any_bool() {
            created[i] = true;
            drop(map.insert(K::nth(i), ledger.tracked(i)));
        }
    });
    map
}

/// `ensures` after an arbitrary operation and dropping everything, each value
/// was dropped exactly once, and the operation dropped only what it gave up.
pub fn operation<K: Shape, const N: usize>() {
    const EXTRA: usize = 10;
    let ledger = Ledger::<EXTRA>::new();
    let mut created = [false; EXTRA];
    let mut map = tracked_map::<K, N, EXTRA>(&ledger, &mut created);
    let key = K::nth(any_below(N));
    created[9] = true;
    let new = ledger.tracked(9);
    let mut unused = None;
    match any_below(8) {
        0 => {
            if let Some(old) = map.insert(key, new) {
                old.use_it();
            }
        }
        1 => {
            if let Some(old) = map.remove(key) {
                old.use_it();
            }
            unused = Some(new);
        }
        2 => {
            let before = map.len();
            map.clear();
            let mut gone = 0;
            each!(i in N => {
                gone += ledger.0[i].get() as usize;
            });
            assert!(gone == before, "clear: drops the values at once");
            unused = Some(new);
        }
        3 => {
            map.retain(|k, v| {
                v.use_it();
                (k == key) == any_bool()
            });
            unused = Some(new);
        }
        4 => {
            if let Some(slot) = map.get_mut(key) {
                slot.use_it();
                *slot = new;
            } else {
                drop(new);
            }
        }
        5 => match map.entry(key) {
            Entry::Occupied(mut e) => {
                e.get().use_it();
                let old = e.insert(new);
                old.use_it();
                drop(old);
                e.get().use_it();
            }
            Entry::Vacant(e) => e.insert(new).use_it(),
        },
        6 => match map.entry(key) {
            Entry::Occupied(e) => {
                e.remove().use_it();
                unused = Some(new);
            }
            Entry::Vacant(e) => drop((e.key(), new)),
        },
        _ => map.entry(key).and_modify(|v| v.use_it()).or_insert(new).use_it(),
    }
    if let Some(unused) = &unused {
        unused.use_it();
    }
    // What is still found is alive, and is all there is.
    let mut found = 0;
    each!(i in N => {
        if let Some(v) = map.get(K::nth(i)) {
            v.use_it();
            found += 1;
        }
    });
    let mut alive = unused.is_some() as usize;
    alive += found;
    let mut expected = 0;
    each!(i in EXTRA => {
        expected += (created[i] && ledger.0[i].get() == 0) as usize;
    });
    assert!(alive == expected, "drops: what is not dropped is still held");
    drop(unused);
    drop(map);
    ledger.all_once(created);
}

/// `ensures` consuming iteration, stopped anywhere, loses nothing.
pub fn consume<K: Shape, const N: usize>() {
    let ledger = Ledger::<N>::new();
    let mut created = [false; N];
    let map = tracked_map::<K, N, N>(&ledger, &mut created);
    let mut it = map.into_iter();
    each!(_n in N => {
        if any_bool() {
            if let Some((_, v)) = it.next() {
                v.use_it();
            }
        }
    });
    drop(it);
    ledger.all_once(created);
}

/// `ensures` references yielded by iteration are to live values.
pub fn borrow<K: Shape, const N: usize>() {
    let ledger = Ledger::<N>::new();
    let mut created = [false; N];
    let mut map = tracked_map::<K, N, N>(&ledger, &mut created);
    match any_below(4) {
        0 => map.iter().for_each(|(_, v)| v.use_it()),
        1 => map.values().for_each(|v| v.use_it()),
        2 => map.iter_mut().for_each(|(_, v)| v.use_it()),
        _ => map.values_mut().for_each(|v| v.use_it()),
    }
    drop(map);
    ledger.all_once(created);
}

/// `ensures` replaced values are dropped while collecting.
pub fn collect<K: Shape, const N: usize>() {
    let ledger = Ledger::<3>::new();
    let i = [any_below(N), any_below(N), any_below(N)];
    let map: Map<K, Tracked<'_>> = [
        (K::nth(i[0]), ledger.tracked(0)),
        (K::nth(i[1]), ledger.tracked(1)),
        (K::nth(i[2]), ledger.tracked(2)),
    ]
    .into_iter()
    .collect();
    each!(n in 3 => {
        if let Some(v) = map.get(K::nth(i[n])) {
            v.use_it();
        }
    });
    assert!(
        ledger.0[0].get() == (i[0] == i[1] || i[0] == i[2]) as u8,
        "collect: replaced values are dropped"
    );
    drop(map);
    ledger.all_once([true; 3]);
}

/// `ensures` heap allocated values are neither freed twice nor used after.
pub fn heap<K: Shape, const N: usize>() {
    let mut map = Map::<K, Box<u8>>::new();
    let i = any_below(N);
    let v = any_u8();
    drop(map.insert(K::nth(any_below(N)), Box::new(1)));
    drop(map.insert(K::nth(i), Box::new(v)));
    match any_below(4) {
        0 => drop(map.remove(K::nth(any_below(N)))),
        1 => map.clear(),
        2 => {
            let slot = map.entry(K::nth(i)).or_insert(Box::new(2));
            assert!(**slot == v, "memory: refers to the stored value");
            **slot = 3;
        }
        _ => {
            let old = map.insert(K::nth(i), Box::new(4));
            assert!(old.map(|b| *b) == Some(v), "memory: hands back the stored value");
        }
    }
    let j = any_below(N);
    if let Some(b) = map.get(K::nth(j)) {
        assert!(**b == v || **b <= 4, "memory: refers to a stored value");
    }
    if any_bool() {
        let mut it = map.into_iter();
        let first = it.next();
        drop(it);
        if let Some((_, b)) = first {
            assert!(*b == v || *b <= 4, "memory: yields a stored value");
        }
    }
}

macro_rules! small {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        proofs!($name, $K, $N, $U; operation, consume, borrow, collect);
    };
}
small!(unit1, U1, 1, 5);
small!(unit3, U3, 3, 5);
small!(singleton, (), 1, 5);
small!(boolean, bool, 2, 5);
small!(opt_singleton, Option<()>, 2, 5);
small!(opt_boolean, Option<bool>, 3, 5);
small!(comp_unit, Unit, 3, 5);
small!(comp_tiny, Tiny, 3, 5);
small!(comp_empty, Empty, 2, 5);

macro_rules! operations {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        proofs!($name, $K, $N, $U; operation, collect);
    };
}
operations!(unit4, U4, 4, 6);
operations!(opt_opt_boolean, Option<Option<bool>>, 4, 6);
operations!(opt_composite, Option<Inner>, 4, 6);
operations!(opt_unit2, Option<U2>, 3, 5);
operations!(comp_mid, Mid, 4, 6);
operations!(comp_opt, Opt, 4, 6);
operations!(comp_outer, Outer, 4, 6);
operations!(comp_pair, Pair, 4, 6);

/// `ensures` consuming iteration from both ends, stopped anywhere, loses nothing.
pub mod ends {
    use super::*;
    macro_rules! ends {
        ($name:ident, $K:ty, $N:expr, $U:expr) => {
            proof!($name, $U, {
                let ledger = Ledger::<{ $N }>::new();
                let mut created = [false; $N];
                let map = tracked_map::<$K, { $N }, { $N }>(&ledger, &mut created);
                let mut it = map.into_iter();
                if any_bool() {
                    if let Some((_, v)) = it.next() {
                        v.use_it();
                    }
                }
                if any_bool() {
                    if let Some((_, v)) = it.next_back() {
                        v.use_it();
                    }
                }
                drop(it);
                ledger.all_once(created);
            });
        };
    }
    ends!(unit3, U3, 3, 5);
    ends!(singleton, (), 1, 5);
    ends!(boolean, bool, 2, 5);
    ends!(opt_boolean, Option<bool>, 3, 5);
    ends!(comp_tiny, Tiny, 3, 5);
}

pub mod heap_values {
    use super::*;
    proofs!(unit3, U3, 3, 5; heap);
    proofs!(singleton, (), 1, 5; heap);
    proofs!(boolean, bool, 2, 5; heap);
    proofs!(opt_boolean, Option<bool>, 3, 5; heap);
    proofs!(comp_tiny, Tiny, 3, 5; heap);
}

/// The contracts of the low-level option handles.
pub mod buckets {
    use super::*;

    fn payload(opt: &Option<u8>) -> *const u8 {
        match opt {
            Some(v) => v,
            None => core::ptr::null(),
        }
    }

    proof!(some_new, 2, {
        let mut opt = any_option();
        let before = opt;
        let at = payload(&opt);
        let v = any_u8();
        let mut after = before;
        match SomeBucket::new(&mut opt) {
            Some(mut bucket) => {
                assert!(before.is_some(), "SomeBucket::new: only for Some");
                assert!(Some(*bucket.as_ref()) == before, "SomeBucket::as_ref: the value");
                assert!(bucket.as_ref() as *const u8 == at, "SomeBucket::as_ref: points into the option");
                assert!(bucket.as_mut() as *const u8 == at, "SomeBucket::as_mut: points into the option");
                match any_below(5) {
                    0 => {
                        *bucket.as_mut() = v;
                        assert!(*bucket.as_ref() == v, "SomeBucket::as_mut: writes the value");
                        after = Some(v);
                    }
                    1 => {
                        let slot = bucket.into_mut();
                        assert!(slot as *const u8 == at, "SomeBucket::into_mut: points into the option");
                        assert!(Some(*slot) == before, "SomeBucket::into_mut: the value");
                        *slot = v;
                        after = Some(v);
                    }
                    2 => {
                        assert!(Some(bucket.replace(v)) == before, "SomeBucket::replace: hands back the old value");
                        assert!(*bucket.as_ref() == v, "SomeBucket::replace: stores the new value");
                        after = Some(v);
                    }
                    3 => {
                        assert!(Some(bucket.take()) == before, "SomeBucket::take: hands back the value");
                        after = None;
                    }
                    _ => {}
                }
            }
            None => assert!(before.is_none(), "SomeBucket::new: for every Some"),
        }
        assert!(opt == after, "SomeBucket: the option is as last written");
    });

    proof!(some_new_unchecked, 2, {
        let v = any_u8();
        let mut opt = Some(any_u8());
        let before = opt;
        // SAFETY: it is Some.
        let mut bucket = unsafe { SomeBucket::new_unchecked(&mut opt) };
        assert!(Some(*bucket.as_ref()) == before, "SomeBucket::new_unchecked: the value");
        assert!(Some(bucket.replace(v)) == before, "SomeBucket::replace: hands back the old value");
        assert!(bucket.take() == v, "SomeBucket::take: hands back the value");
        assert!(opt.is_none(), "SomeBucket::take: empties the option");
    });

    proof!(none_new, 2, {
        let mut opt = any_option();
        let before = opt;
        let v = any_u8();
        let w = any_u8();
        let mut after = before;
        match NoneBucket::new(&mut opt) {
            Some(bucket) => {
                assert!(before.is_none(), "NoneBucket::new: only for None");
                if any_bool() {
                    let slot = bucket.insert(v);
                    assert!(*slot == v, "NoneBucket::insert: refers to the inserted value");
                    *slot = w;
                    after = Some(w);
                }
            }
            None => assert!(before.is_some(), "NoneBucket::new: for every None"),
        }
        assert!(opt == after, "NoneBucket: the option is as last written");
    });

    proof!(none_new_unchecked, 2, {
        let v = any_u8();
        let mut opt = None;
        // SAFETY: it is None.
        let bucket = unsafe { NoneBucket::new_unchecked(&mut opt) };
        assert!(*bucket.insert(v) == v, "NoneBucket::insert: refers to the inserted value");
        assert!(opt == Some(v), "NoneBucket::insert: fills the option");
    });

    proof!(option_new, 2, {
        let mut opt = any_option();
        let before = opt;
        let v = any_u8();
        let after = match OptionBucket::new(&mut opt) {
            OptionBucket::Some(bucket) => {
                assert!(before.is_some(), "OptionBucket::new: Some only for Some");
                assert!(Some(*bucket.into_mut()) == before, "OptionBucket: the value");
                before
            }
            OptionBucket::None(bucket) => {
                assert!(before.is_none(), "OptionBucket::new: None only for None");
                assert!(*bucket.insert(v) == v, "OptionBucket: the inserted value");
                Some(v)
            }
        };
        assert!(opt == after, "OptionBucket: the option is as last written");
    });

    proof!(drops, 2, {
        let ledger = Ledger::<2>::new();
        let present = any_bool();
        let mut opt = if present { Some(ledger.tracked(0)) } else { None };
        match OptionBucket::new(&mut opt) {
            OptionBucket::Some(mut bucket) => {
                bucket.as_ref().use_it();
                let new = ledger.tracked(1);
                match any_below(4) {
                    0 => bucket.replace(new).use_it(),
                    1 => {
                        drop(new);
                        bucket.take().use_it();
                    }
                    2 => *bucket.into_mut() = new,
                    _ => {
                        drop(new);
                        bucket.as_mut().use_it();
                    }
                }
            }
            OptionBucket::None(bucket) => bucket.insert(ledger.tracked(1)).use_it(),
        }
        if let Some(v) = &opt {
            v.use_it();
        }
        drop(opt);
        ledger.all_once([present, true]);
    });
}
