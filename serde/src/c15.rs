//! C15: serialization round-trips and announces the right length.

use crate::format::*;
use crate::nd::*;
use crate::shapes::*;
use crate::spec::*;
use core::cell::Cell;
use fixed_map::{Map, Set};
use serde::{Deserialize, Serialize};

const NEVER: u8 = 255;

/// `ensures` a map with the announced length and each entry in order.
pub fn write_map<K: Shape + Serialize, const N: usize>() {
    let view = any_map::<N>();
    let e = Elems::<K, N>::of_map(&view);
    let map = map_of::<K, N>(&view);
    let log = Log::new(NEVER, 0);
    let done = map.serialize(Writer(&log));
    assert!(done == Ok(Done), "serialize: passes on the writer's result");
    assert!(log.map.get() && log.begun.get() == 1, "serialize: a map is written as one map");
    assert!(log.announced.get() == Some(e.len), "serialize: announces the number of entries");
    assert!(log.n_keys.get() == e.len, "serialize: writes every entry");
    assert!(log.n_values.get() == e.len, "serialize: writes every value");
    assert!(log.ended.get() == 1, "serialize: ends the map");
    let j = any_below(N);
    if j < e.len {
        let k = K::nth(log.keys[j].get() as usize);
        assert!(
            e.get(j) == Some((k, log.values[j].get())),
            "serialize: writes the entries in iteration order"
        );
    }
}

pub fn write_set<K: Shape + Serialize, const N: usize>() {
    let view = any_set::<N>();
    let e = Elems::<K, N>::of_set(&view);
    let set = set_of::<K, N>(&view);
    let log = Log::new(NEVER, 0);
    let done = set.serialize(Writer(&log));
    assert!(done == Ok(Done), "serialize: passes on the writer's result");
    assert!(!log.map.get() && log.begun.get() == 1, "serialize: a set is written as one sequence");
    assert!(log.announced.get() == Some(e.len), "serialize: announces the number of values");
    assert!(log.n_keys.get() == e.len, "serialize: writes every value");
    assert!(log.ended.get() == 1, "serialize: ends the sequence");
    let j = any_below(N);
    if j < e.len {
        assert!(
            e.key(j) == Some(K::nth(log.keys[j].get() as usize)),
            "serialize: writes the values in iteration order"
        );
    }
}

/// `ensures` the writer's error comes back unchanged, and ends the writing.
pub fn write_map_error<K: Shape + Serialize, const N: usize>() {
    let view = any_map::<N>();
    let len = count_map(&view);
    let map = map_of::<K, N>(&view);
    let log = Log::new(any_below(2 * N + 2) as u8, any_u8());
    let done = map.serialize(Writer(&log));
    if (log.fail_at as usize) < 2 * len + 2 {
        assert!(done == Err(Error::At(log.fail_at, log.code)), "serialize: passes on the error");
        assert!(!log.after_failure.get(), "serialize: stops at the error");
    } else {
        assert!(done == Ok(Done), "serialize: passes on the writer's result");
    }
}

pub fn write_set_error<K: Shape + Serialize, const N: usize>() {
    let view = any_set::<N>();
    let len = count_set(&view);
    let set = set_of::<K, N>(&view);
    let log = Log::new(any_below(N + 2) as u8, any_u8());
    let done = set.serialize(Writer(&log));
    if (log.fail_at as usize) < len + 2 {
        assert!(done == Err(Error::At(log.fail_at, log.code)), "serialize: passes on the error");
        assert!(!log.after_failure.get(), "serialize: stops at the error");
    } else {
        assert!(done == Ok(Done), "serialize: passes on the writer's result");
    }
}

/// How many items are read at most (bounded): more than there are keys.
const ITEMS: usize = 4;

fn any_hint() -> Option<usize> {
    if any_bool() {
        Some(any_u8() as usize)
    } else {
        None
    }
}

/// `ensures` the last value read for each key, or the reader's error.
pub fn read_map<K: Shape + for<'de> Deserialize<'de>, const N: usize>() {
    let mut items = [(0, 0); MAX];
    let len = any_below(ITEMS + 1);
    let mut view = [None; N];
    each!(n in ITEMS => {
        let i = any_below(N);
        let v = any_u8();
        items[n] = (i as u8, v);
        if n < len {
            view[i] = Some(v);
        }
    });
    let calls = Cell::new(0);
    let code = any_u8();
    let fail_at = if any_bool() { any_below(2 * ITEMS + 1) as u8 } else { NEVER };
    let reader = Reader {
        items: &items,
        len,
        map: true,
        hint: any_hint(),
        calls: &calls,
        fail_at,
        code,
        at: 0,
    };
    let map = Map::<K, u8>::deserialize(reader);
    if (fail_at as usize) < 2 * len + 1 {
        assert!(map.err() == Some(Error::At(fail_at, code)), "deserialize: passes on the error");
    } else {
        let map = match map {
            Ok(map) => map,
            Err(_) => panic!("deserialize: reads any sequence of entries"),
        };
        map_is(&map, &view);
        assert!(map.len() == count_map(&view), "deserialize: nothing else is present");
    }
}

pub fn read_set<K: Shape + for<'de> Deserialize<'de>, const N: usize>() {
    let mut items = [(0, 0); MAX];
    let len = any_below(ITEMS + 1);
    let mut view = [false; N];
    each!(n in ITEMS => {
        let i = any_below(N);
        items[n] = (i as u8, 0);
        if n < len {
            view[i] = true;
        }
    });
    let calls = Cell::new(0);
    let code = any_u8();
    let fail_at = if any_bool() { any_below(ITEMS + 1) as u8 } else { NEVER };
    let reader = Reader {
        items: &items,
        len,
        map: false,
        hint: any_hint(),
        calls: &calls,
        fail_at,
        code,
        at: 0,
    };
    let set = Set::<K>::deserialize(reader);
    if (fail_at as usize) < len + 1 {
        assert!(set.err() == Some(Error::At(fail_at, code)), "deserialize: passes on the error");
    } else {
        let set = match set {
            Ok(set) => set,
            Err(_) => panic!("deserialize: reads any sequence of values"),
        };
        set_is(&set, &view);
        assert!(set.len() == count_set(&view), "deserialize: nothing else is contained");
    }
}

/// `ensures` an error in the middle of an item comes back as well.
pub fn read_bad_key<K: Shape + for<'de> Deserialize<'de>, const N: usize>() {
    let mut items = [(0, 0); MAX];
    items[0] = (any_below(N) as u8, any_u8());
    let bad = any_u8();
    assume(bad as usize >= N);
    items[1] = (bad, any_u8());
    let calls = Cell::new(0);
    let map = any_bool();
    let reader = Reader {
        items: &items,
        len: 3,
        map,
        hint: None,
        calls: &calls,
        fail_at: NEVER,
        code: 0,
        at: 0,
    };
    let error = if map {
        Map::<K, u8>::deserialize(reader).err()
    } else {
        Set::<K>::deserialize(reader).err()
    };
    assert!(error == Some(Error::Custom), "deserialize: passes on the error of an item");
}

/// A map is not read from a sequence, nor a set from a map.
pub fn read_wrong_kind<K: Shape + for<'de> Deserialize<'de>, const N: usize>() {
    let items = [(0, 0); MAX];
    let calls = Cell::new(0);
    let map = any_bool();
    let reader = Reader {
        items: &items,
        len: 1,
        map: !map,
        hint: None,
        calls: &calls,
        fail_at: NEVER,
        code: 0,
        at: 0,
    };
    let failed = if map {
        Map::<K, u8>::deserialize(reader).is_err()
    } else {
        Set::<K>::deserialize(reader).is_err()
    };
    assert!(failed, "deserialize: only reads what is written");
}

/// `ensures` reading back what was written gives an equal container.
pub fn round_map<K: Shape + Serialize + for<'de> Deserialize<'de>, const N: usize>() {
    let view = any_map::<N>();
    let map = map_of::<K, N>(&view);
    let log = Log::new(NEVER, 0);
    let _ = map.serialize(Writer(&log));
    let mut items = [(0, 0); MAX];
    each!(n in N => {
        items[n] = (log.keys[n].get(), log.values[n].get());
    });
    let calls = Cell::new(0);
    let reader = Reader {
        items: &items,
        len: log.n_keys.get(),
        map: log.map.get(),
        hint: log.announced.get(),
        calls: &calls,
        fail_at: NEVER,
        code: 0,
        at: 0,
    };
    match Map::<K, u8>::deserialize(reader) {
        Ok(again) => {
            map_is(&again, &view);
            assert!(again.len() == count_map(&view), "round trip: an equal map");
        }
        Err(_) => panic!("round trip: reads what was written"),
    }
}

pub fn round_set<K: Shape + Serialize + for<'de> Deserialize<'de>, const N: usize>() {
    let view = any_set::<N>();
    let set = set_of::<K, N>(&view);
    let log = Log::new(NEVER, 0);
    let _ = set.serialize(Writer(&log));
    let mut items = [(0, 0); MAX];
    each!(n in N => {
        items[n] = (log.keys[n].get(), 0);
    });
    let calls = Cell::new(0);
    let reader = Reader {
        items: &items,
        len: log.n_keys.get(),
        map: log.map.get(),
        hint: log.announced.get(),
        calls: &calls,
        fail_at: NEVER,
        code: 0,
        at: 0,
    };
    match Set::<K>::deserialize(reader) {
        Ok(again) => {
            set_is(&again, &view);
            assert!(again.len() == count_set(&view), "round trip: an equal set");
        }
        Err(_) => panic!("round trip: reads what was written"),
    }
}

macro_rules! all {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        proofs!($name, $K, $N, $U; write_map, write_set, write_map_error, write_set_error,
            read_map, read_set, read_bad_key, read_wrong_kind, round_map, round_set);
    };
}
all!(unit3, U3, 3, 6);
all!(comp_tiny, Tiny, 3, 6);
all!(comp_unit, Unit, 3, 6);
all!(comp_wrap, Wrap, 4, 6);

proofs!(bits3, B3, 3, 6; write_set, write_set_error, read_set, round_set);

#[cfg(feature = "thorough")]
pub mod thorough {
    use super::*;
    all!(unit4, U4, 4, 6);
    all!(comp_mid, Mid, 4, 6);
    all!(comp_outer, Outer, 4, 6);
    all!(comp_opt, Opt, 4, 6);
}
