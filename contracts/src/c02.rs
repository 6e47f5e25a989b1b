//! C02: a set is a finite set; insert and remove report what changed.

use crate::nd::*;
use crate::shapes::*;
use crate::spec::*;
use fixed_map::Set;

/// `ensures view(result) == {}`
pub fn new<K: Shape, const N: usize>() {
    set_is(&Set::<K>::new(), &[false; N]);
}

/// `ensures result == !old(view).contains(k) && view == old(view) + k`
pub fn insert<K: Shape, const N: usize>() {
    let mut view = any_set::<N>();
    let mut set = set_of::<K, N>(&view);
    let i = any_below(N);
    let new = set.insert(K::nth(i));
    assert!(new != view[i], "insert: true iff the value was absent");
    view[i] = true;
    set_is(&set, &view);
}

/// `ensures result == old(view).contains(k) && view == old(view) - k`
pub fn remove<K: Shape, const N: usize>() {
    let mut view = any_set::<N>();
    let mut set = set_of::<K, N>(&view);
    let i = any_below(N);
    let old = set.remove(K::nth(i));
    assert!(old == view[i], "remove: true iff the value was present");
    view[i] = false;
    set_is(&set, &view);
}

/// `ensures view == {}`
pub fn clear<K: Shape, const N: usize>() {
    let view = any_set::<N>();
    let mut set = set_of::<K, N>(&view);
    set.clear();
    set_is(&set, &[false; N]);
}

/// Three arbitrary operations in a row on an arbitrary set.
pub fn history<K: Shape, const N: usize>() {
    let mut view = any_set::<N>();
    let mut set = set_of::<K, N>(&view);
    set_step(&mut set, &mut view);
    set_step(&mut set, &mut view);
    set_step(&mut set, &mut view);
    set_is(&set, &view);
}

macro_rules! small {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        proofs!($name, $K, $N, $U; new, insert, remove, clear, history);
    };
}
small_shapes!(small);
small_bitsets!(small);
proofs!(deep, Deep, 10, 12; insert, remove, clear, history);

/// All point operations on a set of a large key.
pub fn dense<K: Shape, const N: usize>() {
    let (mut set, state) = dense_set::<K, N>();
    let c = any_below(N);
    let j = any_below(N);
    let had = state[c];
    let now = match any_below(3) {
        0 => {
            assert!(set.insert(K::nth(c)) != had, "insert: true iff the value was absent");
            true
        }
        1 => {
            assert!(set.remove(K::nth(c)) == had, "remove: true iff the value was present");
            false
        }
        _ => {
            set.clear();
            assert!(!set.contains(K::nth(j)), "clear: forgets everything");
            return;
        }
    };
    let expect = if j == c { now } else { state[j] };
    assert!(
        set.contains(K::nth(j)) == expect,
        "view: membership of every value is as last written"
    );
}

macro_rules! large {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        proofs!($name, $K, $N, $U; dense);
    };
}
large_sets!(large);
