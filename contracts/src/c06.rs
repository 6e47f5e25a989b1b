//! C06: iterators may be consumed from both ends in any interleaving.

use crate::nd::*;
use crate::shapes::*;
use crate::spec::*;

/// `$make` builds the iterator from an arbitrary container `$c`, `$elem` is
/// the i-th expected element of `$e` for `$i`.
macro_rules! contract {
    (
        $name:ident, $K:ty, $N:expr, $U:expr, $any:ident, $of:ident, $elems:ident,
        $c:ident => $make:expr, $e:ident, $i:ident => $elem:expr; $($what:ident)*
    ) => {
        pub mod $name {
            #[allow(unused_imports)]
            use super::*;
            $(contract!(@ $what $K, $N, $U, $any, $of, $elems, $c => $make, $e, $i => $elem);)*
        }
    };

    (@ interleave $K:ty, $N:expr, $U:expr, $any:ident, $of:ident, $elems:ident,
        $c:ident => $make:expr, $e:ident, $i:ident => $elem:expr) => {
        /// Every interleaving of front and back steps until the end.
        proof!(interleave, $U, {
            let view = $any::<{ $N }>();
            let e = Elems::<$K, { $N }>::$elems(&view);
            let want = |i: usize| {
                let ($e, $i) = (&e, i);
                $elem
            };
            #[allow(unused_mut)]
            let mut $c = $of::<$K, { $N }>(&view);
            let mut it = $make;
            // Elements `f..b` are left.
            let mut f = 0;
            let mut b = e.len;
            each!(_step in $N => {
                bracket(it.size_hint(), b - f);
                if any_bool() {
                    let x = it.next_back();
                    if f < b {
                        b -= 1;
                        assert!(x == want(b), "next_back: yields the last element left");
                    } else {
                        assert!(x.is_none(), "next_back: ends where the front stopped");
                    }
                } else {
                    let x = it.next();
                    if f < b {
                        assert!(x == want(f), "next: yields the first element left");
                        f += 1;
                    } else {
                        assert!(x.is_none(), "next: ends where the back stopped");
                    }
                }
            });
            bracket(it.size_hint(), 0);
            if any_bool() {
                assert!(it.next().is_none(), "next: stays exhausted");
                assert!(it.next_back().is_none(), "next_back: stays exhausted");
            } else {
                assert!(it.next_back().is_none(), "next_back: stays exhausted");
                assert!(it.next().is_none(), "next: stays exhausted");
            }
        });
    };

    (@ backward $K:ty, $N:expr, $U:expr, $any:ident, $of:ident, $elems:ident,
        $c:ident => $make:expr, $e:ident, $i:ident => $elem:expr) => {
        /// Only back steps.
        proof!(backward, $U, {
            let view = $any::<{ $N }>();
            let e = Elems::<$K, { $N }>::$elems(&view);
            let want = |i: usize| {
                let ($e, $i) = (&e, i);
                $elem
            };
            #[allow(unused_mut)]
            let mut $c = $of::<$K, { $N }>(&view);
            let mut it = $make;
            each!(n in $N => {
                let x = it.next_back();
                if n < e.len {
                    assert!(x == want(e.len - 1 - n), "next_back: yields the last element left");
                } else {
                    assert!(x.is_none(), "next_back: ends before the first element");
                }
            });
            assert!(it.next_back().is_none(), "next_back: stays exhausted");
        });
    };

    (@ clone $K:ty, $N:expr, $U:expr, $any:ident, $of:ident, $elems:ident,
        $c:ident => $make:expr, $e:ident, $i:ident => $elem:expr) => {
        /// A clone taken after an arbitrary step continues on its own.
        proof!(clone, $U, {
            let view = $any::<{ $N }>();
            let e = Elems::<$K, { $N }>::$elems(&view);
            let want = |i: usize| {
                let ($e, $i) = (&e, i);
                $elem
            };
            #[allow(unused_mut)]
            let mut $c = $of::<$K, { $N }>(&view);
            let mut it = $make;
            let mut f = 0;
            let mut b = e.len;
            if any_bool() {
                let _ = it.next();
                if f < b {
                    f += 1;
                }
            } else if any_bool() {
                let _ = it.next_back();
                if f < b {
                    b -= 1;
                }
            }
            let mut copy = it.clone();
            // Steps of either one in any order.
            let mut g = f;
            each!(_n in $N => {
                if any_bool() {
                    let x = copy.next();
                    assert!(x == if f < b { want(f) } else { None }, "clone: yields what is left");
                    f += 1;
                } else {
                    let x = it.next();
                    assert!(x == if g < b { want(g) } else { None }, "clone: does not disturb the original");
                    g += 1;
                }
            });
        });
    };

    (@ fresh_clone $K:ty, $N:expr, $U:expr, $any:ident, $of:ident, $elems:ident,
        $c:ident => $make:expr, $e:ident, $i:ident => $elem:expr) => {
        /// A clone taken at the start continues on its own.
        proof!(fresh_clone, $U, {
            let view = $any::<{ $N }>();
            let e = Elems::<$K, { $N }>::$elems(&view);
            let want = |i: usize| {
                let ($e, $i) = (&e, i);
                $elem
            };
            #[allow(unused_mut)]
            let mut $c = $of::<$K, { $N }>(&view);
            let mut it = $make;
            let mut f = 0;
            let b = e.len;
            let mut copy = it.clone();
            // Steps of either one in any order.
            let mut g = f;
            each!(_n in $N => {
                if any_bool() {
                    let x = copy.next();
                    assert!(x == if f < b { want(f) } else { None }, "clone: yields what is left");
                    f += 1;
                } else {
                    let x = it.next();
                    assert!(x == if g < b { want(g) } else { None }, "clone: does not disturb the original");
                    g += 1;
                }
            });
        });
    };

    (@ internal $K:ty, $N:expr, $U:expr, $any:ident, $of:ident, $elems:ident,
        $c:ident => $make:expr, $e:ident, $i:ident => $elem:expr) => {
        /// Internal iteration agrees with stepping, after an arbitrary step.
        proof!(internal, $U, {
            let view = $any::<{ $N }>();
            let e = Elems::<$K, { $N }>::$elems(&view);
            let want = |i: usize| {
                let ($e, $i) = (&e, i);
                $elem
            };
            #[allow(unused_mut)]
            let mut $c = $of::<$K, { $N }>(&view);
            let mut it = $make;
            let mut f = 0;
            let mut b = e.len;
            if any_bool() {
                let _ = it.next();
                if f < b {
                    f += 1;
                }
            } else if any_bool() {
                let _ = it.next_back();
                if f < b {
                    b -= 1;
                }
            }
            match any_below(3) {
                0 => {
                    let mut n = f;
                    it.for_each(|x| {
                        assert!(Some(x) == want(n), "fold: visits what is left in order");
                        n += 1;
                    });
                    assert!(n == b, "fold: visits everything left");
                }
                1 => assert!(it.count() == b - f, "count: counts everything left"),
                _ => assert!(
                    it.last() == if f < b { want(b - 1) } else { None },
                    "last: yields the last element left"
                ),
            }
        });
    };
}

macro_rules! map_contracts {
    ($K:ty, $N:expr, $U:expr; $($what:ident)*) => {
        contract!(iter, $K, $N, $U, any_map, map_of, of_map, c => c.iter().map(|(k, v)| (k, *v)), e, i => e.get(i); $($what)*);
        contract!(keys, $K, $N, $U, any_map, map_of, of_map, c => c.keys(), e, i => e.key(i); $($what)*);
        contract!(values, $K, $N, $U, any_map, map_of, of_map, c => c.values().copied(), e, i => e.value(i); $($what)*);
        contract!(into_iter, $K, $N, $U, any_map, map_of, of_map, c => c.into_iter(), e, i => e.get(i); $($what)*);
    };
}

macro_rules! map_mut_contracts {
    ($K:ty, $N:expr, $U:expr; $($what:ident)*) => {
        contract!(iter_mut, $K, $N, $U, any_map, map_of, of_map, c => c.iter_mut().map(|(k, v)| (k, *v)), e, i => e.get(i); $($what)*);
        contract!(values_mut, $K, $N, $U, any_map, map_of, of_map, c => c.values_mut().map(|v| *v), e, i => e.value(i); $($what)*);
    };
}

macro_rules! set_contracts {
    ($K:ty, $N:expr, $U:expr; $($what:ident)*) => {
        contract!(set_iter, $K, $N, $U, any_set, set_of, of_set, c => c.iter(), e, i => e.key(i); $($what)*);
        contract!(set_into_iter, $K, $N, $U, any_set, set_of, of_set, c => c.into_iter(), e, i => e.key(i); $($what)*);
    };
}

macro_rules! all {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        pub mod $name {
            use super::*;
            map_contracts!($K, $N, $U; interleave clone);
            map_mut_contracts!($K, $N, $U; interleave);
            set_contracts!($K, $N, $U; interleave clone);
        }
    };
}

/// The verifier is imprecise about cloning a partly consumed array of pairs with
/// pointers (it reports such a clone of the standard library's as invalid), so
/// these are cloned at the start.
macro_rules! unit {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        pub mod $name {
            use super::*;
            contract!(keys, $K, $N, $U, any_map, map_of, of_map, c => c.keys(), e, i => e.key(i); interleave clone);
            contract!(values, $K, $N, $U, any_map, map_of, of_map, c => c.values().copied(), e, i => e.value(i); interleave clone);
            contract!(iter, $K, $N, $U, any_map, map_of, of_map, c => c.iter().map(|(k, v)| (k, *v)), e, i => e.get(i); interleave fresh_clone);
            contract!(into_iter, $K, $N, $U, any_map, map_of, of_map, c => c.into_iter(), e, i => e.get(i); interleave clone);
            map_mut_contracts!($K, $N, $U; interleave);
            set_contracts!($K, $N, $U; interleave clone);
        }
    };
}
/// No clones.
macro_rules! steps {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        pub mod $name {
            use super::*;
            map_contracts!($K, $N, $U; interleave);
            map_mut_contracts!($K, $N, $U; interleave);
            set_contracts!($K, $N, $U; interleave);
        }
    };
}
steps!(unit1, U1, 1, 3);
unit!(unit3, U3, 3, 5);
all!(singleton, (), 1, 2);
all!(boolean, bool, 2, 3);
steps!(opt_singleton, Option<()>, 2, 3);
all!(opt_boolean, Option<bool>, 3, 3);
all!(comp_tiny, Tiny, 3, 3);
steps!(comp_unit, Unit, 3, 4);

/// Few iterators of the shapes which are expensive to verify.
macro_rules! some {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        pub mod $name {
            use super::*;
            contract!(keys, $K, $N, $U, any_map, map_of, of_map, c => c.keys(), e, i => e.key(i); interleave);
            contract!(iter, $K, $N, $U, any_map, map_of, of_map, c => c.iter().map(|(k, v)| (k, *v)), e, i => e.get(i); interleave);
            set_contracts!($K, $N, $U; interleave);
            #[cfg(feature = "thorough")]
            pub mod thorough {
                use super::*;
                map_contracts!($K, $N, $U; interleave clone);
                map_mut_contracts!($K, $N, $U; interleave);
                set_contracts!($K, $N, $U; clone);
            }
        }
    };
}
some!(opt_opt_boolean, Option<Option<bool>>, 4, 3);
some!(comp_mid, Mid, 4, 4);

#[cfg(feature = "thorough")]
pub mod thorough {
    use super::*;
    all!(comp_outer, Outer, 4, 3);
    unit!(unit1, U1, 1, 3);
    all!(opt_singleton, Option<()>, 2, 3);
    all!(comp_unit, Unit, 3, 4);
    all!(opt_composite, Option<Inner>, 4, 3);
    all!(comp_opt, Opt, 4, 3);
    all!(comp_pair, Pair, 4, 3);
    unit!(comp_duo, Duo, 3, 4);
}

/// The clone of an iterator over an uninhabited field cannot be compiled by the
/// verifier.
pub mod comp_empty {
    use super::*;
    map_contracts!(Empty, 2, 4; interleave);
    map_mut_contracts!(Empty, 2, 4; interleave);
    set_contracts!(Empty, 2, 4; interleave);
}

macro_rules! internal {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        pub mod $name {
            use super::*;
            map_contracts!($K, $N, $U; internal);
            set_contracts!($K, $N, $U; internal);
        }
    };
}
pub mod whole {
    use super::*;
    internal!(unit3, U3, 3, 5);
    internal!(singleton, (), 1, 2);
    internal!(boolean, bool, 2, 3);
    internal!(opt_boolean, Option<bool>, 3, 4);
    internal!(comp_tiny, Tiny, 3, 4);
}

macro_rules! set_only {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        pub mod $name {
            use super::*;
            set_contracts!($K, $N, $U; interleave clone internal);
        }
    };
}
set_only!(bits1, B1, 1, 3);
set_only!(bits3, B3, 3, 5);

macro_rules! back {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        pub mod $name {
            use super::*;
            map_contracts!($K, $N, $U; backward);
            map_mut_contracts!($K, $N, $U; backward);
            set_contracts!($K, $N, $U; backward);
        }
    };
}
back!(unit4, U4, 4, 6);
/// Long composites: the cheap iterators.
pub mod nested {
    use super::*;
    macro_rules! cheap {
        ($name:ident, $K:ty, $N:expr, $U:expr) => {
            pub mod $name {
                use super::*;
                contract!(keys, $K, $N, $U, any_map, map_of, of_map, c => c.keys(), e, i => e.key(i); interleave);
                set_contracts!($K, $N, $U; interleave);
            }
        };
    }
    cheap!(opt_composite, Option<Inner>, 4, 3);
    cheap!(comp_opt, Opt, 4, 3);
}

pub mod comp_long {
    use super::*;
    contract!(keys, Long, 7, 7, any_map, map_of, of_map, c => c.keys(), e, i => e.key(i); backward);
    set_contracts!(Long, 7, 7; backward);
    #[cfg(feature = "thorough")]
    pub mod thorough {
        use super::*;
        map_contracts!(Long, 7, 7; backward);
        map_mut_contracts!(Long, 7, 7; backward);
    }
}

/// Exact lengths, for the iterators that report one.
macro_rules! exact {
    ($name:ident, $K:ty, $N:expr, $any:ident, $of:ident, $elems:ident, $c:ident => $make:expr) => {
        proof!($name, $N + 2, {
            let view = $any::<{ $N }>();
            let e = Elems::<$K, { $N }>::$elems(&view);
            let $c = $of::<$K, { $N }>(&view);
            let mut it = $make;
            assert!(it.len() == e.len, "len: counts the elements left");
            each!(n in $N => {
                let _ = if any_bool() { it.next() } else { it.next_back() };
                let left = if e.len > n { e.len - n - 1 } else { 0 };
                assert!(it.len() == left, "len: counts the elements left");
                assert!(it.size_hint() == (left, Some(left)), "size_hint: exact");
            });
        });
    };
}
exact!(boolean_keys_len, bool, 2, any_map, map_of, of_map, c => c.keys());
exact!(boolean_set_iter_len, bool, 2, any_set, set_of, of_set, c => c.iter());
exact!(boolean_set_into_iter_len, bool, 2, any_set, set_of, of_set, c => c.into_iter());
exact!(singleton_iter_len, (), 1, any_map, map_of, of_map, c => c.iter());
exact!(singleton_keys_len, (), 1, any_map, map_of, of_map, c => c.keys());
exact!(singleton_set_iter_len, (), 1, any_set, set_of, of_set, c => c.iter());
