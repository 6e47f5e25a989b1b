/// A loop over `0..n` (n at most 10), unrolled in the source: the unwinding
/// bound given to the verifier then only concerns the code under contract.
#[macro_export]
macro_rules! each {
    ($i:ident in $n:expr => $b:block) => {
        each!(@ $i, $n, $b, 0 1 2 3 4 5 6 7 8 9)
    };
    (@ $i:ident, $n:expr, $b:block, $($k:literal)*) => {
        $(
            {
                let $i: usize = $k;
                if $i < $n $b
            }
        )*
    };
}

/// Declares one proof obligation group: a contract checked for all inputs.
#[macro_export]
macro_rules! proof {
    ($name:ident, $unwind:expr, $body:expr) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($unwind))]
        pub fn $name() {
            $body;
            // Vacuity guard: the end of the contract is reached by some input.
            #[cfg(kani)]
            kani::cover!(true, "reached");
        }
    };
}

/// `proofs!(name, Type, N, unwind; contract, contract, ...)` instantiates the
/// generic contracts of the enclosing module for one key type.
#[macro_export]
macro_rules! proofs {
    ($name:ident, $K:ty, $N:expr, $U:expr; $($c:ident),* $(,)?) => {
        pub mod $name {
            #[allow(unused_imports)]
            use super::*;
            $(proof!($c, $U, super::$c::<$K, $N>());)*
        }
    };
}

/// Calls `$m!(module, Type, N, unwind)` for each small shape.
#[macro_export]
macro_rules! small_shapes {
    ($m:ident) => {
        $m!(unit1, U1, 1, 3);
        $m!(unit3, U3, 3, 5);
        $m!(unit4, U4, 4, 6);
        $m!(singleton, (), 1, 3);
        $m!(boolean, bool, 2, 4);
        $m!(opt_singleton, Option<()>, 2, 4);
        $m!(opt_boolean, Option<bool>, 3, 5);
        $m!(opt_opt_boolean, Option<Option<bool>>, 4, 6);
        $m!(opt_unit2, Option<U2>, 3, 5);
        $m!(opt_composite, Option<Inner>, 4, 6);
        $m!(comp_mid, Mid, 4, 6);
        $m!(comp_opt, Opt, 4, 6);
        $m!(comp_mix, Mix, 5, 7);
        $m!(comp_outer, Outer, 4, 6);
        $m!(comp_pair, Pair, 4, 6);
        $m!(comp_unit, Unit, 3, 5);
        $m!(comp_empty, Empty, 2, 4);
        $m!(comp_long, Long, 7, 9);
    };
}

/// The small shapes whose set is a bitset.
#[macro_export]
macro_rules! small_bitsets {
    ($m:ident) => {
        $m!(bits1, B1, 1, 3);
        $m!(bits3, B3, 3, 5);
        $m!(bits4, B4, 4, 6);
    };
}

/// The small shapes, with the bound on the loops of their iterators.
#[macro_export]
macro_rules! iter_shapes {
    ($m:ident) => {
        $m!(unit1, U1, 1, 3);
        $m!(unit3, U3, 3, 5);
        $m!(unit4, U4, 4, 6);
        $m!(singleton, (), 1, 2);
        $m!(boolean, bool, 2, 3);
        $m!(opt_singleton, Option<()>, 2, 3);
        $m!(opt_boolean, Option<bool>, 3, 3);
        $m!(opt_opt_boolean, Option<Option<bool>>, 4, 3);
        $m!(opt_unit2, Option<U2>, 3, 4);
        $m!(opt_composite, Option<Inner>, 4, 3);
        $m!(comp_mid, Mid, 4, 4);
        $m!(comp_opt, Opt, 4, 3);
        $m!(comp_outer, Outer, 4, 3);
        $m!(comp_pair, Pair, 4, 3);
        $m!(comp_unit, Unit, 3, 4);
        $m!(comp_empty, Empty, 2, 4);
    };
}

#[macro_export]
macro_rules! iter_bitsets {
    ($m:ident) => {
        $m!(bits1, B1, 1, 3);
        $m!(bits3, B3, 3, 5);
        $m!(bits4, B4, 4, 6);
        $m!(comp_mix, Mix, 5, 4);
    };
}

/// Large shapes: states with at most two entries, or with all.
#[macro_export]
macro_rules! large_maps {
    ($m:ident) => {
        $m!(unit9, U9, 9, 11);
        $m!(unit17, U17, 17, 19);
        $m!(unit33, U33, 33, 35);
        $m!(comp_wide, Wide, 22, 24);
    };
}

#[macro_export]
macro_rules! large_sets {
    ($m:ident) => {
        $m!(unit9, U9, 9, 11);
        $m!(unit17, U17, 17, 19);
        $m!(unit33, U33, 33, 35);
        $m!(comp_wide, Wide, 22, 24);
        $m!(bits8, B8, 8, 10);
        $m!(bits9, B9, 9, 11);
        $m!(bits16, B16, 16, 18);
        $m!(bits17, B17, 17, 19);
        $m!(bits32, B32, 32, 34);
        $m!(bits33, B33, 33, 35);
        $m!(bits64, B64, 64, 66);
        $m!(bits65, B65, 65, 67);
        $m!(bits128, B128, 128, 130);
    };
}

/// The shapes of the contracts which start from a state with a history.
#[macro_export]
macro_rules! lived_maps {
    ($($c:ident),*) => {
        proofs!(lived_unit3, U3, 3, 5; $($c),*);
        proofs!(lived_opt_boolean, Option<bool>, 3, 4; $($c),*);
        proofs!(lived_tiny, Tiny, 3, 5; $($c),*);
    };
}

#[macro_export]
macro_rules! lived_sets {
    ($($c:ident),*) => {
        proofs!(lived_set_unit3, U3, 3, 5; $($c),*);
        proofs!(lived_set_bits3, B3, 3, 5; $($c),*);
        proofs!(lived_set_opt_boolean, Option<bool>, 3, 4; $($c),*);
        proofs!(lived_set_tiny, Tiny, 3, 5; $($c),*);
    };
}
