//! C12: bitset sets behave like ordinary sets and survive the raw round trip.

use crate::nd::*;
use crate::shapes::*;
use crate::spec::*;
use fixed_map::raw::RawStorage;
use fixed_map::{Key, Set};

/// The raw integers, for all widths.
pub trait Raw: Copy + PartialEq {
    const BITS: usize;
    fn any() -> Self;
}

macro_rules! raw {
    ($($t:ty, $any:ident, $bits:expr;)*) => {
        $(impl Raw for $t {
            const BITS: usize = $bits;
            fn any() -> Self {
                $any()
            }
        })*
    };
}
raw! {
    u8, any_u8, 8;
    u16, any_u16, 16;
    u32, any_u32, 32;
    u64, any_u64, 64;
    u128, any_u128, 128;
}

pub trait Bits: Shape {
    type Raw: Raw;
    fn to(set: &Set<Self>) -> Self::Raw;
    fn from(raw: Self::Raw) -> Set<Self>;
}

impl<K: Shape> Bits for K
where
    <K as Key>::SetStorage: RawStorage,
    <<K as Key>::SetStorage as RawStorage>::Value: Raw,
{
    type Raw = <<K as Key>::SetStorage as RawStorage>::Value;
    fn to(set: &Set<K>) -> Self::Raw {
        set.as_raw()
    }
    fn from(raw: Self::Raw) -> Set<K> {
        Set::from_raw(raw)
    }
}

/// `ensures` the narrowest integer which has a bit per variant.
pub fn width<K: Bits, const N: usize>() {
    let want = match N {
        0..=8 => 8,
        9..=16 => 16,
        17..=32 => 32,
        33..=64 => 64,
        _ => 128,
    };
    assert!(K::Raw::BITS == want, "raw: just wide enough");
    assert!(core::mem::size_of::<K::Raw>() * 8 == want, "raw: just wide enough");
    assert!(core::mem::size_of::<Set<K>>() * 8 == want, "set: stored in one integer");
}

/// `ensures` a set from any raw value is well-formed: it survives the round
/// trip, and is equal to exactly the sets with the same values.
pub fn any_raw<K: Bits, const N: usize>()
where
    Set<K>: PartialEq,
{
    let set = <K as Bits>::from(K::Raw::any());
    let raw = K::to(&set);
    let again = <K as Bits>::from(raw);
    assert!(again == set, "from_raw(as_raw(s)): equals s");
    assert!(K::to(&again) == raw, "as_raw(from_raw(r)): stable");
    let j = any_below(N);
    assert!(
        again.contains(K::nth(j)) == set.contains(K::nth(j)),
        "from_raw(as_raw(s)): the same values"
    );
    // Removing every value found leaves nothing at all behind: no bit other
    // than those of the variants takes part in equality, emptiness or length.
    let mut rest = set;
    let key = K::nth(j);
    let had = rest.contains(key);
    let before = rest.len();
    assert!(before <= N, "from_raw: length counts values");
    assert!(rest.is_empty() == (before == 0), "from_raw: empty iff no values");
    assert!(rest.remove(key) == had, "from_raw: remove reports presence");
    assert!(rest.len() + had as usize == before, "from_raw: length counts values");
    assert!((rest == again) == !had, "from_raw: equality sees exactly the values");
}

/// `ensures` the only set without values is the empty one, in every respect.
pub fn canonical<K: Bits, const N: usize>()
where
    Set<K>: PartialEq + Clone,
{
    let x = <K as Bits>::from(K::Raw::any());
    let y = <K as Bits>::from(K::Raw::any());
    // Either they differ in some value, or they are equal in every respect. The
    // choice of the value is left to the retain predicate, which visits all.
    let mut same = true;
    let mut z = y.clone();
    z.retain(|k| {
        same = same && x.contains(k);
        true
    });
    let mut z = x.clone();
    z.retain(|k| {
        same = same && y.contains(k);
        true
    });
    assert!((x == y) == same, "eq: iff the same values");
    assert!((K::to(&x) == K::to(&y)) == same, "as_raw: distinct sets have distinct raw values");
    if same {
        assert!(x.len() == y.len(), "len: of the values only");
    }
}

/// `ensures` iteration, length and membership agree for any raw value.
pub fn iterate<K: Bits, const N: usize>() {
    let set = <K as Bits>::from(K::Raw::any());
    let mut view = [false; N];
    each!(i in N => {
        view[i] = set.contains(K::nth(i));
    });
    let e = Elems::<K, N>::of_set(&view);
    assert!(set.len() == e.len, "from_raw: length counts the values");
    assert!(set.is_empty() == (e.len == 0), "from_raw: empty iff no values");
    let mut it = set.iter();
    each!(n in N => {
        assert!(it.next() == e.key(n), "from_raw: iteration yields the values in order");
    });
    assert!(it.next().is_none(), "from_raw: iteration ends after the last value");
}

/// `ensures` building a set and taking it through its raw value.
pub fn round<K: Bits, const N: usize>()
where
    Set<K>: PartialEq,
{
    let view = any_set::<N>();
    let set = set_of::<K, N>(&view);
    let again = <K as Bits>::from(K::to(&set));
    assert!(again == set, "from_raw(as_raw(s)): equals s");
    set_is(&again, &view);
    assert!(again.len() == count_set(&view), "from_raw(as_raw(s)): the same length");
}

/// `ensures` the same answers as the layout without the mark.
pub fn twin<K: Shape, L: Shape, const N: usize>() {
    let view = any_set::<N>();
    let mut x = set_of::<K, N>(&view);
    let mut y = set_of::<L, N>(&view);
    let i = any_below(N);
    match any_below(4) {
        0 => assert!(x.insert(K::nth(i)) == y.insert(L::nth(i)), "insert: as without the mark"),
        1 => assert!(x.remove(K::nth(i)) == y.remove(L::nth(i)), "remove: as without the mark"),
        2 => {
            x.clear();
            y.clear();
        }
        _ => {
            let keep = any_bool();
            x.retain(|k| (k == K::nth(i)) == keep);
            y.retain(|k| (k == L::nth(i)) == keep);
        }
    }
    let j = any_below(N);
    assert!(
        x.contains(K::nth(j)) == y.contains(L::nth(j)),
        "contains: as without the mark"
    );
    assert!(x.len() == y.len(), "len: as without the mark");
    assert!(x.is_empty() == y.is_empty(), "is_empty: as without the mark");
    let mut a = x.iter();
    let mut b = y.iter();
    match (a.next(), b.next()) {
        (None, None) => {}
        (Some(k), Some(l)) => assert!(
            (k == K::nth(j)) == (l == L::nth(j)),
            "iter: as without the mark"
        ),
        _ => assert!(false, "iter: as without the mark"),
    }
}

/// The same for sets of large keys.
pub fn twin_pair<K: Shape, L: Shape>(n: usize) {
    let mut x = fixed_map::Set::<K>::new();
    let mut y = fixed_map::Set::<L>::new();
    let mut i = 0;
    while i < n {
        if any_bool() {
            x.insert(K::nth(i));
            y.insert(L::nth(i));
        }
        i += 1;
    }
    let i = any_below(n);
    match any_below(3) {
        0 => assert!(x.insert(K::nth(i)) == y.insert(L::nth(i)), "insert: as without the mark"),
        1 => assert!(x.remove(K::nth(i)) == y.remove(L::nth(i)), "remove: as without the mark"),
        _ => {
            let keep = any_bool();
            x.retain(|k| (k == K::nth(i)) == keep);
            y.retain(|k| (k == L::nth(i)) == keep);
        }
    }
    let j = any_below(n);
    assert!(
        x.contains(K::nth(j)) == y.contains(L::nth(j)),
        "contains: as without the mark"
    );
    assert!(x.len() == y.len(), "len: as without the mark");
    assert!(x.is_empty() == y.is_empty(), "is_empty: as without the mark");
}

macro_rules! all {
    ($name:ident, $K:ty, $N:expr, $U:expr) => {
        proofs!($name, $K, $N, $U; width, any_raw, canonical);
    };
}
all!(bits1, B1, 1, 3);
all!(bits2, B2, 2, 4);
all!(bits3, B3, 3, 5);
all!(bits8, B8, 8, 10);
all!(bits9, B9, 9, 11);
all!(bits16, B16, 16, 18);
all!(bits17, B17, 17, 19);
all!(bits32, B32, 32, 34);
all!(bits33, B33, 33, 35);
all!(bits64, B64, 64, 66);
all!(bits65, B65, 65, 67);
all!(bits128, B128, 128, 130);

pub mod small {
    use super::*;
    proofs!(bits1, B1, 1, 3; iterate, round);
    proofs!(bits2, B2, 2, 4; iterate, round);
    proofs!(bits3, B3, 3, 5; iterate, round);
    proofs!(bits4, B4, 4, 6; iterate, round);
    proofs!(bits8, B8, 8, 10; round);
    proofs!(bits9, B9, 9, 11; round);
}

pub mod twins {
    use super::*;
    proof!(of1, 3, twin::<B1, U1, 1>());
    proof!(of2, 4, twin::<B2, U2, 2>());
    proof!(of3, 5, twin::<B3, U3, 3>());
    proof!(of4, 6, twin::<B4, U4, 4>());
    proof!(of9, 11, twin_pair::<B9, U9>(9));
    proof!(of17, 19, twin_pair::<B17, U17>(17));
    proof!(of33, 35, twin_pair::<B33, U33>(33));
}

/// The raw value depends on the contents only, whatever the history.
pub fn lived<K: Bits, const N: usize>()
where
    Set<K>: PartialEq,
{
    let (x, a) = lived_set::<K, N>();
    let y = set_of::<K, N>(&a);
    assert!(K::to(&x) == K::to(&y), "as_raw: of the values only");
    assert!(x == y, "eq: iff the same values");
    let again = <K as Bits>::from(K::to(&x));
    set_is(&again, &a);
    assert!(again.len() == count_set(&a), "from_raw: length counts values");
}
proofs!(lived_bits3, B3, 3, 5; lived);
