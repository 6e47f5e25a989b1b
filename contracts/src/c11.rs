//! C11: ordering is the lexicographic order of contents, hashing respects
//! equality.

use crate::nd::*;
use crate::shapes::*;
use crate::spec::*;
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
use fixed_map::{Map, Set};

/// The oracle: the lexicographic order of the element sequences, where an
/// element is the position of its key and its value.
fn lexicographic<const N: usize>(
    a: &MapView<N>,
    b: &MapView<N>,
    value: fn(u8, u8) -> Option<Ordering>,
) -> Option<Ordering> {
    let mut out = Some(Ordering::Equal);
    let mut decided = false;
    each!(i in N => {
        if !decided {
            // Elements at all keys before `i` are the same.
            match (a[i], b[i]) {
                (None, None) => {}
                (Some(x), Some(y)) => {
                    out = value(x, y);
                    decided = out != Some(Ordering::Equal);
                }
                (Some(_), None) => {
                    // `a` continues with a smaller key, unless `b` has ended.
                    let mut more = false;
                    each!(j in N => {
                        more = more || (j > i && b[j].is_some());
                    });
                    out = Some(if more { Ordering::Less } else { Ordering::Greater });
                    decided = true;
                }
                (None, Some(_)) => {
                    let mut more = false;
                    each!(j in N => {
                        more = more || (j > i && a[j].is_some());
                    });
                    out = Some(if more { Ordering::Greater } else { Ordering::Less });
                    decided = true;
                }
            }
        }
    });
    out
}

fn total(a: u8, b: u8) -> Option<Ordering> {
    Some(a.cmp(&b))
}

fn of_set<const N: usize>(a: &SetView<N>) -> MapView<N> {
    let mut m = [None; N];
    each!(i in N => {
        if a[i] {
            m[i] = Some(0);
        }
    });
    m
}

/// `ensures` every comparison operation agrees with the oracle.
fn operators<T: Ord>(x: &T, y: &T, want: Ordering) {
    match any_below(8) {
        0 => assert!(x.cmp(y) == want, "cmp: the lexicographic order of the contents"),
        1 => assert!(x.partial_cmp(y) == Some(want), "partial_cmp: agrees with cmp"),
        2 => assert!((x < y) == (want == Ordering::Less), "lt: agrees with cmp"),
        3 => assert!((x <= y) == (want != Ordering::Greater), "le: agrees with cmp"),
        4 => assert!((x > y) == (want == Ordering::Greater), "gt: agrees with cmp"),
        5 => assert!((x >= y) == (want != Ordering::Less), "ge: agrees with cmp"),
        6 => assert!(y.cmp(x) == want.reverse(), "cmp: antisymmetric"),
        _ => assert!((x == y) == (want == Ordering::Equal), "cmp: equal exactly for equal containers"),
    }
}

pub fn map_cmp<K: Shape, const N: usize>()
where
    Map<K, u8>: Ord,
{
    let a = any_map::<N>();
    let b = any_map::<N>();
    let want = lexicographic(&a, &b, total);
    let x = map_of::<K, N>(&a);
    let y = map_of::<K, N>(&b);
    operators(&x, &y, want.unwrap());
}

pub fn set_cmp<K: Shape, const N: usize>()
where
    Set<K>: Ord,
{
    let a = any_set::<N>();
    let b = any_set::<N>();
    let want = lexicographic(&of_set(&a), &of_set(&b), total);
    let x = set_of::<K, N>(&a);
    let y = set_of::<K, N>(&b);
    operators(&x, &y, want.unwrap());
}

/// A value with a partial order: 255 is not comparable with anything.
#[derive(Clone, Copy, Debug)]
pub struct Odd(u8);
impl PartialEq for Odd {
    fn eq(&self, other: &Self) -> bool {
        self.0 == other.0 && self.0 != 255
    }
}
impl PartialOrd for Odd {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        odd(self.0, other.0)
    }
}
fn odd(a: u8, b: u8) -> Option<Ordering> {
    if a == 255 || b == 255 {
        None
    } else {
        Some(a.cmp(&b))
    }
}

pub fn map_partial_cmp<K: Shape, const N: usize>()
where
    Map<K, Odd>: PartialOrd,
{
    let a = any_map::<N>();
    let b = any_map::<N>();
    let want = lexicographic(&a, &b, odd);
    let mut x = Map::<K, Odd>::new();
    let mut y = Map::<K, Odd>::new();
    each!(i in N => {
        if let Some(v) = a[i] {
            x.insert(K::nth(i), Odd(v));
        }
        if let Some(v) = b[i] {
            y.insert(K::nth(i), Odd(v));
        }
    });
    match any_below(5) {
        0 => assert!(x.partial_cmp(&y) == want, "partial_cmp: the lexicographic order of the contents"),
        1 => assert!((x < y) == (want == Some(Ordering::Less)), "lt: agrees with partial_cmp"),
        2 => assert!(
            (x <= y) == matches!(want, Some(Ordering::Less | Ordering::Equal)),
            "le: agrees with partial_cmp"
        ),
        3 => assert!((x > y) == (want == Some(Ordering::Greater)), "gt: agrees with partial_cmp"),
        _ => assert!(
            (x >= y) == matches!(want, Some(Ordering::Greater | Ordering::Equal)),
            "ge: agrees with partial_cmp"
        ),
    }
}

/// `ensures` minimum, maximum and clamp pick the right contents.
pub fn map_select<K: Shape, const N: usize>()
where
    Map<K, u8>: Ord,
{
    let a = any_map::<N>();
    let b = any_map::<N>();
    let order = lexicographic(&a, &b, total).unwrap();
    let x = map_of::<K, N>(&a);
    let y = map_of::<K, N>(&b);
    if any_bool() {
        let want = if order == Ordering::Greater { a } else { b };
        map_is(&x.max(y), &want);
    } else {
        let want = if order == Ordering::Greater { b } else { a };
        map_is(&x.min(y), &want);
    }
}

pub fn set_select<K: Shape, const N: usize>()
where
    Set<K>: Ord,
{
    let a = any_set::<N>();
    let b = any_set::<N>();
    let order = lexicographic(&of_set(&a), &of_set(&b), total).unwrap();
    let x = set_of::<K, N>(&a);
    let y = set_of::<K, N>(&b);
    if any_bool() {
        let want = if order == Ordering::Greater { a } else { b };
        set_is(&x.max(y), &want);
    } else {
        let want = if order == Ordering::Greater { b } else { a };
        set_is(&x.min(y), &want);
    }
}

pub fn map_clamp<K: Shape, const N: usize>()
where
    Map<K, u8>: Ord,
{
    let a = any_map::<N>();
    let lo = any_map::<N>();
    let hi = any_map::<N>();
    assume(lexicographic(&lo, &hi, total).unwrap() != Ordering::Greater);
    let want = if lexicographic(&a, &lo, total).unwrap() == Ordering::Less {
        lo
    } else if lexicographic(&a, &hi, total).unwrap() == Ordering::Greater {
        hi
    } else {
        a
    };
    let x = map_of::<K, N>(&a);
    map_is(&x.clamp(map_of(&lo), map_of(&hi)), &want);
}

pub fn set_clamp<K: Shape, const N: usize>()
where
    Set<K>: Ord,
{
    let a = any_set::<N>();
    let lo = any_set::<N>();
    let hi = any_set::<N>();
    assume(lexicographic(&of_set(&lo), &of_set(&hi), total).unwrap() != Ordering::Greater);
    let want = if lexicographic(&of_set(&a), &of_set(&lo), total).unwrap() == Ordering::Less {
        lo
    } else if lexicographic(&of_set(&a), &of_set(&hi), total).unwrap() == Ordering::Greater {
        hi
    } else {
        a
    };
    let x = set_of::<K, N>(&a);
    set_is(&x.clamp(set_of(&lo), set_of(&hi)), &want);
}

/// A hasher which records how much it was given, and the byte at one position.
struct Recorder {
    position: u8,
    byte: u8,
    len: u8,
}

impl Recorder {
    fn put(&mut self, byte: u8) {
        if self.len == self.position {
            self.byte = byte;
        }
        self.len += 1;
    }
}

impl Hasher for Recorder {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.put(*b);
        }
    }
    fn write_u8(&mut self, b: u8) {
        self.put(b);
    }
    fn write_u16(&mut self, v: u16) {
        let b = v.to_le_bytes();
        each!(i in 2 => {
            self.put(b[i]);
        });
    }
    fn write_u32(&mut self, v: u32) {
        let b = v.to_le_bytes();
        each!(i in 4 => {
            self.put(b[i]);
        });
    }
    fn write_u64(&mut self, v: u64) {
        let b = v.to_le_bytes();
        each!(i in 8 => {
            self.put(b[i]);
        });
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64);
    }
    fn write_isize(&mut self, v: isize) {
        self.write_u64(v as u64);
    }
}

fn recorded<T: Hash>(value: &T, position: u8) -> (u8, u8) {
    let mut h = Recorder { position, byte: 0, len: 0 };
    value.hash(&mut h);
    (h.len, h.byte)
}

/// `ensures` equal maps feed the same bytes, whatever their history.
pub fn map_hash<K: Shape, const N: usize>()
where
    Map<K, u8>: Hash,
{
    let a = any_map::<N>();
    let mut b = any_map::<N>();
    let mut y = map_of::<K, N>(&b);
    map_step(&mut y, &mut b);
    each!(i in N => {
        assume(a[i] == b[i]);
    });
    let x = map_of::<K, N>(&a);
    let position = any_u8();
    assert!(
        recorded(&x, position) == recorded(&y, position),
        "hash: equal containers feed the same data"
    );
}

pub fn set_hash<K: Shape, const N: usize>()
where
    Set<K>: Hash,
{
    let a = any_set::<N>();
    let mut b = any_set::<N>();
    let mut y = set_of::<K, N>(&b);
    set_step(&mut y, &mut b);
    each!(i in N => {
        assume(a[i] == b[i]);
    });
    let x = set_of::<K, N>(&a);
    let position = any_u8();
    assert!(
        recorded(&x, position) == recorded(&y, position),
        "hash: equal containers feed the same data"
    );
}

/// Any two sets of a large key.
pub fn set_pair<K: Shape, const N: usize>()
where
    Set<K>: Ord,
{
    let (x, a) = dense_set::<K, N>();
    let (y, b) = dense_set::<K, N>();
    // The comparison of what is left from i on.
    let mut want = Ordering::Equal;
    let mut more = (false, false);
    let mut i = N;
    while i > 0 {
        i -= 1;
        want = match (a[i], b[i]) {
            (true, false) if more.1 => Ordering::Less,
            (true, false) => Ordering::Greater,
            (false, true) if more.0 => Ordering::Greater,
            (false, true) => Ordering::Less,
            _ => want,
        };
        more = (more.0 || a[i], more.1 || b[i]);
    }
    assert!(x.cmp(&y) == want, "cmp: the lexicographic order of the contents");
    assert!(x.partial_cmp(&y) == Some(want), "partial_cmp: agrees with cmp");
    assert!((x == y) == (want == Ordering::Equal), "cmp: equal exactly for equal containers");
}

pub mod maps {
    use super::*;
    macro_rules! both {
        ($name:ident, $K:ty, $N:expr, $U:expr) => {
            proofs!($name, $K, $N, $U; map_cmp, map_partial_cmp, map_select, map_hash);
        };
    }
    both!(unit1, U1, 1, 10);
    both!(unit3, U3, 3, 10);
    proofs!(unit2, U2, 2, 10; map_clamp);
}

pub mod sets {
    use super::*;
    macro_rules! both {
        ($name:ident, $K:ty, $N:expr, $U:expr) => {
            proofs!($name, $K, $N, $U; set_cmp, set_select, set_clamp, set_hash);
        };
    }
    both!(singleton, (), 1, 10);
    both!(unit1, U1, 1, 10);
    both!(unit3, U3, 3, 10);
    both!(bits1, B1, 1, 10);
    both!(bits3, B3, 3, 10);
    both!(bits4, B4, 4, 10);
    proofs!(unit4, U4, 4, 10; set_select);
    #[cfg(feature = "thorough")]
    pub mod thorough {
        use super::*;
        proofs!(unit4, U4, 4, 10; set_cmp);
    }
    proofs!(bits8, B8, 8, 10; set_cmp, set_select);
}

pub mod large {
    use super::*;
    macro_rules! large {
        ($name:ident, $K:ty, $N:expr, $U:expr) => {
            proofs!($name, $K, $N, $U; set_pair);
        };
    }
    #[cfg(feature = "thorough")]
    large!(unit9, U9, 9, 11);
    large!(bits9, B9, 9, 11);
    large!(bits16, B16, 16, 18);
    large!(bits17, B17, 17, 19);
    large!(bits32, B32, 32, 34);
    large!(bits33, B33, 33, 35);
    large!(bits64, B64, 64, 66);
    large!(bits65, B65, 65, 67);
    large!(bits128, B128, 128, 130);
    #[cfg(feature = "thorough")]
    large!(unit17, U17, 17, 19);
}

/// Containers with a history compare and hash as their contents do.
pub fn lived<K: Shape, const N: usize>()
where
    Map<K, u8>: Ord,
{
    let (x, a) = lived_map::<K, N>();
    let b = any_map::<N>();
    let y = map_of::<K, N>(&b);
    operators(&x, &y, lexicographic(&a, &b, total).unwrap());
}

pub fn lived_values<K: Shape, const N: usize>()
where
    Set<K>: Ord,
{
    let (x, a) = lived_set::<K, N>();
    let b = any_set::<N>();
    let y = set_of::<K, N>(&b);
    operators(&x, &y, lexicographic(&of_set(&a), &of_set(&b), total).unwrap());
}
proofs!(lived_unit3, U3, 3, 5; lived, lived_values);
proofs!(lived_bits3, B3, 3, 5; lived_values);
