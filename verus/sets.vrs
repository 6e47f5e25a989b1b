Contracts of the sets, for every key type.

@ prelude
#![allow(unused_imports, dead_code, unused_variables, non_snake_case, non_camel_case_types)]
use vstd::prelude::*;
verus! {

global size_of usize == 8;

pub use crate::key::Key;

// What std is assumed to do.
pub assume_specification<T>[core::mem::replace](o: &mut T, v: T) -> (r: T)
    ensures r == *old(o), *final(o) == v;
pub assume_specification<T: Default>[core::mem::take](o: &mut T) -> (r: T)
    ensures r == *old(o), call_ensures(T::default, (), *final(o));
pub assume_specification[<usize as core::convert::From<bool>>::from](b: bool) -> (r: usize)
    ensures r == one(b);

#[verifier::opaque]
pub open spec fn one(b: bool) -> nat { if b { 1 } else { 0 } }
pub broadcast proof fn one_is(b: bool)
    ensures #[trigger] one(b) == (if b { 1nat } else { 0nat })
{ reveal(one); }
pub proof fn ones()
    ensures one(true) == 1, one(false) == 0
{ reveal(one); }

/// Whether a key is among the first n items.
pub open spec fn given<T>(s: Seq<T>, n: int, k: T) -> bool
    decreases n
{
    n > 0 && (s[n - 1] == k || given(s, n - 1, k))
}

/// A type with a single value.
pub trait Single: Sized {
    spec fn the() -> Self;
    proof fn single(a: Self) ensures a == Self::the();
}
impl Single for () {
    open spec fn the() -> () { () }
    proof fn single(a: ()) {}
}

/// `debug_assert!`
pub fn obligation(b: bool) requires b {}

%IT%

%HASHBROWN%

%SERDE%

pub mod order {
use vstd::prelude::*;
use crate::set::storage::SetStorage;
/// The keys of a storage in the order of iteration.
pub trait SetStorageSeq<T>: SetStorage<T> {
    spec fn lt(a: T, b: T) -> bool;
    spec fn seq(&self) -> Seq<T>;
    /// Where a key is.
    spec fn pos(&self, k: T) -> int;
    /// The order is a total order.
    proof fn lemma_lt(a: T, b: T, c: T)
        ensures !Self::lt(a, a), Self::lt(a, b) && Self::lt(b, c) ==> Self::lt(a, c), a != b ==> Self::lt(a, b) || Self::lt(b, a);
    /// What iteration yields is the contents of the storage, each key once, in order.
    proof fn lemma_seq(&self)
        requires self.wf()
        ensures self.seq().len() == self.count(),
            forall|i: int| 0 <= i < self.seq().len() ==> self.has(#[trigger] self.seq()[i]),
            forall|k: T| (#[trigger] self.has(k)) ==> 0 <= self.pos(k) < self.seq().len() && self.seq()[self.pos(k)] == k,
            forall|i: int, j: int| 0 <= i < j < self.seq().len() ==> Self::lt(#[trigger] self.seq()[i], #[trigger] self.seq()[j]);
}
}

pub mod common {
use vstd::prelude::*;
use crate::set::Set;
use crate::key::Key;
/// The keys of a sequence which are in a set.
pub open spec fn common<T: Key>(s: Seq<T>, o: &Set<T>) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else if o.has(s[0]) { seq![s[0]] + common(s.drop_first(), o) } else { common(s.drop_first(), o) }
}
pub broadcast proof fn common_step<T: Key>(s: Seq<T>, t: Seq<T>, o: &Set<T>)
    requires s.len() == t.len() + 1, forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == s[i + 1]
    ensures #[trigger] common(s, o) == (if o.has(s[0]) { seq![s[0]] } else { Seq::empty() }) + #[trigger] common(t, o)
{
    assert(t =~= s.drop_first());
    assert(Seq::<T>::empty() + common(t, o) =~= common(t, o));
}
pub broadcast proof fn common_few<T: Key>(s: Seq<T>, o: &Set<T>)
    ensures #[trigger] common(s, o).len() <= s.len()
    decreases s.len()
{ if s.len() > 0 { common_few(s.drop_first(), o); } }
/// They are the keys in both, and in the same order.
pub proof fn common_is<T: Key>(s: Seq<T>, o: &Set<T>, lt: spec_fn(T, T) -> bool)
    ensures forall|k: T| #[trigger] common(s, o).contains(k) <==> s.contains(k) && o.has(k),
        (forall|i: int, j: int| 0 <= i < j < s.len() ==> lt(#[trigger] s[i], #[trigger] s[j]))
            ==> (forall|i: int, j: int| 0 <= i < j < common(s, o).len() ==> lt(#[trigger] common(s, o)[i], #[trigger] common(s, o)[j])),
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_first();
        let c = common(t, o);
        common_is(t, o, lt);
        assert forall|k: T| s.contains(k) <==> k == s[0] || t.contains(k) by {
            if s.contains(k) { let i = choose|i: int| 0 <= i < s.len() && s[i] == k; if i > 0 { assert(t[i - 1] == k); } }
            if t.contains(k) { let i = choose|i: int| 0 <= i < t.len() && t[i] == k; assert(s[i + 1] == k); }
            assert(s[0] == s[0]);
        }
        if o.has(s[0]) {
            let d = common(s, o);
            assert(d =~= seq![s[0]] + c);
            assert forall|k: T| #[trigger] d.contains(k) <==> k == s[0] || c.contains(k) by {
                if d.contains(k) { let i = choose|i: int| 0 <= i < d.len() && d[i] == k; if i > 0 { assert(c[i - 1] == k); } }
                if c.contains(k) { let i = choose|i: int| 0 <= i < c.len() && c[i] == k; assert(d[i + 1] == k); }
                assert(d[0] == s[0]);
            }
            if forall|i: int, j: int| 0 <= i < j < s.len() ==> lt(#[trigger] s[i], #[trigger] s[j]) {
                assert forall|i: int, j: int| 0 <= i < j < t.len() implies lt(#[trigger] t[i], #[trigger] t[j]) by {
                    assert(t[i] == s[i + 1] && t[j] == s[j + 1]);
                }
                assert forall|i: int, j: int| 0 <= i < j < d.len() implies lt(#[trigger] d[i], #[trigger] d[j]) by {
                    assert(d[j] == c[j - 1]);
                    assert(c.contains(c[j - 1]));
                    if i == 0 {
                        let m = choose|m: int| 0 <= m < t.len() && t[m] == d[j];
                        assert(s[m + 1] == d[j]);
                    } else { assert(d[i] == c[i - 1]); }
                }
            }
        } else {
            assert forall|i: int, j: int| 0 <= i < j < t.len() && (forall|i: int, j: int| 0 <= i < j < s.len() ==> lt(#[trigger] s[i], #[trigger] s[j])) implies lt(#[trigger] t[i], #[trigger] t[j]) by {
                assert(t[i] == s[i + 1] && t[j] == s[j + 1]);
            }
        }
    }
}
}

@ end
}
fn main() {}

@ traits
SetStorage Key Default RawStorage Iterator DoubleEndedIterator ExactSizeIterator FromIterator IntoIterator From Serialize Visitor Deserialize

@ drop functions
expecting fmt option_to_entry fold clone

@ drop types
MapStorage

@ drop items
of_Opt::__SetStorageIter of_Opt::__SetStorageIntoIter __MapStorage __MapStorageIter __MapStorageKeys __MapStorageValues __MapStorageIterMut __MapStorageValuesMut __MapStorageIntoIter VacantEntry OccupiedEntry SimpleVacantEntry SimpleOccupiedEntry

@ trusted
<set::storage::option::OptionSetStorage as SetStorage>::retain
<set::storage::hashbrown::HashbrownSetStorage as SetStorage>::retain

@ trait SetStorage
    /// Whether the set has a key.
    spec fn has(&self, k: T) -> bool;
    /// The number of keys.
    spec fn count(&self) -> nat;
    spec fn wf(&self) -> bool;
    proof fn lemma_count(&self)
        requires self.wf()
        ensures self.count() == 0 <==> (forall|k: T| !#[trigger] self.has(k));

@ fn SetStorage::empty
    ensures r.wf(), r.count() == 0, forall|k: T| !#[trigger] r.has(k)
@ fn SetStorage::len
    requires self.wf(), self.count() <= usize::MAX
    ensures r == self.count()
@ fn SetStorage::is_empty
    requires self.wf()
    ensures r == (self.count() == 0)
@ fn SetStorage::insert
    requires old(self).wf()
    ensures final(self).wf(), r == !old(self).has($1),
        forall|k: T| #[trigger] final(self).has(k) == (k == $1 || old(self).has(k)),
        final(self).count() + crate::one(old(self).has($1)) == old(self).count() + 1
@ fn SetStorage::contains
    requires self.wf()
    ensures r == self.has($1)
@ fn SetStorage::remove
    requires old(self).wf()
    ensures final(self).wf(), r == old(self).has($1),
        forall|k: T| #[trigger] final(self).has(k) == (k != $1 && old(self).has(k)),
        final(self).count() + crate::one(old(self).has($1)) == old(self).count()
@ fn SetStorage::clear
    requires old(self).wf()
    ensures final(self).wf(), final(self).count() == 0, forall|k: T| !#[trigger] final(self).has(k)

@ fn SetStorage::retain
    requires old(self).wf(), forall|k: T| $1.requires((k,))
    ensures final(self).wf(), forall|k: T| if old(self).has(k) { $1.ensures((k,), #[trigger] final(self).has(k)) } else { !final(self).has(k) }
@ fn SetStorage::iter
    requires self.wf()
    ensures r.iwf(), r.rest() =~= self.seq()
@ fn SetStorage::into_iter
    requires self.wf()
    ensures r.iwf(), r.rest() =~= self.seq()

@ mod set::storage::boolean
broadcast use crate::one_is;
pub proof fn lemma_bits(b: u8)
    requires b < 4
    ensures
        b & 1 != 0 <==> (b == 1 || b == 3), b & 2 != 0 <==> (b == 2 || b == 3),
        b | 1 < 4, b | 2 < 4, (b | 1) & 1 != 0, (b | 2) & 2 != 0,
        (b | 1) & 2 == b & 2, (b | 2) & 1 == b & 1,
        b & !1u8 < 4, b & !2u8 < 4, (b & !1u8) & 1 == 0, (b & !2u8) & 2 == 0,
        (b & !1u8) & 2 == b & 2, (b & !2u8) & 1 == b & 1,
{
    assert(b < 4 ==> (b & 1 != 0 <==> (b == 1 || b == 3)) && (b & 2 != 0 <==> (b == 2 || b == 3))
        && b | 1 < 4 && b | 2 < 4 && (b | 1) & 1 != 0 && (b | 2) & 2 != 0
        && (b | 1) & 2 == b & 2 && (b | 2) & 1 == b & 1
        && b & !1u8 < 4 && b & !2u8 < 4 && (b & !1u8) & 1 == 0 && (b & !2u8) & 2 == 0
        && (b & !1u8) & 2 == b & 2 && (b & !2u8) & 1 == b & 1) by (bit_vector);
}
@ impl SetStorage for set::storage::boolean::BooleanSetStorage
    closed spec fn has(&self, k: bool) -> bool { self.bits & (if k { 2u8 } else { 1u8 }) != 0 }
    closed spec fn count(&self) -> nat { crate::one(self.bits & 2 != 0) + crate::one(self.bits & 1 != 0) }
    closed spec fn wf(&self) -> bool { self.bits < 4 }
    proof fn lemma_count(&self) {
        assert(!self.has(true) && !self.has(false) ==> self.count() == 0);
    }
@ mod set::storage::boolean
use crate::order::SetStorageSeq;
pub open spec fn place(k: bool) -> int { if k { 0 } else { 1 } }
pub open spec fn listed(b: u8) -> Seq<bool> {
    (if b & 2 != 0 { seq![true] } else { Seq::empty() }) + (if b & 1 != 0 { seq![false] } else { Seq::empty() })
}
pub proof fn lemma_ones(b: u8)
    requires b < 4
    ensures crate::bits8::ones(b, 8) == listed(b).len()
{
    reveal_with_fuel(crate::bits8::ones, 9);
    assert(b < 4 ==> (b & (1u8 << 0u8) == b & 1) && (b & (1u8 << 1u8) == b & 2) && b & (1u8 << 2u8) == 0
        && b & (1u8 << 3u8) == 0 && b & (1u8 << 4u8) == 0 && b & (1u8 << 5u8) == 0 && b & (1u8 << 6u8) == 0
        && b & (1u8 << 7u8) == 0) by (bit_vector);
}
impl SetStorageSeq<bool> for BooleanSetStorage {
    open spec fn lt(a: bool, b: bool) -> bool { a && !b }
    closed spec fn seq(&self) -> Seq<bool> { listed(self.bits) }
    closed spec fn pos(&self, k: bool) -> int { if k || self.bits & 2 == 0 { 0 } else { 1 } }
    proof fn lemma_lt(a: bool, b: bool, c: bool) {}
    proof fn lemma_seq(&self) { lemma_bits(self.bits); }
}
@ emit SetStorageIter for set::storage::boolean::BooleanSetStorage
@ emit SetStorageInto for set::storage::boolean::BooleanSetStorage
@ emit Iterator for set::storage::boolean::Iter
@ emit DoubleEndedIterator for set::storage::boolean::Iter
@ emit ExactSizeIterator for set::storage::boolean::Iter
@ impl Iterator for set::storage::boolean::Iter
    closed spec fn iwf(&self) -> bool { self.bits < 4 }
    closed spec fn rest(&self) -> Seq<bool> { listed(self.bits) }
@ before <set::storage::boolean::Iter as Iterator>::next
lemma_bits(self.bits);
@ before <set::storage::boolean::Iter as DoubleEndedIterator>::next_back
lemma_bits(self.bits);
@ before <set::storage::boolean::Iter as Iterator>::size_hint
lemma_bits(self.bits); lemma_ones(self.bits);
@ before <set::storage::boolean::Iter as ExactSizeIterator>::len
lemma_bits(self.bits); lemma_ones(self.bits);
@ fn set::storage::boolean::to_bits
    ensures r == if $1 { 2u8 } else { 1u8 }
@ fn set::storage::boolean::test
    ensures r == ($1 & (if $2 { 2u8 } else { 1u8 }) != 0)
@ before <set::storage::boolean::BooleanSetStorage as SetStorage>::empty
lemma_bits(0);
@ before <set::storage::boolean::BooleanSetStorage as SetStorage>::is_empty
lemma_bits(self.bits);
@ before <set::storage::boolean::BooleanSetStorage as SetStorage>::len
lemma_bits(self.bits);
@ before <set::storage::boolean::BooleanSetStorage as SetStorage>::insert
lemma_bits(self.bits);
@ before <set::storage::boolean::BooleanSetStorage as SetStorage>::contains
lemma_bits(self.bits);
@ before <set::storage::boolean::BooleanSetStorage as SetStorage>::remove
lemma_bits(self.bits);
@ before <set::storage::boolean::BooleanSetStorage as SetStorage>::retain
lemma_bits(self.bits); lemma_bits(self.bits & !2u8);
@ before <set::storage::boolean::BooleanSetStorage as SetStorage>::clear
lemma_bits(0);

@ where impl SetStorage for set::storage::singleton::SingletonSetStorage
T: crate::Single
@ impl SetStorage for set::storage::singleton::SingletonSetStorage
    closed spec fn has(&self, k: T) -> bool { k == T::the() && self.is_set }
    closed spec fn count(&self) -> nat { crate::one(self.is_set) }
    closed spec fn wf(&self) -> bool { true }
    proof fn lemma_count(&self) {
        assert(<Self as SetStorage<T>>::has(self, T::the()) == self.is_set);
    }
@ before <set::storage::singleton::SingletonSetStorage as SetStorage>::insert
T::single($1);
@ before <set::storage::singleton::SingletonSetStorage as SetStorage>::contains
T::single($1);
@ before <set::storage::singleton::SingletonSetStorage as SetStorage>::remove
T::single($1);

@ before <set::storage::singleton::SingletonSetStorage as SetStorage>::retain
assert forall|a: T, b: bool| #[trigger] $1.ensures((a,), b) implies a == T::the() by { T::single(a); }
@ impl SetStorage for set::storage::option::OptionSetStorage
    closed spec fn has(&self, k: Option<T>) -> bool { match k { Some(k) => self.some.has(k), None => self.none } }
    closed spec fn count(&self) -> nat { self.some.count() + crate::one(self.none) }
    closed spec fn wf(&self) -> bool { self.some.wf() }
    proof fn lemma_count(&self) {
        self.some.lemma_count();
        assert(self.has(None) == self.none);
        assert forall|k: T| #[trigger] self.some.has(k) == self.has(Some(k)) by {}
    }

@ impl SetStorage for set::storage::hashbrown::HashbrownSetStorage
    closed spec fn has(&self, k: T) -> bool { self.inner.has(k) }
    closed spec fn count(&self) -> nat { self.inner.count() }
    closed spec fn wf(&self) -> bool { true }
    proof fn lemma_count(&self) {
        self.inner.lemma_count();
        assert forall|k: T| #[trigger] self.inner.has(k) == self.has(k) by {}
    }

@ impl set::Set
    pub closed spec fn has(&self, k: T) -> bool { self.storage.has(k) }
    pub closed spec fn count(&self) -> nat { self.storage.count() }
    pub closed spec fn wf(&self) -> bool { self.storage.wf() }
@ impl FromIterator for set::Set
    open spec fn made(items: Seq<T>, r: Self) -> bool {
        r.wf() && forall|k: T| #[trigger] r.has(k) <==> crate::given(items, items.len() as int, k)
    }
@ impl From for set::Set
    open spec fn becomes(a: [T; N], r: Self) -> bool {
        r.wf() && forall|k: T| #[trigger] r.has(k) <==> crate::given(a@, N as int, k)
    }
@ loop <set::Set as FromIterator>::from_iter
invariant
    $1.comes(all__),
    it__.iwf(), $v1.wf(), it__.rest().len() <= all__.len(),
    forall|i: int| 0 <= i < it__.rest().len() ==> #[trigger] it__.rest()[i] == all__[all__.len() - it__.rest().len() + i],
    forall|k: T| #[trigger] $v1.has(k) <==> crate::given(all__, all__.len() - it__.rest().len(), k),
ensures it__.rest().len() == 0
decreases it__.rest().len()
@ fn set::Set::retain
    requires old(self).wf(), forall|k: T| $1.requires((k,))
    ensures final(self).wf(), forall|k: T| if old(self).has(k) { $1.ensures((k,), #[trigger] final(self).has(k)) } else { !final(self).has(k) }
@ fn set::Set::as_raw
    ensures r == self.raw_()
@ fn set::Set::from_raw
    ensures r.rwf(), r.raw_() == T::SetStorage::kept($1)
@ emit serde
@ where impl Serialize for set::Set
for<'x> T::SetStorage: crate::set::storage::SetStorageIter<'x, T>
@ impl Serialize for set::Set
    closed spec fn able(&self) -> bool { self.wf() && self.count() <= usize::MAX }
    closed spec fn sends<M: crate::serde::ser::SerializeSeq>(&self, m: M) -> bool {
        m.announced() == Some(self.count() as usize) && m.length() == self.storage.seq().len()
            && forall|i: int| 0 <= i < self.storage.seq().len() ==> #[trigger] m.sent::<T>(i) == self.storage.seq()[i]
    }
@ loop <set::Set as Serialize>::serialize
invariant
    self.wf(), self.count() <= usize::MAX,
    it__.iwf(), all__ == self.storage.seq(), it__.rest().len() <= all__.len(),
    forall|i: int| 0 <= i < it__.rest().len() ==> #[trigger] it__.rest()[i] == all__[all__.len() - it__.rest().len() + i],
    $v1.announced() == Some(self.count() as usize), $v1.length() == all__.len() - it__.rest().len(),
    forall|i: int| 0 <= i < $v1.length() ==> #[trigger] $v1.sent::<T>(i) == self.storage.seq()[i],
ensures it__.rest().len() == 0
decreases it__.rest().len()
@ fn <set::SeqVisitor as Visitor>::visit_seq
    ensures ({
        let a = $1.answers::<T>();
        match r {
            Ok(m) => m.wf() && exists|n: int| #[trigger] crate::serde::de::good(a, n) && n < a.len() && a[n] == Ok::<Option<T>, Access::Error>(None)
                && forall|k: T| #[trigger] m.has(k) <==> crate::given(crate::serde::de::given(a), n, k),
            Err(e) => exists|n: int| #[trigger] crate::serde::de::good(a, n) && n < a.len() && a[n] == Err::<Option<T>, Access::Error>(e),
        }
    })
@ loop <set::SeqVisitor as Visitor>::visit_seq
invariant_except_break
    crate::serde::de::good($1.answers::<T>(), $1.answers::<T>().len() - $v1.answers::<T>().len()),
    forall|k: T| #[trigger] $v2.has(k) <==> crate::given(crate::serde::de::given($1.answers::<T>()), $1.answers::<T>().len() - $v1.answers::<T>().len(), k),
invariant
    $v2.wf(),
    forall|i: int| 0 <= i < $v1.answers::<T>().len() ==> #[trigger] $v1.answers::<T>()[i]
        == $1.answers::<T>()[$1.answers::<T>().len() - $v1.answers::<T>().len() + i],
ensures
    $v1.answers::<T>().len() < $1.answers::<T>().len(),
    crate::serde::de::good($1.answers::<T>(), $1.answers::<T>().len() - $v1.answers::<T>().len() - 1),
    $1.answers::<T>()[$1.answers::<T>().len() - $v1.answers::<T>().len() - 1] == Ok::<Option<T>, Access::Error>(None),
    forall|k: T| #[trigger] $v2.has(k) <==> crate::given(crate::serde::de::given($1.answers::<T>()), $1.answers::<T>().len() - $v1.answers::<T>().len() - 1, k),
decreases $v1.answers::<T>().len()
@ emit type set::Iter
@ emit type set::IntoIter
@ emit IntoIterator for set::&Set
@ where impl IntoIterator for set::&Set
T: 'a, T::SetStorage: crate::set::storage::SetStorageIter<'a, T>
@ impl IntoIterator for set::&Set
    closed spec fn ready(&self) -> bool { self.wf() }
    open spec fn exact() -> bool { true }
    closed spec fn comes(&self, items: Seq<Self::Item>) -> bool { items =~= self.storage.seq() }
@ emit IntoIterator for set::Set
@ where impl IntoIterator for set::Set
T::SetStorage: crate::set::storage::SetStorageInto<T>
@ impl IntoIterator for set::Set
    closed spec fn ready(&self) -> bool { self.wf() }
    open spec fn exact() -> bool { true }
    closed spec fn comes(&self, items: Seq<Self::Item>) -> bool { items =~= self.storage.seq() }
@ where fn set::Set::iter
T: 'this, T::SetStorage: crate::set::storage::SetStorageIter<'this, T>
@ fn set::Set::iter
    requires self.wf()
    ensures r.iwf(), r.rest() =~= self.storage.seq()
@ where fn set::Set::intersection
T::SetStorage: crate::set::storage::SetStorageIter<'a, T>
@ fn set::Set::intersection
    requires self.wf(), $1.wf(), self.count() <= usize::MAX, $1.count() <= usize::MAX
    ensures r.iwf(),
        forall|k: T| #[trigger] r.rest().contains(k) <==> self.has(k) && $1.has(k),
        forall|i: int, j: int| 0 <= i < j < r.rest().len() ==> T::SetStorage::lt(#[trigger] r.rest()[i], #[trigger] r.rest()[j]),
@ before set::Set::intersection
self.lemma_common($1); $1.lemma_common(self);
@ mod set
impl<T> Set<T> where T: Key, T::SetStorage: SetStorageSeq<T> {
    pub proof fn lemma_common(&self, o: &Set<T>)
        requires self.wf(), o.wf()
        ensures forall|k: T| #[trigger] crate::common::common(self.storage.seq(), o).contains(k) <==> self.has(k) && o.has(k),
            forall|i: int, j: int| 0 <= i < j < crate::common::common(self.storage.seq(), o).len() ==>
                T::SetStorage::lt(#[trigger] crate::common::common(self.storage.seq(), o)[i], #[trigger] crate::common::common(self.storage.seq(), o)[j])
    {
        self.storage.lemma_seq();
        crate::common::common_is(self.storage.seq(), o, |a: T, b: T| T::SetStorage::lt(a, b));
        assert forall|k: T| self.storage.seq().contains(k) <==> self.storage.has(k) by {
            if self.storage.has(k) { assert(self.storage.seq()[self.storage.pos(k)] == k); }
        }
        let lt = |a: T, b: T| T::SetStorage::lt(a, b);
        let s = self.storage.seq();
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies lt(#[trigger] s[i], #[trigger] s[j]) by {}
        let c = crate::common::common(s, o);
        assert forall|i: int, j: int| 0 <= i < j < c.len() implies T::SetStorage::lt(#[trigger] c[i], #[trigger] c[j]) by { assert(lt(c[i], c[j])); }
    }
}
@ where set::intersection::Intersection
T::SetStorage: crate::set::storage::SetStorageIter<'a, T>
@ where impl Iterator for set::intersection::Intersection
T::SetStorage: crate::set::storage::SetStorageIter<'this, T>
@ emit Iterator for set::intersection::Intersection
@ impl Iterator for set::intersection::Intersection
    open spec fn iwf(&self) -> bool { self.iter.iwf() && self.other.wf() }
    open spec fn rest(&self) -> Seq<T> { common(self.iter.rest(), self.other) }
@ loop <set::intersection::Intersection as Iterator>::next
    invariant self.iwf(), self.other == old(self).other, self.rest() =~= old(self).rest()
    decreases self.iter.rest().len()
@ mod set::intersection
use crate::common::*;
broadcast use {crate::common::common_step, crate::common::common_few};
@ mod set
use crate::order::SetStorageSeq;
impl<T> Set<T> where T: Key, T::SetStorage: crate::raw::RawStorage {
    pub closed spec fn raw_(&self) -> <T::SetStorage as crate::raw::RawStorage>::Value { self.storage.raw_() }
    pub closed spec fn rwf(&self) -> bool { self.storage.rwf() }
}
@ trait RawStorage
    /// Only bits of variants are set.
    spec fn rwf(&self) -> bool;
    spec fn raw_(&self) -> Self::Value;
    /// The bits of variants.
    spec fn kept(raw: Self::Value) -> Self::Value;
@ fn RawStorage::as_raw
    ensures r == self.raw_()
@ fn RawStorage::from_raw
    ensures r.rwf(), r.raw_() == Self::kept($1)
@ fn set::Set::new
    ensures r.wf(), r.count() == 0, forall|k: T| !#[trigger] r.has(k)
@ fn <set::Set as Default>::default
    ensures r.wf(), r.count() == 0, forall|k: T| !#[trigger] r.has(k)
@ fn set::Set::len
    requires self.wf(), self.count() <= usize::MAX
    ensures r == self.count()
@ fn set::Set::is_empty
    requires self.wf()
    ensures r == (self.count() == 0)
@ fn set::Set::insert
    requires old(self).wf()
    ensures final(self).wf(), r == !old(self).has($1),
        forall|k: T| #[trigger] final(self).has(k) == (k == $1 || old(self).has(k)),
        final(self).count() + crate::one(old(self).has($1)) == old(self).count() + 1
@ fn set::Set::contains
    requires self.wf()
    ensures r == self.has($1)
@ fn set::Set::remove
    requires old(self).wf()
    ensures final(self).wf(), r == old(self).has($1),
        forall|k: T| #[trigger] final(self).has(k) == (k != $1 && old(self).has(k)),
        final(self).count() + crate::one(old(self).has($1)) == old(self).count()
@ fn set::Set::clear
    requires old(self).wf()
    ensures final(self).wf(), final(self).count() == 0, forall|k: T| !#[trigger] final(self).has(k)

@ mod set
broadcast use crate::one_is;

@ mod set::storage::singleton
broadcast use crate::one_is;

@ mod set::storage::option
broadcast use crate::one_is;
