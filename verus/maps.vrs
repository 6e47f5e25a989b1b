Contracts of the maps, for every key and value type.

@ prelude
#![allow(unused_imports, dead_code, unused_variables, non_snake_case, non_camel_case_types)]
use vstd::prelude::*;
verus! {

global size_of usize == 8;

pub use crate::key::Key;

// What std is assumed to do.
pub assume_specification<T>[Option::<T>::replace](o: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(v);
pub assume_specification<T>[Option::<T>::unwrap_unchecked](o: Option<T>) -> (r: T)
    requires o.is_some()
    ensures r == o->Some_0;
pub assume_specification<T>[core::mem::replace](o: &mut T, v: T) -> (r: T)
    ensures r == *old(o), *final(o) == v;

pub assume_specification<T: Default>[core::mem::take](o: &mut T) -> (r: T)
    ensures r == *old(o), call_ensures(T::default, (), *final(o));
pub assume_specification[<usize as core::convert::From<bool>>::from](b: bool) -> (r: usize)
    ensures r == one(b);

#[verifier::opaque]
pub open spec fn one(b: bool) -> nat { if b { 1 } else { 0 } }
pub broadcast proof fn one_is(b: bool)
    ensures #[trigger] one(b) == (if b { 1nat } else { 0nat })
{ reveal(one); }
pub proof fn ones()
    ensures one(true) == 1, one(false) == 0
{ reveal(one); }

/// The value given last for a key by the first n items.
pub open spec fn latest<K, V>(s: Seq<(K, V)>, n: int, k: K) -> Option<V>
    decreases n
{
    if n <= 0 { None } else if s[n - 1].0 == k { Some(s[n - 1].1) } else { latest(s, n - 1, k) }
}

/// A type with a single value.
pub trait Single: Sized {
    spec fn the() -> Self;
    proof fn single(a: Self) ensures a == Self::the();
}
impl Single for () {
    open spec fn the() -> () { () }
    proof fn single(a: ()) {}
}

/// What a predicate may leave of an entry.
#[verifier::prophetic]
pub open spec fn asked<K, V, F: FnMut(K, &mut V) -> bool>(f: F, k: K, v: V, r: Option<V>) -> bool {
    exists|m: &mut V, b: bool| *m == v && #[trigger] f.ensures((k, m), b) && r == (if b { Some(*final(m)) } else { None })
}

/// `debug_assert!`
pub fn obligation(b: bool) requires b {}

%IT%

%HASHBROWN%

%SERDE%

pub mod order {
use vstd::prelude::*;
use crate::map::storage::MapStorage;
/// The entries of a storage in the order of iteration.
pub trait MapStorageSeq<K, V>: MapStorage<K, V> {
    spec fn lt(a: K, b: K) -> bool;
    spec fn seq(&self) -> Seq<(K, V)>;
    /// Where the entry of a key is.
    spec fn pos(&self, k: K) -> int;
    /// The order is a total order.
    proof fn lemma_lt(a: K, b: K, c: K)
        ensures !Self::lt(a, a), Self::lt(a, b) && Self::lt(b, c) ==> Self::lt(a, c), a != b ==> Self::lt(a, b) || Self::lt(b, a);
    /// What iteration yields is the contents of the storage, each entry once, in order.
    proof fn lemma_seq(&self)
        requires self.wf()
        ensures self.seq().len() == self.count(),
            forall|i: int| 0 <= i < self.seq().len() ==> self.at((#[trigger] self.seq()[i]).0) == Some(self.seq()[i].1),
            forall|k: K| (#[trigger] self.at(k)).is_some() ==> 0 <= self.pos(k) < self.seq().len() && self.seq()[self.pos(k)].0 == k,
            forall|i: int, j: int| 0 <= i < j < self.seq().len() ==> Self::lt((#[trigger] self.seq()[i]).0, (#[trigger] self.seq()[j]).0);
}
pub open spec fn refs<K, V>(r: Seq<(K, &V)>, s: Seq<(K, V)>) -> bool {
    r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] r[i]).0 == s[i].0 && *r[i].1 == s[i].1
}
pub open spec fn keys<K, V>(r: Seq<K>, s: Seq<(K, V)>) -> bool {
    r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] r[i] == s[i].0
}
pub open spec fn values<K, V>(r: Seq<&V>, s: Seq<(K, V)>) -> bool {
    r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> *#[trigger] r[i] == s[i].1
}
pub open spec fn moved<K, V>(r: Seq<(K, V)>, s: Seq<(K, V)>) -> bool {
    r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] r[i] == s[i]
}
/// Mutable references to the values of s, which are t in the end.
#[verifier::prophetic]
pub open spec fn muts<K, V>(r: Seq<(K, &mut V)>, s: Seq<(K, V)>, t: Seq<(K, V)>) -> bool {
    r.len() == s.len() && t.len() == s.len()
        && forall|i: int| 0 <= i < s.len() ==> (#[trigger] r[i]).0 == s[i].0 && *r[i].1 == s[i].1 && t[i] == (s[i].0, *final(r[i].1))
}
#[verifier::prophetic]
pub open spec fn value_muts<K, V>(r: Seq<&mut V>, s: Seq<(K, V)>, t: Seq<(K, V)>) -> bool {
    r.len() == s.len() && t.len() == s.len()
        && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] r[i]) == s[i].1 && t[i] == (s[i].0, *final(r[i]))
}
}

@ end
}
fn main() {}

@ traits
MapStorage OccupiedEntry VacantEntry Key Default Iterator DoubleEndedIterator FromIterator IntoIterator Serialize Visitor Deserialize

@ drop functions
expecting fmt

@ drop types
SetStorage

@ drop items
__SetStorage __SetStorageIter __SetStorageIntoIter of_Opt::__MapStorageIter of_Opt::__MapStorageKeys of_Opt::__MapStorageValues of_Opt::__MapStorageIterMut of_Opt::__MapStorageValuesMut of_Opt::__MapStorageIntoIter

@ trusted
option_bucket::NoneBucket::insert
<map::storage::option::OptionMapStorage as MapStorage>::retain
<map::storage::hashbrown::HashbrownMapStorage as MapStorage>::retain

@ trait OccupiedEntry
    spec fn wf(&self) -> bool;
    spec fn key_(&self) -> K;
    spec fn val_(&self) -> V;
    /// What the slot holds when the entry is gone.
    #[verifier::prophetic]
    spec fn fin_(&self) -> Option<V>;

@ fn OccupiedEntry::key
    requires self.wf()
    ensures r == self.key_()
@ fn OccupiedEntry::get
    requires self.wf()
    ensures *r == self.val_()
@ fn OccupiedEntry::get_mut
    requires old(self).wf()
    ensures *r == old(self).val_(), final(self).wf(), final(self).val_() == *final(r),
        final(self).key_() == old(self).key_(), final(self).fin_() == old(self).fin_()
@ fn OccupiedEntry::into_mut
    requires self.wf()
    ensures *r == self.val_(), self.fin_() == Some(*final(r))
@ fn OccupiedEntry::insert
    requires old(self).wf()
    ensures r == old(self).val_(), final(self).wf(), final(self).val_() == $1,
        final(self).key_() == old(self).key_(), final(self).fin_() == old(self).fin_()
@ fn OccupiedEntry::remove
    requires self.wf()
    ensures r == self.val_(), self.fin_() == None::<V>

@ trait VacantEntry
    spec fn wf(&self) -> bool;
    spec fn key_(&self) -> K;
    #[verifier::prophetic]
    spec fn fin_(&self) -> Option<V>;
@ fn VacantEntry::key
    requires self.wf()
    ensures r == self.key_()
@ fn VacantEntry::insert
    requires self.wf()
    ensures *r == $1, self.fin_() == Some(*final(r))

@ trait MapStorage
    /// The value of each key.
    spec fn at(&self, k: K) -> Option<V>;
    /// The number of entries.
    spec fn count(&self) -> nat;
    spec fn wf(&self) -> bool;
    proof fn lemma_count(&self)
        requires self.wf()
        ensures self.count() == 0 <==> (forall|k: K| (#[trigger] self.at(k)).is_none());

@ fn MapStorage::empty
    ensures r.wf(), r.count() == 0, forall|k: K| (#[trigger] r.at(k)).is_none()
@ fn MapStorage::len
    requires self.wf(), self.count() <= usize::MAX
    ensures r == self.count()
@ fn MapStorage::is_empty
    requires self.wf()
    ensures r == (self.count() == 0)
@ fn MapStorage::insert
    requires old(self).wf()
    ensures final(self).wf(), r == old(self).at($1),
        forall|k: K| #[trigger] final(self).at(k) == (if k == $1 { Some($2) } else { old(self).at(k) }),
        final(self).count() + crate::one(old(self).at($1).is_some()) == old(self).count() + 1
@ fn MapStorage::contains_key
    requires self.wf()
    ensures r == self.at($1).is_some()
@ fn MapStorage::get
    requires self.wf()
    ensures r == (match self.at($1) { Some(v) => Some(&v), None => None })
@ fn MapStorage::get_mut
    requires old(self).wf()
    ensures final(self).wf(), r.is_some() == old(self).at($1).is_some(),
        final(self).count() == old(self).count(),
        r matches Some(r) ==> Some(*r) == old(self).at($1)
            && forall|k: K| #[trigger] final(self).at(k) == (if k == $1 { Some(*final(r)) } else { old(self).at(k) }),
        r.is_none() ==> forall|k: K| #[trigger] final(self).at(k) == old(self).at(k)
@ fn MapStorage::remove
    requires old(self).wf()
    ensures final(self).wf(), r == old(self).at($1),
        forall|k: K| #[trigger] final(self).at(k) == (if k == $1 { None } else { old(self).at(k) }),
        final(self).count() + crate::one(old(self).at($1).is_some()) == old(self).count()
@ fn MapStorage::clear
    requires old(self).wf()
    ensures final(self).wf(), final(self).count() == 0, forall|k: K| (#[trigger] final(self).at(k)).is_none()
@ fn MapStorage::retain
    requires old(self).wf(), forall|k: K, m: &mut V| $1.requires((k, m))
    ensures final(self).wf(), forall|k: K| match old(self).at(k) {
            Some(v) => crate::asked($1, k, v, #[trigger] final(self).at(k)),
            None => final(self).at(k).is_none(),
        }
@ fn MapStorage::entry
    requires old(self).wf()
    ensures final(self).wf(), match r {
        Entry::Occupied(e) => e.wf() && e.key_() == $1 && old(self).at($1) == Some(e.val_())
            && (forall|k: K| #[trigger] final(self).at(k) == (if k == $1 { e.fin_() } else { old(self).at(k) }))
            && final(self).count() + 1 == old(self).count() + crate::one(e.fin_().is_some()),
        Entry::Vacant(e) => e.wf() && e.key_() == $1 && old(self).at($1).is_none()
            && (forall|k: K| #[trigger] final(self).at(k) == (if k == $1 { e.fin_() } else { old(self).at(k) }))
            && final(self).count() == old(self).count() + crate::one(e.fin_().is_some()),
    }

@ impl option_bucket::SomeBucket
    pub closed spec fn wf_(&self) -> bool { self.outer.is_some() }
    pub closed spec fn val(&self) -> T { self.outer->Some_0 }
    #[verifier::prophetic]
    pub closed spec fn fin(&self) -> Option<T> { *final(self.outer) }

@ fn option_bucket::SomeBucket::new_unchecked
    requires old($1).is_some()
    ensures r.wf_(), *old($1) == Some(r.val()), r.fin() == *final($1)
@ fn option_bucket::SomeBucket::new
    ensures r.is_some() == old($1).is_some(),
        r matches Some(s) ==> s.wf_() && *old($1) == Some(s.val()) && s.fin() == *final($1),
        r.is_none() ==> *final($1) == *old($1)
@ fn option_bucket::SomeBucket::as_ref
    requires self.wf_()
    ensures *r == self.val()
@ fn option_bucket::SomeBucket::as_mut
    requires old(self).wf_()
    ensures *r == old(self).val(), final(self).wf_(), final(self).val() == *final(r),
        final(self).fin() == old(self).fin()
@ fn option_bucket::SomeBucket::into_mut
    requires self.wf_()
    ensures *r == self.val(), self.fin() == Some(*final(r))
@ fn option_bucket::SomeBucket::replace
    requires old(self).wf_()
    ensures r == old(self).val(), final(self).wf_(), final(self).val() == $1, final(self).fin() == old(self).fin()
@ fn option_bucket::SomeBucket::take
    requires self.wf_()
    ensures r == self.val(), self.fin() == None::<T>

@ impl option_bucket::NoneBucket
    pub closed spec fn wf_(&self) -> bool { self.outer.is_none() }
    #[verifier::prophetic]
    pub closed spec fn fin(&self) -> Option<T> { *final(self.outer) }
@ fn option_bucket::NoneBucket::new_unchecked
    requires old($1).is_none()
    ensures r.wf_(), r.fin() == *final($1)
@ fn option_bucket::NoneBucket::new
    ensures r.is_some() == old($1).is_none(),
        r matches Some(s) ==> s.wf_() && s.fin() == *final($1),
        r.is_none() ==> *final($1) == *old($1)
@ fn option_bucket::NoneBucket::insert
    requires self.wf_()
    ensures *r == $1, self.fin() == Some(*final(r))

@ fn option_bucket::OptionBucket::new
    ensures match r {
        OptionBucket::Some(s) => s.wf_() && *old($1) == Some(s.val()) && s.fin() == *final($1),
        OptionBucket::None(s) => s.wf_() && old($1).is_none() && s.fin() == *final($1),
    }

@ where impl OccupiedEntry for option_bucket::SomeBucket
K: crate::Single
@ impl OccupiedEntry for option_bucket::SomeBucket
    open spec fn wf(&self) -> bool { self.wf_() }
    open spec fn key_(&self) -> K { K::the() }
    open spec fn val_(&self) -> V { self.val() }
    #[verifier::prophetic]
    open spec fn fin_(&self) -> Option<V> { self.fin() }
@ where impl VacantEntry for option_bucket::NoneBucket
K: crate::Single
@ impl VacantEntry for option_bucket::NoneBucket
    open spec fn wf(&self) -> bool { self.wf_() }
    open spec fn key_(&self) -> K { K::the() }
    #[verifier::prophetic]
    open spec fn fin_(&self) -> Option<V> { self.fin() }

@ impl VacantEntry for map::storage::boolean::Vacant
    closed spec fn wf(&self) -> bool { self.inner.wf_() }
    closed spec fn key_(&self) -> bool { self.key }
    #[verifier::prophetic]
    closed spec fn fin_(&self) -> Option<V> { self.inner.fin() }
@ impl OccupiedEntry for map::storage::boolean::Occupied
    closed spec fn wf(&self) -> bool { self.inner.wf_() }
    closed spec fn key_(&self) -> bool { self.key }
    closed spec fn val_(&self) -> V { self.inner.val() }
    #[verifier::prophetic]
    closed spec fn fin_(&self) -> Option<V> { self.inner.fin() }
@ impl MapStorage for map::storage::boolean::BooleanMapStorage
    closed spec fn at(&self, k: bool) -> Option<V> { if k { self.t } else { self.f } }
    closed spec fn count(&self) -> nat { crate::one(self.t.is_some()) + crate::one(self.f.is_some()) }
    closed spec fn wf(&self) -> bool { true }
    proof fn lemma_count(&self) {
        assert(self.at(true).is_none() && self.at(false).is_none() ==> self.count() == 0);
    }

@ where impl MapStorage for map::storage::singleton::SingletonMapStorage
K: crate::Single
@ impl MapStorage for map::storage::singleton::SingletonMapStorage
    closed spec fn at(&self, k: K) -> Option<V> { if k == K::the() { self.inner } else { None } }
    closed spec fn count(&self) -> nat { crate::one(self.inner.is_some()) }
    closed spec fn wf(&self) -> bool { true }
    proof fn lemma_count(&self) {
        assert(self.at(K::the()) == self.inner);
    }
@ before <map::storage::singleton::SingletonMapStorage as MapStorage>::insert
K::single($1);
@ before <map::storage::singleton::SingletonMapStorage as MapStorage>::contains_key
K::single($1);
@ before <map::storage::singleton::SingletonMapStorage as MapStorage>::get
K::single($1);
@ before <map::storage::singleton::SingletonMapStorage as MapStorage>::get_mut
K::single($1);
@ before <map::storage::singleton::SingletonMapStorage as MapStorage>::remove
K::single($1);
@ before <map::storage::singleton::SingletonMapStorage as MapStorage>::retain
assert forall|a: K, m: &mut V, b: bool| #[trigger] $1.ensures((a, m), b) implies a == K::the() by { K::single(a); }
@ before <map::storage::singleton::SingletonMapStorage as MapStorageEntry>::entry
K::single($1);
@ after <option_bucket::SomeBucket as OccupiedEntry>::key
K::single(r);
@ after <option_bucket::NoneBucket as VacantEntry>::key
K::single(r);
@ where map::storage::option::Vacant
K::MapStorage: MapStorageEntry<'a, K, V>
@ where map::storage::option::Occupied
K::MapStorage: MapStorageEntry<'a, K, V>
@ where impl VacantEntry for map::storage::option::Vacant
K::MapStorage: MapStorageEntry<'a, K, V>
@ where impl OccupiedEntry for map::storage::option::Occupied
K::MapStorage: MapStorageEntry<'a, K, V>
@ where impl MapStorageEntry for map::storage::option::OptionMapStorage
K::MapStorage: MapStorageEntry<'this, K, V>
@ where impl MapStorageEntry for map::storage::singleton::SingletonMapStorage
K: crate::Single
@ impl VacantEntry for map::storage::option::Vacant
    closed spec fn wf(&self) -> bool { match self { Vacant::None(e) => e.wf_(), Vacant::Some(e) => e.wf() } }
    closed spec fn key_(&self) -> Option<K> { match self { Vacant::None(_) => None, Vacant::Some(e) => Some(e.key_()) } }
    #[verifier::prophetic]
    closed spec fn fin_(&self) -> Option<V> { match self { Vacant::None(e) => e.fin(), Vacant::Some(e) => e.fin_() } }
@ impl OccupiedEntry for map::storage::option::Occupied
    closed spec fn wf(&self) -> bool { match self { Occupied::None(e) => e.wf_(), Occupied::Some(e) => e.wf() } }
    closed spec fn key_(&self) -> Option<K> { match self { Occupied::None(_) => None, Occupied::Some(e) => Some(e.key_()) } }
    closed spec fn val_(&self) -> V { match self { Occupied::None(e) => e.val(), Occupied::Some(e) => e.val_() } }
    #[verifier::prophetic]
    closed spec fn fin_(&self) -> Option<V> { match self { Occupied::None(e) => e.fin(), Occupied::Some(e) => e.fin_() } }
@ impl MapStorage for map::storage::option::OptionMapStorage
    closed spec fn at(&self, k: Option<K>) -> Option<V> { match k { Some(k) => self.some.at(k), None => self.none } }
    closed spec fn count(&self) -> nat { self.some.count() + crate::one(self.none.is_some()) }
    closed spec fn wf(&self) -> bool { self.some.wf() }
    proof fn lemma_count(&self) {
        self.some.lemma_count();
        assert(self.at(None) == self.none);
        assert forall|k: K| #[trigger] self.some.at(k) == self.at(Some(k)) by {}
    }

@ impl OccupiedEntry for map::storage::hashbrown::Occupied
    open spec fn wf(&self) -> bool { true }
    open spec fn key_(&self) -> K { self.key_() }
    open spec fn val_(&self) -> V { self.val_() }
    #[verifier::prophetic]
    open spec fn fin_(&self) -> Option<V> { self.fin_() }
@ impl VacantEntry for map::storage::hashbrown::Vacant
    open spec fn wf(&self) -> bool { true }
    open spec fn key_(&self) -> K { self.key_() }
    #[verifier::prophetic]
    open spec fn fin_(&self) -> Option<V> { self.fin_() }
@ impl MapStorage for map::storage::hashbrown::HashbrownMapStorage
    closed spec fn at(&self, k: K) -> Option<V> { self.inner.at(k) }
    closed spec fn count(&self) -> nat { self.inner.count() }
    closed spec fn wf(&self) -> bool { true }
    proof fn lemma_count(&self) {
        self.inner.lemma_count();
        assert forall|k: K| #[trigger] self.inner.at(k) == self.at(k) by {}
    }
@ where fn map::Map::entry
K: 'this, V: 'this, K::MapStorage: crate::map::storage::MapStorageEntry<'this, K, V>

@ fn MapStorage::iter
    requires self.wf()
    ensures r.iwf(), crate::order::refs(r.rest(), self.seq()),
        forall|a: (K, &V), b: (K, &V)| #[trigger] <Self::Iter as crate::it::Iterator>::same(a, b) ==> a == b
@ fn MapStorage::keys
    requires self.wf()
    ensures r.iwf(), crate::order::keys(r.rest(), self.seq())
@ fn MapStorage::values
    requires self.wf()
    ensures r.iwf(), crate::order::values(r.rest(), self.seq())
@ fn MapStorage::into_iter
    requires self.wf()
    ensures r.iwf(), crate::order::moved(r.rest(), self.seq())
@ fn MapStorage::iter_mut
    requires old(self).wf()
    ensures final(self).wf(), r.iwf(), crate::order::muts(r.rest(), old(self).seq(), final(self).seq())
@ fn MapStorage::values_mut
    requires old(self).wf()
    ensures final(self).wf(), r.iwf(), crate::order::value_muts(r.rest(), old(self).seq(), final(self).seq())

@ impl map::Map
    pub closed spec fn at(&self, k: K) -> Option<V> { self.storage.at(k) }
    pub closed spec fn count(&self) -> nat { self.storage.count() }
    pub closed spec fn wf(&self) -> bool { self.storage.wf() }
@ impl FromIterator for map::Map
    open spec fn made(items: Seq<(K, V)>, r: Self) -> bool {
        r.wf() && forall|k: K| #[trigger] r.at(k) == crate::latest(items, items.len() as int, k)
    }
@ loop <map::Map as FromIterator>::from_iter
invariant
    $1.comes(all__),
    it__.iwf(), $v1.wf(), it__.rest().len() <= all__.len(),
    forall|i: int| 0 <= i < it__.rest().len() ==> #[trigger] it__.rest()[i] == all__[all__.len() - it__.rest().len() + i],
    forall|a: (K, V), b: (K, V)| #[trigger] <Items::IntoIter as crate::it::Iterator>::same(a, b) ==> a == b,
    forall|k: K| #[trigger] $v1.at(k) == crate::latest(all__, all__.len() - it__.rest().len(), k),
ensures it__.rest().len() == 0
decreases it__.rest().len()
@ emit type map::Iter
@ where fn map::Map::iter
K: 'this, V: 'this, K::MapStorage: crate::map::storage::MapStorageIter<'this, K, V>
@ fn map::Map::iter
    requires self.wf()
    ensures r.iwf(), crate::order::refs(r.rest(), self.storage.seq()),
        forall|a: (K, &V), b: (K, &V)| #[trigger] <<K::MapStorage as MapStorageIter<'_, K, V>>::Iter as crate::it::Iterator>::same(a, b) ==> a == b
@ emit type map::Keys
@ where fn map::Map::keys
K: 'this, V: 'this, K::MapStorage: crate::map::storage::MapStorageKeys<'this, K, V>
@ fn map::Map::keys
    requires self.wf()
    ensures r.iwf(), crate::order::keys(r.rest(), self.storage.seq())
@ emit type map::Values
@ where fn map::Map::values
K: 'this, V: 'this, K::MapStorage: crate::map::storage::MapStorageValues<'this, K, V>
@ fn map::Map::values
    requires self.wf()
    ensures r.iwf(), crate::order::values(r.rest(), self.storage.seq())
@ emit type map::IterMut
@ where fn map::Map::iter_mut
K: 'this, V: 'this, K::MapStorage: crate::map::storage::MapStorageIterMut<'this, K, V>
@ fn map::Map::iter_mut
    requires old(self).wf()
    ensures final(self).wf(), r.iwf(), crate::order::muts(r.rest(), old(self).storage.seq(), final(self).storage.seq())
@ emit type map::ValuesMut
@ where fn map::Map::values_mut
K: 'this, V: 'this, K::MapStorage: crate::map::storage::MapStorageValuesMut<'this, K, V>
@ fn map::Map::values_mut
    requires old(self).wf()
    ensures final(self).wf(), r.iwf(), crate::order::value_muts(r.rest(), old(self).storage.seq(), final(self).storage.seq())
@ emit type map::IntoIter
@ emit IntoIterator for map::&Map
@ where impl IntoIterator for map::&Map
K: 'a, V: 'a, K::MapStorage: crate::map::storage::MapStorageIter<'a, K, V>
@ impl IntoIterator for map::&Map
    closed spec fn ready(&self) -> bool { self.wf() }
    open spec fn exact() -> bool { true }
    closed spec fn comes(&self, items: Seq<Self::Item>) -> bool { crate::order::refs(items, self.storage.seq()) }
@ emit IntoIterator for map::&mut Map
@ where impl IntoIterator for map::&mut Map
K: 'a, V: 'a, K::MapStorage: crate::map::storage::MapStorageIterMut<'a, K, V>
@ impl IntoIterator for map::&mut Map
    closed spec fn ready(&self) -> bool { self.wf() }
    open spec fn exact() -> bool { false }
    #[verifier::prophetic]
    closed spec fn comes(&self, items: Seq<Self::Item>) -> bool { crate::order::muts(items, self.storage.seq(), final(*self).storage.seq()) }
@ emit IntoIterator for map::Map
@ where impl IntoIterator for map::Map
K::MapStorage: crate::map::storage::MapStorageInto<K, V>
@ impl IntoIterator for map::Map
    closed spec fn ready(&self) -> bool { self.wf() }
    open spec fn exact() -> bool { false }
    closed spec fn comes(&self, items: Seq<Self::Item>) -> bool { crate::order::moved(items, self.storage.seq()) }
@ emit serde
@ where impl Serialize for map::Map
for<'x> K::MapStorage: crate::map::storage::MapStorageIter<'x, K, V>
@ impl Serialize for map::Map
    closed spec fn able(&self) -> bool { self.wf() && self.count() <= usize::MAX }
    closed spec fn sends<M: crate::serde::ser::SerializeMap>(&self, m: M) -> bool {
        m.announced() == Some(self.count() as usize) && m.length() == self.storage.seq().len()
            && forall|i: int| 0 <= i < self.storage.seq().len() ==> #[trigger] m.sent::<K, V>(i) == self.storage.seq()[i]
    }
@ loop <map::Map as Serialize>::serialize
invariant
    self.wf(), self.count() <= usize::MAX,
    forall|a: (K, &V), b: (K, &V)| #[trigger] <<K::MapStorage as MapStorageIter<'_, K, V>>::Iter as crate::it::Iterator>::same(a, b) ==> a == b,
    it__.iwf(), crate::order::refs(all__, self.storage.seq()), it__.rest().len() <= all__.len(),
    forall|i: int| 0 <= i < it__.rest().len() ==> #[trigger] it__.rest()[i] == all__[all__.len() - it__.rest().len() + i],
    $v1.announced() == Some(self.count() as usize), $v1.length() == all__.len() - it__.rest().len(),
    forall|i: int| 0 <= i < $v1.length() ==> #[trigger] $v1.sent::<K, V>(i) == self.storage.seq()[i],
ensures it__.rest().len() == 0
decreases it__.rest().len()
@ fn <map::MapVisitor as Visitor>::visit_map
    ensures ({
        let a = $1.answers::<K, V>();
        match r {
            Ok(m) => m.wf() && exists|n: int| #[trigger] crate::serde::de::good(a, n) && n < a.len() && a[n] == Ok::<Option<(K, V)>, Access::Error>(None)
                && forall|k: K| #[trigger] m.at(k) == crate::latest(crate::serde::de::given(a), n, k),
            Err(e) => exists|n: int| #[trigger] crate::serde::de::good(a, n) && n < a.len() && a[n] == Err::<Option<(K, V)>, Access::Error>(e),
        }
    })
@ loop <map::MapVisitor as Visitor>::visit_map
invariant_except_break
    crate::serde::de::good($1.answers::<K, V>(), $1.answers::<K, V>().len() - $v1.answers::<K, V>().len()),
    forall|k: K| #[trigger] $v2.at(k) == crate::latest(crate::serde::de::given($1.answers::<K, V>()), $1.answers::<K, V>().len() - $v1.answers::<K, V>().len(), k),
invariant
    $v2.wf(),
    forall|i: int| 0 <= i < $v1.answers::<K, V>().len() ==> #[trigger] $v1.answers::<K, V>()[i]
        == $1.answers::<K, V>()[$1.answers::<K, V>().len() - $v1.answers::<K, V>().len() + i],
ensures
    $v1.answers::<K, V>().len() < $1.answers::<K, V>().len(),
    crate::serde::de::good($1.answers::<K, V>(), $1.answers::<K, V>().len() - $v1.answers::<K, V>().len() - 1),
    $1.answers::<K, V>()[$1.answers::<K, V>().len() - $v1.answers::<K, V>().len() - 1] == Ok::<Option<(K, V)>, Access::Error>(None),
    forall|k: K| #[trigger] $v2.at(k) == crate::latest(crate::serde::de::given($1.answers::<K, V>()), $1.answers::<K, V>().len() - $v1.answers::<K, V>().len() - 1, k),
decreases $v1.answers::<K, V>().len()
@ fn map::Map::new
    ensures r.wf(), r.count() == 0, forall|k: K| (#[trigger] r.at(k)).is_none()
@ fn map::Map::len
    requires self.wf(), self.count() <= usize::MAX
    ensures r == self.count()
@ fn map::Map::is_empty
    requires self.wf()
    ensures r == (self.count() == 0)
@ fn map::Map::insert
    requires old(self).wf()
    ensures final(self).wf(), r == old(self).at($1),
        forall|k: K| #[trigger] final(self).at(k) == (if k == $1 { Some($2) } else { old(self).at(k) }),
        final(self).count() + crate::one(old(self).at($1).is_some()) == old(self).count() + 1
@ fn map::Map::contains_key
    requires self.wf()
    ensures r == self.at($1).is_some()
@ fn map::Map::get
    requires self.wf()
    ensures r == (match self.at($1) { Some(v) => Some(&v), None => None })
@ fn map::Map::get_mut
    requires old(self).wf()
    ensures final(self).wf(), r.is_some() == old(self).at($1).is_some(),
        final(self).count() == old(self).count(),
        r matches Some(r) ==> Some(*r) == old(self).at($1)
            && forall|k: K| #[trigger] final(self).at(k) == (if k == $1 { Some(*final(r)) } else { old(self).at(k) }),
        r.is_none() ==> forall|k: K| #[trigger] final(self).at(k) == old(self).at(k)
@ fn map::Map::remove
    requires old(self).wf()
    ensures final(self).wf(), r == old(self).at($1),
        forall|k: K| #[trigger] final(self).at(k) == (if k == $1 { None } else { old(self).at(k) }),
        final(self).count() + crate::one(old(self).at($1).is_some()) == old(self).count()
@ fn map::Map::clear
    requires old(self).wf()
    ensures final(self).wf(), final(self).count() == 0, forall|k: K| (#[trigger] final(self).at(k)).is_none()
@ fn map::Map::retain
    requires old(self).wf(), forall|k: K, m: &mut V| $1.requires((k, m))
    ensures final(self).wf(), forall|k: K| match old(self).at(k) {
            Some(v) => crate::asked($1, k, v, #[trigger] final(self).at(k)),
            None => final(self).at(k).is_none(),
        }
@ fn map::Map::entry
    requires old(self).wf()
    ensures final(self).wf(), r.wf(), r.key_() == $1, r.val_() == old(self).at($1),
        forall|k: K| #[trigger] final(self).at(k) == (if k == $1 { r.fin_() } else { old(self).at(k) }),
        final(self).count() + crate::one(old(self).at($1).is_some())
            == old(self).count() + crate::one(r.fin_().is_some())

@ impl map::entry::Entry
    pub open spec fn wf(&self) -> bool { match self { Entry::Occupied(e) => e.wf(), Entry::Vacant(e) => e.wf() } }
    pub open spec fn key_(&self) -> K { match self { Entry::Occupied(e) => e.key_(), Entry::Vacant(e) => e.key_() } }
    pub open spec fn val_(&self) -> Option<V> { match self { Entry::Occupied(e) => Some(e.val_()), Entry::Vacant(e) => None } }
    #[verifier::prophetic]
    pub open spec fn fin_(&self) -> Option<V> { match self { Entry::Occupied(e) => e.fin_(), Entry::Vacant(e) => e.fin_() } }
@ fn map::entry::Entry::or_insert
    requires self.wf()
    ensures *r == (match self.val_() { Some(v) => v, None => $1 }), self.fin_() == Some(*final(r))
@ fn map::entry::Entry::or_insert_with
    requires self.wf(), self.val_().is_none() ==> $1.requires(())
    ensures self.fin_() == Some(*final(r)), match self.val_() { Some(v) => *r == v, None => $1.ensures((), *r) }
@ fn map::entry::Entry::or_insert_with_key
    requires self.wf(), self.val_().is_none() ==> $1.requires((self.key_(),))
    ensures self.fin_() == Some(*final(r)),
        match self.val_() { Some(v) => *r == v, None => $1.ensures((self.key_(),), *r) }
@ fn map::entry::Entry::key
    requires self.wf()
    ensures r == self.key_()
@ fn map::entry::Entry::and_modify
    requires self.wf(), forall|v: &mut V| #![auto] self.val_() == Some(*v) ==> $1.requires((v,))
    ensures r.wf(), r.key_() == self.key_(), r.fin_() == self.fin_(), r.val_().is_some() == self.val_().is_some()
@ fn map::entry::Entry::or_default
    requires self.wf(), self.val_().is_none() ==> call_requires(V::default, ())
    ensures self.fin_() == Some(*final(r)), match self.val_() { Some(v) => *r == v, None => call_ensures(V::default, (), *r) }

@ mod map
use crate::order::MapStorageSeq;
broadcast use crate::one_is;

@ mod map::entry
broadcast use crate::one_is;

@ mod map::storage::boolean
broadcast use crate::one_is;

@ mod map::storage::singleton
broadcast use crate::one_is;

@ mod map::storage::option
broadcast use crate::one_is;
