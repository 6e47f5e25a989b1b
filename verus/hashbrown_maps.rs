/// What is assumed of hashbrown: a finite map. Equality of keys is equality.
pub mod hashbrown {
use vstd::prelude::*;
use core::hash::Hash;
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { p: core::marker::PhantomData<(K, V)> }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn at(&self, k: K) -> Option<V>;
    pub uninterp spec fn count(&self) -> nat;
    #[verifier::external_body]
    pub proof fn lemma_count(&self)
        ensures self.count() == 0 <==> (forall|k: K| (#[trigger] self.at(k)).is_none())
    {}
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r.count() == 0, forall|k: K| (#[trigger] r.at(k)).is_none()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self.count()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn retain<F>(&mut self, f: F) where F: FnMut(&K, &mut V) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self.count() == 0)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self).count() == 0, forall|k: K| (#[trigger] final(self).at(k)).is_none()
    { unimplemented!() }
}
impl<K: Eq + Hash, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn insert(&mut self, key: K, value: V) -> (r: Option<V>)
        ensures r == old(self).at(key),
            forall|k: K| #[trigger] final(self).at(k) == (if k == key { Some(value) } else { old(self).at(k) }),
            final(self).count() + crate::one(old(self).at(key).is_some()) == old(self).count() + 1
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, key: &K) -> (r: bool)
        ensures r == self.at(*key).is_some()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, key: &K) -> (r: Option<&V>)
        ensures r == (match self.at(*key) { Some(v) => Some(&v), None => None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, key: &K) -> (r: Option<&mut V>)
        ensures r.is_some() == old(self).at(*key).is_some(), final(self).count() == old(self).count(),
            r matches Some(r) ==> Some(*r) == old(self).at(*key)
                && forall|k: K| #[trigger] final(self).at(k) == (if k == *key { Some(*final(r)) } else { old(self).at(k) }),
            r.is_none() ==> forall|k: K| #[trigger] final(self).at(k) == old(self).at(k)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, key: &K) -> (r: Option<V>)
        ensures r == old(self).at(*key),
            forall|k: K| #[trigger] final(self).at(k) == (if k == *key { None } else { old(self).at(k) }),
            final(self).count() + crate::one(old(self).at(*key).is_some()) == old(self).count()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<'a>(&'a mut self, key: K) -> (r: hash_map::Entry<'a, K, V, hash_map::DefaultHashBuilder>)
        ensures match r {
            hash_map::Entry::Occupied(e) => e.key_() == key && old(self).at(key) == Some(e.val_())
                && (forall|k: K| #[trigger] final(self).at(k) == (if k == key { e.fin_() } else { old(self).at(k) }))
                && final(self).count() + 1 == old(self).count() + crate::one(e.fin_().is_some()),
            hash_map::Entry::Vacant(e) => e.key_() == key && old(self).at(key).is_none()
                && (forall|k: K| #[trigger] final(self).at(k) == (if k == key { e.fin_() } else { old(self).at(k) }))
                && final(self).count() == old(self).count() + crate::one(e.fin_().is_some()),
        }
    { unimplemented!() }
}
pub mod hash_map {
use vstd::prelude::*;
use core::hash::Hash;
#[verifier::external_body]
pub struct DefaultHashBuilder { p: () }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(S)]
pub struct OccupiedEntry<'a, K, V, S> { p: core::marker::PhantomData<(&'a mut V, K, S)> }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(S)]
pub struct VacantEntry<'a, K, V, S> { p: core::marker::PhantomData<(&'a mut V, K, S)> }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(S)]
pub enum Entry<'a, K, V, S> { Occupied(OccupiedEntry<'a, K, V, S>), Vacant(VacantEntry<'a, K, V, S>) }
impl<'a, K, V, S> OccupiedEntry<'a, K, V, S> {
    pub uninterp spec fn key_(&self) -> K;
    pub uninterp spec fn val_(&self) -> V;
    #[verifier::prophetic]
    pub uninterp spec fn fin_(&self) -> Option<V>;
    #[verifier::external_body]
    pub fn key(&self) -> (r: &K) ensures *r == self.key_() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self) -> (r: &V) ensures *r == self.val_() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self) -> (r: &mut V)
        ensures *r == old(self).val_(), final(self).val_() == *final(r), final(self).key_() == old(self).key_(),
            final(self).fin_() == old(self).fin_()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_mut(self) -> (r: &'a mut V) ensures *r == self.val_(), self.fin_() == Some(*final(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, value: V) -> (r: V)
        ensures r == old(self).val_(), final(self).val_() == value, final(self).key_() == old(self).key_(),
            final(self).fin_() == old(self).fin_()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(self) -> (r: V) ensures r == self.val_(), self.fin_() == None::<V> { unimplemented!() }
}
impl<'a, K, V, S> VacantEntry<'a, K, V, S> {
    pub uninterp spec fn key_(&self) -> K;
    #[verifier::prophetic]
    pub uninterp spec fn fin_(&self) -> Option<V>;
    #[verifier::external_body]
    pub fn key(&self) -> (r: &K) ensures *r == self.key_() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(self, value: V) -> (r: &'a mut V) ensures *r == value, self.fin_() == Some(*final(r)) { unimplemented!() }
}
}
}
