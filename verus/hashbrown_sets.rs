/// What is assumed of hashbrown: a finite set. Equality of keys is equality.
pub mod hashbrown {
use vstd::prelude::*;
use core::hash::Hash;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { p: core::marker::PhantomData<T> }
impl<T> HashSet<T> {
    pub uninterp spec fn has(&self, k: T) -> bool;
    pub uninterp spec fn count(&self) -> nat;
    #[verifier::external_body]
    pub proof fn lemma_count(&self)
        ensures self.count() == 0 <==> (forall|k: T| !#[trigger] self.has(k))
    {}
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r.count() == 0, forall|k: T| !#[trigger] r.has(k)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self.count()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn retain<F>(&mut self, f: F) where F: FnMut(&T) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self.count() == 0)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self).count() == 0, forall|k: T| !#[trigger] final(self).has(k)
    { unimplemented!() }
}
impl<T: Eq + Hash> HashSet<T> {
    #[verifier::external_body]
    pub fn insert(&mut self, value: T) -> (r: bool)
        ensures r == !old(self).has(value),
            forall|k: T| #[trigger] final(self).has(k) == (k == value || old(self).has(k)),
            final(self).count() + crate::one(old(self).has(value)) == old(self).count() + 1
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, value: &T) -> (r: bool)
        ensures r == self.has(*value)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, value: &T) -> (r: bool)
        ensures r == old(self).has(*value),
            forall|k: T| #[trigger] final(self).has(k) == (k != *value && old(self).has(k)),
            final(self).count() + crate::one(old(self).has(*value)) == old(self).count()
    { unimplemented!() }
}
}
