/// The iterator traits of std, with the contracts the documentation of std gives them.
pub mod it {
use vstd::prelude::*;
pub open spec fn hint(r: (usize, Option<usize>), n: nat) -> bool {
    r.0 <= n && (r.1 matches Some(m) ==> n <= m)
}
pub trait Iterator: Sized {
    type Item;
    spec fn iwf(&self) -> bool;
    /// What is still to come.
    spec fn rest(&self) -> Seq<Self::Item>;
    /// Mutable references are the same when they have the same value now and in the end.
    #[verifier::prophetic]
    spec fn same(a: Self::Item, b: Self::Item) -> bool;
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).iwf()
        ensures final(self).iwf(), match r {
            None => old(self).rest().len() == 0 && final(self).rest().len() == 0,
            Some(x) => old(self).rest().len() == final(self).rest().len() + 1 && Self::same(x, old(self).rest()[0])
                && forall|i: int| 0 <= i < final(self).rest().len() ==> #[trigger] final(self).rest()[i] == old(self).rest()[i + 1],
        };
    fn size_hint(&self) -> (r: (usize, Option<usize>))
        requires self.iwf()
        ensures hint(r, self.rest().len())
    { (0, None) }
}
pub trait DoubleEndedIterator: Iterator {
    fn next_back(&mut self) -> (r: Option<Self::Item>)
        requires old(self).iwf()
        ensures final(self).iwf(), match r {
            None => old(self).rest().len() == 0 && final(self).rest().len() == 0,
            Some(x) => old(self).rest().len() == final(self).rest().len() + 1
                && Self::same(x, old(self).rest()[final(self).rest().len() as int])
                && forall|i: int| 0 <= i < final(self).rest().len() ==> #[trigger] final(self).rest()[i] == old(self).rest()[i],
        };
}
pub trait ExactSizeIterator: Iterator {
    fn len(&self) -> (r: usize)
        requires self.iwf()
        ensures r == self.rest().len();
}
pub trait IntoIterator: Sized {
    type Item;
    type IntoIter: Iterator<Item = Self::Item>;
    spec fn ready(&self) -> bool;
    /// Whether its items are the same only when they are equal.
    spec fn exact() -> bool;
    /// Whether this may be what it will yield.
    #[verifier::prophetic]
    spec fn comes(&self, items: Seq<Self::Item>) -> bool;
    fn into_iter(self) -> (r: Self::IntoIter)
        requires self.ready()
        ensures r.iwf(), self.comes(r.rest()),
            Self::exact() ==> forall|a: Self::Item, b: Self::Item| #[trigger] Self::IntoIter::same(a, b) ==> a == b;
}
pub trait FromIterator<A>: Sized {
    /// What may be made of a sequence of items.
    spec fn made(items: Seq<A>, r: Self) -> bool;
    fn from_iter<Items>(iter: Items) -> (r: Self)
        where Items: IntoIterator<Item = A>
        requires iter.ready(), Items::exact()
        ensures exists|items: Seq<A>| #[trigger] iter.comes(items) && Self::made(items, r);
}
pub trait From<A>: Sized {
    /// What may be made of a value.
    spec fn becomes(a: A, r: Self) -> bool;
    fn from(value: A) -> (r: Self)
        ensures Self::becomes(value, r);
}
// An array yields its elements, in order: assumed of std.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ArrayIter<T> { t: core::marker::PhantomData<T> }
impl<T> Iterator for ArrayIter<T> {
    type Item = T;
    uninterp spec fn iwf(&self) -> bool;
    uninterp spec fn rest(&self) -> Seq<T>;
    open spec fn same(a: T, b: T) -> bool { a == b }
    #[verifier::external_body]
    fn next(&mut self) -> Option<T> { unimplemented!() }
    #[verifier::external_body]
    fn size_hint(&self) -> (usize, Option<usize>) { unimplemented!() }
}
impl<T, const N: usize> IntoIterator for [T; N] {
    type Item = T;
    type IntoIter = ArrayIter<T>;
    open spec fn ready(&self) -> bool { true }
    open spec fn exact() -> bool { true }
    open spec fn comes(&self, items: Seq<T>) -> bool { items == self@ }
    #[verifier::external_body]
    fn into_iter(self) -> ArrayIter<T> { unimplemented!() }
}
}
