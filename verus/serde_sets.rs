/// serde, as far as sets use it.
pub mod serde {
pub use self::ser::{Serialize, Serializer};
pub use self::de::Deserialize;
pub mod de {
use vstd::prelude::*;
pub trait Deserialize<'de>: Sized {}
pub trait SeqAccess<'de>: Sized {
    type Error;
    /// What it is going to answer.
    spec fn answers<T>(&self) -> Seq<Result<Option<T>, Self::Error>>;
    fn next_element<T>(&mut self) -> (r: Result<Option<T>, Self::Error>)
        where T: Deserialize<'de>
        ensures old(self).answers::<T>().len() == final(self).answers::<T>().len() + 1,
            r == old(self).answers::<T>()[0],
            forall|i: int| 0 <= i < final(self).answers::<T>().len() ==>
                #[trigger] final(self).answers::<T>()[i] == old(self).answers::<T>()[i + 1];
}
/// The first n answers are elements.
pub open spec fn good<T, E>(a: Seq<Result<Option<T>, E>>, n: int) -> bool {
    0 <= n <= a.len() && forall|i: int| 0 <= i < n ==> #[trigger] a[i] == Ok::<Option<T>, E>(Some(a[i]->Ok_0->Some_0))
}
pub open spec fn given<T, E>(a: Seq<Result<Option<T>, E>>) -> Seq<T> {
    Seq::new(a.len(), |i: int| a[i]->Ok_0->Some_0)
}
pub trait Visitor<'de>: Sized {
    type Value;
    fn visit_seq<Access>(self, access: Access) -> Result<Self::Value, Access::Error>
        where Access: SeqAccess<'de>;
}
}
pub mod ser {
use vstd::prelude::*;
pub trait Serialize {
    spec fn able(&self) -> bool;
    /// What it may send.
    spec fn sends<M: SerializeSeq>(&self, m: M) -> bool;
    fn serialize<Serde>(&self, serializer: Serde) -> (r: Result<Serde::Ok, Serde::Error>)
        where Serde: Serializer
        requires self.able()
        ensures r.is_ok() ==> exists|m: Serde::SerializeSeq| #[trigger] m.ended() == r && self.sends(m);
}
pub trait Serializer: Sized {
    type Ok;
    type Error;
    type SerializeSeq: SerializeSeq<Ok = Self::Ok, Error = Self::Error>;
    fn serialize_seq(self, len: Option<usize>) -> (r: Result<Self::SerializeSeq, Self::Error>)
        ensures r matches Ok(m) ==> m.announced() == len && m.length() == 0;
}
pub trait SerializeSeq: Sized {
    type Ok;
    type Error;
    spec fn announced(&self) -> Option<usize>;
    spec fn length(&self) -> int;
    /// The element sent as the nth.
    spec fn sent<T>(&self, n: int) -> T;
    spec fn ended(self) -> Result<Self::Ok, Self::Error>;
    fn serialize_element<T>(&mut self, value: &T) -> (r: Result<(), Self::Error>)
        ensures r.is_ok() ==> final(self).announced() == old(self).announced() && final(self).length() == old(self).length() + 1
            && final(self).sent::<T>(old(self).length()) == *value
            && forall|i: int| i != old(self).length() ==> #[trigger] final(self).sent::<T>(i) == old(self).sent::<T>(i);
    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures r == self.ended();
}
}
}
