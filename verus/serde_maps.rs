/// serde, as far as maps use it.
pub mod serde {
pub use self::ser::{Serialize, Serializer};
pub use self::de::Deserialize;
pub mod de {
use vstd::prelude::*;
pub trait Deserialize<'de>: Sized {}
pub trait MapAccess<'de>: Sized {
    type Error;
    /// What it is going to answer.
    spec fn answers<K, V>(&self) -> Seq<Result<Option<(K, V)>, Self::Error>>;
    fn next_entry<K, V>(&mut self) -> (r: Result<Option<(K, V)>, Self::Error>)
        where K: Deserialize<'de>, V: Deserialize<'de>
        ensures old(self).answers::<K, V>().len() == final(self).answers::<K, V>().len() + 1,
            r == old(self).answers::<K, V>()[0],
            forall|i: int| 0 <= i < final(self).answers::<K, V>().len() ==>
                #[trigger] final(self).answers::<K, V>()[i] == old(self).answers::<K, V>()[i + 1];
}
/// The first n answers are entries.
pub open spec fn good<T, E>(a: Seq<Result<Option<T>, E>>, n: int) -> bool {
    0 <= n <= a.len() && forall|i: int| 0 <= i < n ==> #[trigger] a[i] == Ok::<Option<T>, E>(Some(a[i]->Ok_0->Some_0))
}
pub open spec fn given<T, E>(a: Seq<Result<Option<T>, E>>) -> Seq<T> {
    Seq::new(a.len(), |i: int| a[i]->Ok_0->Some_0)
}
pub trait Visitor<'de>: Sized {
    type Value;
    fn visit_map<Access>(self, access: Access) -> Result<Self::Value, Access::Error>
        where Access: MapAccess<'de>;
}
}
pub mod ser {
use vstd::prelude::*;
pub trait Serialize {
    spec fn able(&self) -> bool;
    /// What it may send.
    spec fn sends<M: SerializeMap>(&self, m: M) -> bool;
    fn serialize<Serde>(&self, serializer: Serde) -> (r: Result<Serde::Ok, Serde::Error>)
        where Serde: Serializer
        requires self.able()
        ensures r.is_ok() ==> exists|m: Serde::SerializeMap| #[trigger] m.ended() == r && self.sends(m);
}
pub trait Serializer: Sized {
    type Ok;
    type Error;
    type SerializeMap: SerializeMap<Ok = Self::Ok, Error = Self::Error>;
    fn serialize_map(self, len: Option<usize>) -> (r: Result<Self::SerializeMap, Self::Error>)
        ensures r matches Ok(m) ==> m.announced() == len && m.length() == 0;
}
pub trait SerializeMap: Sized {
    type Ok;
    type Error;
    spec fn announced(&self) -> Option<usize>;
    spec fn length(&self) -> int;
    /// The entry sent as the nth.
    spec fn sent<K, V>(&self, n: int) -> (K, V);
    spec fn ended(self) -> Result<Self::Ok, Self::Error>;
    fn serialize_entry<K, V>(&mut self, key: &K, value: &V) -> (r: Result<(), Self::Error>)
        ensures r.is_ok() ==> final(self).announced() == old(self).announced() && final(self).length() == old(self).length() + 1
            && final(self).sent::<K, V>(old(self).length()) == (*key, *value)
            && forall|i: int| i != old(self).length() ==> #[trigger] final(self).sent::<K, V>(i) == old(self).sent::<K, V>(i);
    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures r == self.ended();
}
}
}
