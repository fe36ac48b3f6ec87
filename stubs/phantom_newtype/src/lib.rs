//! Stand-in for dfinity/ic's `phantom_newtype` (only what evm_minter uses).
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;

pub struct Id<Entity, Repr>(Repr, PhantomData<std::sync::Mutex<Entity>>);

impl<Entity, Repr> Id<Entity, Repr> {
    pub const fn new(repr: Repr) -> Self {
        Self(repr, PhantomData)
    }
    pub const fn get_ref(&self) -> &Repr {
        &self.0
    }
}
impl<Entity, Repr: Copy> Id<Entity, Repr> {
    pub const fn get(&self) -> Repr {
        self.0
    }
}
impl<E, R: Copy> Copy for Id<E, R> {}
impl<E, R: Clone> Clone for Id<E, R> {
    fn clone(&self) -> Self {
        Self(self.0.clone(), PhantomData)
    }
}
impl<E, R: PartialEq> PartialEq for Id<E, R> {
    fn eq(&self, rhs: &Self) -> bool {
        self.0 == rhs.0
    }
}
impl<E, R: Eq> Eq for Id<E, R> {}
impl<E, R: PartialOrd> PartialOrd for Id<E, R> {
    fn partial_cmp(&self, rhs: &Self) -> Option<Ordering> {
        self.0.partial_cmp(&rhs.0)
    }
}
impl<E, R: Ord> Ord for Id<E, R> {
    fn cmp(&self, rhs: &Self) -> Ordering {
        self.0.cmp(&rhs.0)
    }
}
impl<E, R: Hash> Hash for Id<E, R> {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.0.hash(state)
    }
}
impl<E, R: fmt::Debug> fmt::Debug for Id<E, R> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl<E, R: fmt::Display> fmt::Display for Id<E, R> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<E, R> From<R> for Id<E, R> {
    fn from(r: R) -> Self {
        Self::new(r)
    }
}
impl<E, R: Serialize> Serialize for Id<E, R> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.serialize(s)
    }
}
impl<'de, E, R: Deserialize<'de>> Deserialize<'de> for Id<E, R> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        R::deserialize(d).map(Id::new)
    }
}
impl<E, R: candid::CandidType> candid::CandidType for Id<E, R> {
    fn _ty() -> candid::types::Type {
        R::_ty()
    }
    fn idl_serialize<S: candid::types::Serializer>(&self, s: S) -> Result<(), S::Error> {
        self.0.idl_serialize(s)
    }
}
impl<E, R> AsRef<R> for Id<E, R> {
    fn as_ref(&self) -> &R {
        &self.0
    }
}
