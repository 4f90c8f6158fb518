@module serde_model
@when derived
@uses
use vstd::seq::Seq as VSeq;
use crate::prelude::*;
use std::io;
use std::path::PathBuf;
@top
/// What a value is in serde's data model, as far as JSON keeps it apart: structs are maps with
/// string keys in order, newtype variants are maps with one entry, paths are strings.
pub enum Val {
    Bool(bool),
    Int(int),
    Text(VSeq<char>),
    Path(VSeq<u8>),
    List(VSeq<Val>),
    Map(VSeq<(VSeq<char>, Val)>),
    Tagged(VSeq<char>, Box<Val>),
}

pub type Entries = VSeq<(VSeq<char>, Val)>;

/// paths must be text to be written
pub open spec fn plain(v: Val) -> bool
    decreases v,
{
    match v {
        Val::Path(b) => utf8(b),
        Val::List(s) => forall|i: int| 0 <= i < s.len() ==> plain(#[trigger] s[i]),
        Val::Map(s) => forall|i: int| 0 <= i < s.len() ==> plain((#[trigger] s[i]).1),
        Val::Tagged(_, b) => plain(*b),
        _ => true,
    }
}

pub proof fn lemma_plain(e: Entries, i: int)
    requires
        0 <= i < e.len(),
        !plain(e[i].1),
    ensures
        !plain(Val::Map(e)),
{
    let v = Val::Map(e);
    if plain(v) {
        let s = v->Map_0;
        assert(forall|j: int| 0 <= j < s.len() ==> plain((#[trigger] s[j]).1));
        assert(plain(s[i].1));
    }
}

pub trait Valued: Sized {
    spec fn val(&self) -> Val;
}

pub open spec fn is_one<T: Valued>(v: Val) -> bool {
    exists|w: T| w.val() == v
}

/// reading `v` gives a `T` of that value, unless the reading runs into a fault
pub open spec fn reads<T: Valued, E>(v: Val, faulty: bool, r: Result<T, E>) -> bool {
    is_one::<T>(v) ==> match r {
        Ok(t) => t.val() == v,
        Err(_) => faulty,
    }
}

/// ---------- writing ----------
pub trait Serialize: Valued {
    fn serialize<__S: Serializer>(&self, __serializer: __S) -> (r: Result<__S::Ok, __S::Error>)
        ensures
            match r {
                Ok(o) => __serializer.gives(self.val(), o),
                Err(_) => __serializer.faulty() || !plain(self.val()),
            },
    ;
}

pub trait Serializer: Sized {
    type Ok;

    type Error;

    type SerializeStruct: SerializeStruct<Ok = Self::Ok, Error = Self::Error>;

    spec fn gives(&self, v: Val, o: Self::Ok) -> bool;

    spec fn faulty(&self) -> bool;

    fn serialize_struct(self, name: &'static str, len: usize) -> (r: Result<Self::SerializeStruct, Self::Error>)
        ensures
            match r {
                Ok(s) => {
                    &&& s.fields() == Entries::empty()
                    &&& s.declared() == len
                    &&& s.faulty() == self.faulty()
                    &&& forall|v: Val, o: Self::Ok| #[trigger] s.will_give(v, o) == self.gives(v, o)
                },
                Err(_) => self.faulty(),
            },
    ;

    fn serialize_newtype_variant<T: Valued>(self, name: &'static str, index: u32, variant: &'static str, value: &T) -> (r: Result<Self::Ok, Self::Error>)
        ensures
            match r {
                Ok(o) => self.gives(Val::Tagged(variant@, Box::new(value.val())), o),
                Err(_) => self.faulty() || !plain(value.val()),
            },
    ;
}

pub trait SerializeStruct: Sized {
    type Ok;

    type Error;

    spec fn fields(&self) -> Entries;

    spec fn declared(&self) -> nat;

    spec fn faulty(&self) -> bool;

    spec fn will_give(&self, v: Val, o: Self::Ok) -> bool;

    fn serialize_field<T: Valued>(&mut self, key: &'static str, value: &T) -> (r: Result<(), Self::Error>)
        ensures
            final(self).declared() == old(self).declared(),
            final(self).faulty() == old(self).faulty(),
            r.is_ok() ==> final(self).fields() == old(self).fields().push((key@, value.val())),
            r.is_err() ==> old(self).faulty() || !plain(value.val()),
            forall|v: Val, o: Self::Ok| #[trigger] final(self).will_give(v, o) == old(self).will_give(v, o),
    ;

    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures
            match r {
                Ok(o) => self.declared() == self.fields().len() ==> self.will_give(Val::Map(self.fields()), o),
                Err(_) => self.faulty(),
            },
    ;
}

/// ---------- reading ----------
pub trait Error: Sized {
    fn duplicate_field(field: &'static str) -> Self;

    fn unknown_variant(variant: &str, expected: &'static [&'static str]) -> Self;
}

pub trait Deserialize<'de>: Valued {
    fn deserialize<__D: Deserializer<'de>>(__deserializer: __D) -> (r: Result<Self, __D::Error>)
        ensures
            reads(__deserializer.given(), __deserializer.faulty(), r),
    ;
}

pub trait Deserializer<'de>: Sized {
    type Error: Error;

    spec fn given(&self) -> Val;

    spec fn faulty(&self) -> bool;

    fn deserialize_struct<V: VisitMap<'de>>(self, name: &'static str, fields: &'static [&'static str], visitor: V) -> (r: Result<V::Value, Self::Error>)
        ensures
            reads(self.given(), self.faulty(), r),
    ;

    fn deserialize_identifier<V: VisitStr<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
        ensures
            reads(self.given(), self.faulty(), r),
    ;

    fn deserialize_enum<V: VisitEnum<'de>>(self, name: &'static str, variants: &'static [&'static str], visitor: V) -> (r: Result<V::Value, Self::Error>)
        ensures
            reads(self.given(), self.faulty(), r),
    ;
}

pub trait Visitor<'de>: Sized {
    type Value: Valued;
}

/// a key or the name of a variant
pub trait VisitStr<'de>: Visitor<'de> {
    fn visit_str<__E: Error>(self, __value: &str) -> (r: Result<Self::Value, __E>)
        ensures
            reads(Val::Text(__value@), false, r),
    ;
}

pub trait VisitMap<'de>: Visitor<'de> {
    fn visit_map<__A: MapAccess<'de>>(self, __map: __A) -> (r: Result<Self::Value, __A::Error>)
        requires
            __map.pending() is None,
        ensures
            reads(Val::Map(__map.left()), __map.faulty(), r),
    ;
}

pub trait VisitEnum<'de>: Visitor<'de> {
    fn visit_enum<__A: EnumAccess<'de>>(self, __data: __A) -> (r: Result<Self::Value, __A::Error>)
        ensures
            reads(Val::Tagged(__data.tag(), Box::new(__data.held())), __data.faulty(), r),
    ;
}

pub trait MapAccess<'de>: Sized {
    type Error: Error;

    spec fn left(&self) -> Entries;

    spec fn faulty(&self) -> bool;

    /// the value of the key read last, until it is read
    spec fn pending(&self) -> Option<Val>;

    fn next_key<K: Valued>(&mut self) -> (r: Result<Option<K>, Self::Error>)
        requires
            old(self).pending() is None,
        ensures
            final(self).faulty() == old(self).faulty(),
            match r {
                Ok(Some(k)) => {
                    &&& old(self).left().len() > 0
                    &&& final(self).left() == old(self).left().skip(1)
                    &&& final(self).pending() == Some(old(self).left()[0].1)
                    &&& is_one::<K>(Val::Text(old(self).left()[0].0)) ==> k.val() == Val::Text(old(self).left()[0].0)
                },
                Ok(None) => {
                    &&& old(self).left().len() == 0
                    &&& final(self).left() == old(self).left()
                    &&& final(self).pending() is None
                },
                Err(_) => {
                    old(self).left().len() == 0 || is_one::<K>(Val::Text(old(self).left()[0].0)) ==> old(self).faulty()
                },
            },
    ;

    fn next_value<V: Valued>(&mut self) -> (r: Result<V, Self::Error>)
        requires
            old(self).pending() is Some,
        ensures
            final(self).faulty() == old(self).faulty(),
            final(self).left() == old(self).left(),
            final(self).pending() is None,
            reads(old(self).pending().unwrap(), old(self).faulty(), r),
    ;
}

pub trait EnumAccess<'de>: Sized {
    type Error: Error;

    type Variant: VariantAccess<'de, Error = Self::Error>;

    spec fn tag(&self) -> VSeq<char>;

    spec fn held(&self) -> Val;

    spec fn faulty(&self) -> bool;

    fn variant<K: Valued>(self) -> (r: Result<(K, Self::Variant), Self::Error>)
        ensures
            match r {
                Ok((k, v)) => {
                    &&& v.given() == self.held()
                    &&& v.faulty() == self.faulty()
                    &&& is_one::<K>(Val::Text(self.tag())) ==> k.val() == Val::Text(self.tag())
                },
                Err(_) => is_one::<K>(Val::Text(self.tag())) ==> self.faulty(),
            },
    ;
}

pub trait VariantAccess<'de>: Sized {
    type Error: Error;

    spec fn given(&self) -> Val;

    spec fn faulty(&self) -> bool;

    fn newtype_variant<T: Valued>(self) -> (r: Result<T, Self::Error>)
        ensures
            reads(self.given(), self.faulty(), r),
    ;
}

#[verifier::external_body]
pub fn vx_missing_field<T, E: Error>(field: &'static str) -> Result<T, E> {
    unimplemented!()
}

pub struct IgnoredAny;

impl Valued for IgnoredAny {
    open spec fn val(&self) -> Val {
        Val::Bool(true)
    }
}

/// ---------- the types serde itself knows ----------
impl Valued for u8 {
    open spec fn val(&self) -> Val {
        Val::Int(*self as int)
    }
}

impl Valued for usize {
    open spec fn val(&self) -> Val {
        Val::Int(*self as int)
    }
}

impl Valued for bool {
    open spec fn val(&self) -> Val {
        Val::Bool(*self)
    }
}

impl Valued for String {
    open spec fn val(&self) -> Val {
        Val::Text(self@)
    }
}

impl Valued for PathBuf {
    open spec fn val(&self) -> Val {
        Val::Path(name_of_buf(*self))
    }
}

impl<A: Valued, B: Valued> Valued for (A, B) {
    open spec fn val(&self) -> Val {
        Val::List(seq![self.0.val(), self.1.val()])
    }
}

impl<T: Valued> Valued for Vec<T> {
    open spec fn val(&self) -> Val {
        Val::List(self@.map_values(|t: T| t.val()))
    }
}

impl<T: Valued> Valued for Box<[T]> {
    open spec fn val(&self) -> Val {
        Val::List(self@.map_values(|t: T| t.val()))
    }
}

pub proof fn lemma_same_list<T: Valued>(a: VSeq<T>, b: VSeq<T>)
    requires
        a.map_values(|t: T| t.val()) == b.map_values(|t: T| t.val()),
    ensures
        a.len() == b.len(),
        forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).val() == (#[trigger] b[i]).val(),
{
    let x = a.map_values(|t: T| t.val());
    let y = b.map_values(|t: T| t.val());
    assert(x.len() == a.len() && y.len() == b.len());
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).val() == (#[trigger] b[i]).val() by {
        assert(x[i] == a[i].val() && y[i] == b[i].val());
    }
}

pub proof fn lemma_pair(a: (u8, u8), b: (u8, u8))
    requires
        a.val() == b.val(),
    ensures
        a == b,
{
    let x = seq![a.0.val(), a.1.val()];
    let y = seq![b.0.val(), b.1.val()];
    assert(x == y);
    assert(x[0] == y[0] && x[1] == y[1]);
}

/// ---------- the paths the expansion names ----------
pub mod ser {
    pub use super::{Serialize, SerializeStruct, Serializer};
}

pub mod de {
    pub use super::{Deserialize, Deserializer, EnumAccess, Error, IgnoredAny, MapAccess, VariantAccess, VisitEnum, VisitMap, VisitStr, Visitor};
}

pub mod __private {
    pub use std::default::Default;
    pub use std::marker::PhantomData;
    pub use std::option::Option::{self, None, Some};
    pub use std::result::Result::{self, Err, Ok};

    pub mod de {
        pub use super::super::vx_missing_field as missing_field;
    }
}

/// ---------- serde_json ----------
/// the text is one that serde_json writes for the value
pub uninterp spec fn json_of(text: VSeq<u8>, v: Val) -> bool;

pub open spec fn json_written(before: VSeq<u8>, after: VSeq<u8>, v: Val) -> bool {
    before.len() <= after.len() && after.take(before.len() as int) == before && json_of(after.skip(before.len() as int), v)
}

pub broadcast proof fn lemma_all_of_it(text: VSeq<u8>, n: int, v: Val)
    requires
        n == 0,
    ensures
        #[trigger] json_of(text.skip(n), v) ==> json_of(text, v),
{
    assert(text.skip(0) =~= text);
}

/// what reading a text gives: the value some diff was written as, unless the reading fails
pub open spec fn json_read<T: Valued, E>(text: VSeq<u8>, faulty: bool, r: Result<T, E>) -> bool {
    forall|v: Val| #[trigger] json_of(text, v) && is_one::<T>(v) ==> match r {
        Ok(t) => t.val() == v,
        Err(_) => faulty,
    }
}

pub mod serde_json {
    use super::*;
    use vstd::prelude::*;

    #[verifier::external_body]
    pub struct Error {
        e: u8,
    }

    #[verifier::external_body]
    pub fn to_writer_pretty<W: io::Write, T: Serialize>(writer: &mut W, value: &T) -> (r: Result<(), Error>)
        ensures
            (*final(writer)).sink() == (*old(writer)).sink(),
            match r {
                Ok(_) => json_written((*old(writer)).written(), (*final(writer)).written(), value.val()),
                Err(_) => sink_faulty((*old(writer)).sink()) || !plain(value.val()),
            },
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn to_writer<W: io::Write, T: Serialize>(writer: &mut W, value: &T) -> (r: Result<(), Error>)
        ensures
            (*final(writer)).sink() == (*old(writer)).sink(),
            match r {
                Ok(_) => json_written((*old(writer)).written(), (*final(writer)).written(), value.val()),
                Err(_) => sink_faulty((*old(writer)).sink()) || !plain(value.val()),
            },
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn from_reader<R: io::Read, T: for<'de> Deserialize<'de>>(rdr: &mut R) -> (r: Result<T, Error>)
        ensures
            json_read((*old(rdr)).rest(), (*old(rdr)).faulty(), r),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn from_slice<T: for<'de> Deserialize<'de>>(v: &[u8]) -> (r: Result<T, Error>)
        ensures
            json_read(v@, false, r),
    {
        unimplemented!()
    }
}
