//! Stand-in: YAML dumps of trees are outside what is checked.  Everything fails at run time.
use serde::ser::{self, Impossible};
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("unsupported") } }
impl std::error::Error for Error {}
impl ser::Error for Error { fn custom<T: std::fmt::Display>(_: T) -> Self { Error } }
impl serde::de::Error for Error { fn custom<T: std::fmt::Display>(_: T) -> Self { Error } }
pub struct Serializer<W>(W);
impl<W> Serializer<W> { pub fn new(w: W) -> Self { Serializer(w) } }
macro_rules! e { ($($n:ident($($t:ty),*);)*) => { $( fn $n(self, $(_: $t),*) -> Result<(), Error> { Err(Error) } )* } }
impl<W> ser::Serializer for &mut Serializer<W> {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Impossible<(), Error>;
    type SerializeTuple = Impossible<(), Error>;
    type SerializeTupleStruct = Impossible<(), Error>;
    type SerializeTupleVariant = Impossible<(), Error>;
    type SerializeMap = Impossible<(), Error>;
    type SerializeStruct = Impossible<(), Error>;
    type SerializeStructVariant = Impossible<(), Error>;
    e! { serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64); serialize_u8(u8); serialize_u16(u16);
        serialize_u32(u32); serialize_u64(u64); serialize_f32(f32); serialize_f64(f64); serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]);
        serialize_none(); serialize_unit(); serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str); }
    fn serialize_some<T: ?Sized + ser::Serialize>(self, _: &T) -> Result<(), Error> { Err(Error) }
    fn serialize_newtype_struct<T: ?Sized + ser::Serialize>(self, _: &'static str, _: &T) -> Result<(), Error> { Err(Error) }
    fn serialize_newtype_variant<T: ?Sized + ser::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Error> { Err(Error) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Error> { Err(Error) }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Error> { Err(Error) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Error> { Err(Error) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Error> { Err(Error) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Error> { Err(Error) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Error> { Err(Error) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Error> { Err(Error) }
}
pub fn from_str<T: serde::de::DeserializeOwned>(_: &str) -> Result<T, Error> { Err(Error) }
pub fn to_string<T: ?Sized + ser::Serialize>(_: &T) -> Result<String, Error> { Err(Error) }
pub mod with {
    pub mod singleton_map {
        pub struct SingletonMap;
        impl SingletonMap { #[allow(clippy::new_ret_no_self)] pub fn new<D>(d: D) -> D { d } }
    }
}
