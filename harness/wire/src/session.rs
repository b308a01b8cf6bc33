use rac::{Array, Concat, generic_array::typenum::{U0, U1, U7, U16, U32, U33, U96, U129}};
use std::fmt;
use vru_session::handshake::{xx, Identity, PublicKey, SecretKey, TrivialCipher, TrivialRotor, TrivialUnidirectional};
type P = Array<U16>;
type A32 = Array<U32>;
type Bytes = xx::Message0;

pub fn gen(seed: &Array<U96>) -> (PublicKey, SecretKey) { PublicKey::gen(seed) }
pub fn identity(pk: &PublicKey) -> Identity { pk.identity() }
pub fn compress(pk: &PublicKey) -> Bytes { pk.compress() }
pub fn elliptic(pk: &PublicKey) -> A32 { pk.elliptic() }
pub fn lattice(pk: &PublicKey) -> Array<<U32 as std::ops::Mul<rac::generic_array::typenum::U34>>::Output> { pk.lattice() }
pub fn lattice_hash(pk: &PublicKey) -> A32 { pk.lattice_hash() }
pub fn decompress(b: Bytes) -> PublicKey { PublicKey::decompress(b) }
pub fn try_decompress(b: Bytes) -> Result<PublicKey, ()> { PublicKey::try_decompress(b) }
pub fn dup(pk: &PublicKey) -> PublicKey { pk.clone() }
pub fn dup_secret(sk: &SecretKey) -> SecretKey { sk.clone() }
pub fn dh(pk: &PublicKey, sk: &SecretKey) -> A32 { pk.dh(sk) }
pub fn serialize(pk: &PublicKey) -> Option<Vec<u8>> {
    let mut t = tape::Out { bytes: Vec::new() };
    match serde::Serialize::serialize(pk, &mut t) { Ok(()) => Some(t.bytes), Err(_) => None }
}
pub fn deserialize(b: &[u8]) -> Option<PublicKey> {
    let mut t = tape::In { bytes: b, at: 0 };
    match serde::Deserialize::deserialize(&mut t) { Ok(k) => Some(k), Err(_) => None }
}
pub fn show(i: &Identity, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(i, f) }
pub fn parse(s: &str) -> Option<Identity> { <Identity as std::str::FromStr>::from_str(s).ok() }
pub fn same(a: &Identity, b: &Identity) -> bool { a == b }
pub fn identity_bytes(i: &Identity) -> Vec<u8> { i.as_ref().to_vec() }

pub fn out0(seed: &Array<U96>, peer: &Identity) -> (xx::InitiatorsEphemeral, xx::Message0) { xx::out0(seed, peer) }
macro_rules! steps { ($p:ty, $q:ty, $r:ty, $s:ty, $f0:ident, $f1:ident, $f2:ident, $f3:ident) => {
pub fn $f0(seed: &Concat<Array<U96>, A32>, s_pi: &Identity, s_pk: &PublicKey, s_sk: &SecretKey, m: xx::Message0, p: $p) -> (xx::RespondersEphemeral, xx::Message1<$p>) { xx::take0_out1(seed, s_pi, s_pk, s_sk, m, p) }
pub fn $f1(seed: &Concat<A32, A32>, st: xx::InitiatorsEphemeral, s_pk: &PublicKey, s_sk: &SecretKey, m: xx::Message1<$p>, q: $q, r: $r) -> Result<(xx::InitiatorsFinal, PublicKey, $p, xx::Message2<$q, $r>), xx::InitiatorsError> { xx::take1_out2(seed, st, s_pk, s_sk, m, q, r) }
pub fn $f2(seed: &A32, st: xx::RespondersEphemeral, s_pk: &PublicKey, s_sk: &SecretKey, m: xx::Message2<$q, $r>, s: $s) -> Result<(TrivialCipher, A32, PublicKey, $q, $r, xx::Message3<$s>), xx::RespondersError> { xx::take2_out3::<$q, $r, $s, TrivialRotor>(seed, st, s_pk, s_sk, m, s) }
pub fn $f3(st: xx::InitiatorsFinal, s_pk: &PublicKey, s_sk: &SecretKey, m: xx::Message3<$s>) -> Result<(TrivialCipher, A32, $s), xx::InitiatorsError> { xx::take_3::<$s, TrivialRotor>(st, s_pk, s_sk, m) }
} }
steps!(P, P, P, P, take0_out1, take1_out2, take2_out3, take_3);
steps!(Array<U0>, Array<U0>, Array<U0>, Array<U0>, take0_out1_none, take1_out2_none, take2_out3_none, take_3_none);
steps!(Array<U1>, Array<U33>, Array<U7>, Array<U129>, take0_out1_odd, take1_out2_odd, take2_out3_odd, take_3_odd);

pub fn d_enc(u: &mut TrivialUnidirectional, ad: &[u8], data: &mut [u8]) -> vru_noise::Tag<vru_noise_config::C> { u.encrypt(ad, data) }
pub fn d_dec(u: &mut TrivialUnidirectional, ad: &[u8], data: &mut [u8], tag: &vru_noise::Tag<vru_noise_config::C>) -> bool { u.decrypt(ad, data, tag).is_ok() }
pub fn c_send(c: TrivialCipher) -> TrivialUnidirectional { c.send }
pub fn c_receive(c: TrivialCipher) -> TrivialUnidirectional { c.receive }
mod vru_noise_config { pub type C = (sha3::Sha3_256, byteorder::LittleEndian, chacha20poly1305::ChaCha20Poly1305); }

/// a format that is a plain sequence of bytes
pub mod tape {
    use serde::{de, ser};
    use std::fmt;
    pub struct Out { pub bytes: Vec<u8> }
    pub struct In<'a> { pub bytes: &'a [u8], pub at: usize }
    #[derive(Debug)]
    pub struct Bad;
    impl fmt::Display for Bad { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
    impl std::error::Error for Bad {}
    impl ser::Error for Bad { fn custom<T: fmt::Display>(_: T) -> Self { Bad } }
    impl de::Error for Bad { fn custom<T: fmt::Display>(_: T) -> Self { Bad } fn invalid_length(_: usize, _: &dyn de::Expected) -> Self { Bad } }
    type R = Result<(), Bad>;
    macro_rules! nope { ($($f:ident: $t:ty),*) => { $(fn $f(self, _: $t) -> R { Err(Bad) })* } }
    impl<'a> ser::Serializer for &'a mut Out {
        type Ok = (); type Error = Bad;
        type SerializeSeq = Self; type SerializeTuple = Self; type SerializeTupleStruct = Self; type SerializeTupleVariant = ser::Impossible<(), Bad>;
        type SerializeMap = ser::Impossible<(), Bad>; type SerializeStruct = Self; type SerializeStructVariant = ser::Impossible<(), Bad>;
        nope!(serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64, serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_f32: f32, serialize_f64: f64, serialize_char: char, serialize_str: &str);
        fn serialize_u8(self, v: u8) -> R { self.bytes.push(v); Ok(()) }
        fn serialize_bytes(self, v: &[u8]) -> R { self.bytes.extend_from_slice(v); Ok(()) }
        fn serialize_none(self) -> R { Err(Bad) }
        fn serialize_some<T: ?Sized + ser::Serialize>(self, v: &T) -> R { v.serialize(self) }
        fn serialize_unit(self) -> R { Ok(()) }
        fn serialize_unit_struct(self, _: &'static str) -> R { Ok(()) }
        fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> R { Err(Bad) }
        fn serialize_newtype_struct<T: ?Sized + ser::Serialize>(self, _: &'static str, v: &T) -> R { v.serialize(self) }
        fn serialize_newtype_variant<T: ?Sized + ser::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> R { Err(Bad) }
        fn serialize_seq(self, _: Option<usize>) -> Result<Self, Bad> { Ok(self) }
        fn serialize_tuple(self, _: usize) -> Result<Self, Bad> { Ok(self) }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, Bad> { Ok(self) }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Bad> { Err(Bad) }
        fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Bad> { Err(Bad) }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, Bad> { Ok(self) }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Bad> { Err(Bad) }
        fn is_human_readable(&self) -> bool { false }
    }
    macro_rules! elements { ($($t:ident $f:ident),*) => { $(impl<'a> ser::$t for &'a mut Out {
        type Ok = (); type Error = Bad;
        fn $f<T: ?Sized + ser::Serialize>(&mut self, v: &T) -> R { v.serialize(&mut **self) }
        fn end(self) -> R { Ok(()) }
    })* } }
    elements!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field);
    impl<'a> ser::SerializeStruct for &'a mut Out {
        type Ok = (); type Error = Bad;
        fn serialize_field<T: ?Sized + ser::Serialize>(&mut self, _: &'static str, v: &T) -> R { v.serialize(&mut **self) }
        fn end(self) -> R { Ok(()) }
    }
    pub struct Items<'b, 'a> { t: &'b mut In<'a>, left: usize }
    impl<'de, 'b, 'a> de::SeqAccess<'de> for Items<'b, 'a> {
        type Error = Bad;
        fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Bad> {
            if self.left == 0 { return Ok(None) }
            self.left -= 1;
            match seed.deserialize(&mut *self.t) { Ok(v) => Ok(Some(v)), Err(e) => Err(e) }
        }
        fn size_hint(&self) -> Option<usize> { Some(self.left) }
    }
    macro_rules! refuse { ($($f:ident),*) => { $(fn $f<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, Bad> { Err(Bad) })* } }
    impl<'de, 'b, 'a> de::Deserializer<'de> for &'b mut In<'a> {
        type Error = Bad;
        refuse!(deserialize_any, deserialize_bool, deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64, deserialize_u16, deserialize_u32, deserialize_u64, deserialize_f32, deserialize_f64, deserialize_char, deserialize_str, deserialize_string, deserialize_option, deserialize_map, deserialize_identifier, deserialize_ignored_any, deserialize_bytes, deserialize_byte_buf, deserialize_seq);
        fn deserialize_u8<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> { if self.at >= self.bytes.len() { return Err(Bad) } let x = self.bytes[self.at]; self.at += 1; v.visit_u8(x) }
        fn deserialize_unit<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> { v.visit_unit() }
        fn deserialize_unit_struct<V: de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Bad> { v.visit_unit() }
        fn deserialize_newtype_struct<V: de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Bad> { v.visit_newtype_struct(self) }
        fn deserialize_tuple<V: de::Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, Bad> { v.visit_seq(Items { t: self, left: n }) }
        fn deserialize_tuple_struct<V: de::Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, Bad> { v.visit_seq(Items { t: self, left: n }) }
        fn deserialize_struct<V: de::Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, Bad> { v.visit_seq(Items { t: self, left: f.len() }) }
        fn deserialize_enum<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, Bad> { Err(Bad) }
        fn is_human_readable(&self) -> bool { false }
    }
}
