//! The traits and composites of the local rac crate.
use crate::session::tape;
use curve25519_dalek::{edwards::EdwardsPoint, scalar::Scalar as S25519};
use digest::{FixedOutput, Update};
use rac_local::{generic_array::typenum::{U0, U1000, U3, U32, U33, U64, U5, U9, U20, U21, U28, U48}, Array, Concat, Curve, Line, LineLike, LineValid, Scalar, Schnorr, Signature};

type A0 = Array<U0>;
type A3 = Array<U3>;
type A5 = Array<U5>;
type A9 = Array<U9>;

macro_rules! checked { ($m:ident, $t:ty) => { pub mod $m { use super::*;
    pub fn make(x: $t) -> $t { x }
    pub fn enc(x: &$t) -> Array<<$t as LineValid>::Length> { x.clone_line() }
    pub fn dec(b: &Array<<$t as LineValid>::Length>) -> Result<$t, ()> { <$t>::try_clone_array(b) }
} } }
macro_rules! pair { ($m:ident, $u:ty, $v:ty) => { pub mod $m { use super::*;
    type T = Concat<$u, $v>;
    pub fn make(u: $u, v: $v) -> T { Concat(u, v) }
    pub fn enc(x: &T) -> Array<<T as LineValid>::Length> { x.clone_line() }
    pub fn dec(b: &Array<<T as LineValid>::Length>) -> Result<T, ()> { T::try_clone_array(b) }
    pub fn enc_u(x: &$u) -> Array<<$u as LineValid>::Length> { x.clone_line() }
    pub fn enc_v(x: &$v) -> Array<<$v as LineValid>::Length> { x.clone_line() }
    pub fn dec_u(b: &Array<<$u as LineValid>::Length>) -> Result<$u, ()> { <$u>::try_clone_array(b) }
    pub fn dec_v(b: &Array<<$v as LineValid>::Length>) -> Result<$v, ()> { <$v>::try_clone_array(b) }
    pub fn first(x: &T) -> &$u { x.as_ref_u() }
    pub fn second(x: &T) -> &$v { x.as_ref_v() }
} } }
macro_rules! total { ($m:ident, $t:ty) => { pub mod $m { use super::*;
    pub fn make(x: $t) -> $t { x }
    pub fn enc(x: &$t) -> Array<<$t as LineValid>::Length> { x.clone_line() }
    pub fn dec(b: &Array<<$t as LineValid>::Length>) -> Result<$t, ()> { <$t>::try_clone_array(b) }
    pub fn clo(b: &Array<<$t as LineValid>::Length>) -> $t { <$t>::clone_array(b) }
    pub fn dup(x: $t) -> $t { let LineLike(y) = LineLike(x).clone(); y }
    pub fn ser(x: $t) -> Option<Vec<u8>> { put(&LineLike(x)) }
    pub fn de(b: &[u8]) -> Option<$t> { get::<LineLike<$t>>(b).map(|LineLike(x)| x) }
} } }
macro_rules! fields { ($m:ident, $t:ty) => { pub mod $m { use super::*;
    pub fn make(x: $t) -> $t { x }
    pub fn ser(x: &$t) -> Option<Vec<u8>> { put(x) }
    pub fn de(b: &[u8]) -> Option<$t> { get::<$t>(b) }
} } }
fn put<T: serde::Serialize>(x: &T) -> Option<Vec<u8>> {
    let mut t = tape::Out { bytes: Vec::new() };
    match x.serialize(&mut t) { Ok(()) => Some(t.bytes), Err(_) => None }
}
fn get<'de, T: serde::Deserialize<'de>>(b: &'de [u8]) -> Option<T> {
    let mut t = tape::In { bytes: b, at: 0 };
    match T::deserialize(&mut t) { Ok(k) => Some(k), Err(_) => None }
}
checked!(array, A9);
checked!(empty, [u8; 0]);
checked!(ed_point, EdwardsPoint);
checked!(mont_point, curve25519_dalek::montgomery::MontgomeryPoint);
checked!(ed_scalar, S25519);
checked!(secp_point, secp256k1::PublicKey);
checked!(secp_scalar, secp256k1::SecretKey);
checked!(secp_signature, secp256k1::Signature);
pair!(pair_a, A5, A9);
pair!(pair_b, A9, A3);
pair!(pair_same, A9, A9);
pair!(pair_32, Array<U32>, Array<U32>);
pair!(pair_big, Array<U64>, Array<U1000>);
pair!(pair_alike, Concat<A5, A9>, Concat<A9, A5>);
pair!(pair_none, A0, A5);
pair!(pair_nest, Concat<A5, A9>, A3);
pair!(pair_deep, A3, Concat<Concat<A9, A5>, A3>);
pair!(pair_point, EdwardsPoint, A3);
pair!(pair_tail, A9, EdwardsPoint);
pair!(pair_toy, ToyPoint, ToyScalar);
total!(line_array, A5);
total!(line_long, Array<U64>);
total!(line_33, Array<U33>);
total!(line_big, Array<U1000>);
total!(line_same, Concat<A9, A9>);
total!(line_empty, [u8; 0]);
total!(line_pair, Concat<A5, A9>);
total!(line_nest, Concat<Concat<A9, A3>, A5>);
fields!(serde_pair, Concat<A5, A9>);

macro_rules! curve { ($m:ident, $c:ty, $d:ty) => { pub mod $m { use super::*;
    type K = <$c as Curve>::Scalar;
    type X = Array<<$c as Curve>::CoordinateLength>;
    type H = Array<<K as LineValid>::Length>;
    type S = Schnorr<$c, $d>;
    pub fn sign(d: &K, m: &[u8], k: &K) -> Result<S, ()> { S::sign(d, &m, k) }
    pub fn verify(s: &S, y: &$c, m: &[u8]) -> bool { s.verify(y, &m).is_ok() }
    pub fn enc(s: &S) -> Array<<S as LineValid>::Length> { s.clone_line() }
    pub fn dec(b: &Array<<S as LineValid>::Length>) -> Result<S, ()> { S::try_clone_array(b) }
    pub fn public(d: &K) -> $c { <$c>::base().exp_ec(d) }
    pub fn x(p: &$c) -> X { p.x_coordinate() }
    pub fn hash(r: &X, m: &[u8]) -> H { <$d>::default().chain(&r[..]).chain(m).finalize_fixed() }
    pub fn scalar(b: &H) -> Result<K, ()> { K::try_clone_array(b) }
    pub fn scalar_bytes(k: &K) -> H { k.clone_line() }
    pub fn sum(y: &$c, h: &K, s: &K) -> $c { y.exp_ec(h).mul_ec(&<$c>::base().exp_ec(s)) }
    pub fn pack(p: &$c) -> Array<<$c as Curve>::CompressedLength> { Curve::compress(p) }
    pub fn unpack(b: &Array<<$c as Curve>::CompressedLength>) -> Result<$c, ()> { <$c>::decompress(b) }
    pub fn add_ff(a: &K, b: &K) -> Result<K, ()> { a.add_ff(b) }
    pub fn sub_ff(a: &K, b: &K) -> Result<K, ()> { a.sub_ff(b) }
    pub fn mul_ff(a: &K, b: &K) -> Result<K, ()> { a.mul_ff(b) }
} } }
curve!(sig_ed, EdwardsPoint, sha3::Sha3_256);
curve!(sig_toy, ToyPoint, sha3::Sha3_224);
curve!(sig_wide, WidePoint, sha3::Sha3_224);
curve!(sig_secp, secp256k1::PublicKey, sha3::Sha3_256);
pub mod mont { use super::*;
    type C = curve25519_dalek::montgomery::MontgomeryPoint;
    pub fn public(d: &S25519) -> C { C::base().exp_ec(d) }
    pub fn pack(p: &C) -> Array<<C as Curve>::CompressedLength> { Curve::compress(p) }
    pub fn unpack(b: &Array<<C as Curve>::CompressedLength>) -> Result<C, ()> { C::decompress(b) }
}

/// a group whose coordinates, scalars and points have encodings of different lengths
pub struct ToyPoint(pub [u64; 3]);
pub struct ToyScalar(pub [u64; 2]);
extern "Rust" {
    fn toy_base() -> ToyPoint;
    fn toy_mul(a: &ToyPoint, b: &ToyScalar) -> ToyPoint;
    fn toy_add(a: &ToyPoint, b: &ToyPoint) -> ToyPoint;
    fn toy_x(a: &ToyPoint) -> [u8; 20];
    fn toy_point_bytes(a: &ToyPoint) -> [u8; 48];
    fn toy_point_packed(a: &ToyPoint) -> [u8; 21];
    fn toy_point_of(a: &[u8; 48]) -> Option<ToyPoint>;
    fn toy_point_unpacked(a: &[u8; 21]) -> Option<ToyPoint>;
    fn toy_scalar_bytes(a: &ToyScalar) -> [u8; 28];
    fn toy_scalar_of(a: &[u8; 28]) -> Option<ToyScalar>;
    fn toy_scalar_add(a: &ToyScalar, b: &ToyScalar) -> ToyScalar;
    fn toy_scalar_sub(a: &ToyScalar, b: &ToyScalar) -> ToyScalar;
    fn toy_scalar_mul(a: &ToyScalar, b: &ToyScalar) -> ToyScalar;
}
impl Clone for ToyScalar { fn clone(&self) -> Self { ToyScalar(self.0) } }
impl LineValid for ToyPoint {
    type Length = U48;
    fn try_clone_array(a: &Array<U48>) -> Result<Self, ()> { let mut b = [0; 48]; b.copy_from_slice(a); unsafe { toy_point_of(&b) }.ok_or(()) }
    fn clone_line(&self) -> Array<U48> { Array::clone_from_slice(&unsafe { toy_point_bytes(self) }) }
}
impl LineValid for ToyScalar {
    type Length = U28;
    fn try_clone_array(a: &Array<U28>) -> Result<Self, ()> { let mut b = [0; 28]; b.copy_from_slice(a); unsafe { toy_scalar_of(&b) }.ok_or(()) }
    fn clone_line(&self) -> Array<U28> { unsafe { toy_scalar_bytes(self) }.into() }
}
impl Scalar for ToyScalar {
    fn add_ff(&self, rhs: &Self) -> Result<Self, ()> { Ok(unsafe { toy_scalar_add(self, rhs) }) }
    fn sub_ff(&self, rhs: &Self) -> Result<Self, ()> { Ok(unsafe { toy_scalar_sub(self, rhs) }) }
    fn mul_ff(&self, rhs: &Self) -> Result<Self, ()> { Ok(unsafe { toy_scalar_mul(self, rhs) }) }
    fn inv_ff(&self) -> Result<Self, ()> { Err(()) }
}
impl Curve for ToyPoint {
    type Scalar = ToyScalar;
    type CompressedLength = U21;
    type CoordinateLength = U20;
    const NAME: &'static str = "toy";
    fn base() -> Self { unsafe { toy_base() } }
    fn mul_ec(&self, rhs: &Self) -> Self { unsafe { toy_add(self, rhs) } }
    fn exp_ec(&self, rhs: &ToyScalar) -> Self { unsafe { toy_mul(self, rhs) } }
    fn decompress(packed: &Array<U21>) -> Result<Self, ()> { let mut b = [0; 21]; b.copy_from_slice(packed); unsafe { toy_point_unpacked(&b) }.ok_or(()) }
    fn compress(&self) -> Array<U21> { Array::clone_from_slice(&unsafe { toy_point_packed(self) }) }
    fn x_coordinate(&self) -> Array<U20> { unsafe { toy_x(self) }.into() }
}
/// the same group with coordinates longer than its scalars
pub struct WidePoint(ToyPoint);
impl LineValid for WidePoint {
    type Length = U48;
    fn try_clone_array(a: &Array<U48>) -> Result<Self, ()> { ToyPoint::try_clone_array(a).map(WidePoint) }
    fn clone_line(&self) -> Array<U48> { self.0.clone_line() }
}
impl Curve for WidePoint {
    type Scalar = ToyScalar;
    type CompressedLength = U21;
    type CoordinateLength = U48;
    const NAME: &'static str = "wide";
    fn base() -> Self { WidePoint(ToyPoint::base()) }
    fn mul_ec(&self, rhs: &Self) -> Self { WidePoint(self.0.mul_ec(&rhs.0)) }
    fn exp_ec(&self, rhs: &ToyScalar) -> Self { WidePoint(self.0.exp_ec(rhs)) }
    fn decompress(packed: &Array<U21>) -> Result<Self, ()> { ToyPoint::decompress(packed).map(WidePoint) }
    fn compress(&self) -> Array<U21> { self.0.compress() }
    fn x_coordinate(&self) -> Array<U48> { self.0.clone_line() }
}
