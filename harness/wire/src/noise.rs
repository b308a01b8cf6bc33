use aead::NewAead;
use vru_noise::{typenum::{U0, U1, U300, U301}, Aead, ChainingKey, Cipher, Config, Key, MacMismatch, Rotor, SymmetricState, Tag, Unidirectional};

/// a rotor whose effect is a mark for the analysis
pub struct Rot<C: Config> { ck: ChainingKey<C>, key: Aead<C> }
impl<C: Config> Rotor<C> for Rot<C> {
    const INTERVAL: u64 = 3;
    fn new(ck: ChainingKey<C>, key: Aead<C>) -> Self { made::<C>(ck, key) }
    fn rotate(&mut self, key: &mut C::Aead) { rotated::<C>(self, key) }
}
#[inline(never)]
pub fn made<C: Config>(ck: ChainingKey<C>, key: Aead<C>) -> Rot<C> { Rot { ck, key } }
/// known to the analysis
#[inline(never)]
pub fn rotated<C: Config>(r: &mut Rot<C>, key: &mut C::Aead) { let _ = &r.ck; *key = C::Aead::new(&r.key) }

macro_rules! noise {
    ($m:ident, $h:ty, $o:ty, $a:ty) => {
        pub mod $m {
            use super::*;
            pub type C = ($h, $o, $a);
            pub type U = SymmetricState<C, ChainingKey<C>>;
            pub type S<N> = SymmetricState<C, Key<C, N>>;
            pub type H = ChainingKey<C>;
            pub type Un = Unidirectional<C, Rot<C>>;
            pub type Cy = Cipher<C, Rot<C>>;

            pub fn u_new(name: &str) -> U { SymmetricState::new(name) }
            pub fn u_hash(s: &U) -> H { s.hash() }
            pub fn u_mix(s: U, data: &[u8]) -> U { s.mix_hash(data) }
            pub fn u_ss(s: U, data: &[u8]) -> S<U0> { s.mix_shared_secret(data) }
            pub fn u_psk(s: U, data: &[u8]) -> S<U0> { s.mix_psk(data) }
            pub fn u_finish(s: U) -> (Cy, H) { s.finish() }

            pub fn s_hash(s: &S<U0>) -> H { s.hash() }
            pub fn s_mix(s: S<U0>, data: &[u8]) -> S<U0> { s.mix_hash(data) }
            pub fn s_ss(s: S<U0>, data: &[u8]) -> S<U0> { s.mix_shared_secret(data) }
            pub fn s_psk(s: S<U0>, data: &[u8]) -> S<U0> { s.mix_psk(data) }
            pub fn s_finish(s: S<U0>) -> (Cy, H) { s.finish() }
            pub fn s_enc(s: S<U0>, data: &mut [u8]) -> (S<U1>, Tag<C>) { s.encrypt(data) }
            pub fn s_enc_ext(s: S<U0>, data: &mut Vec<u8>) -> S<U1> { s.encrypt_ext(data) }
            pub fn s_dec(s: S<U0>, data: &mut [u8], tag: Tag<C>) -> Result<S<U1>, MacMismatch> { s.decrypt(data, tag) }

            pub fn t_hash(s: &S<U1>) -> H { s.hash() }
            pub fn t_mix(s: S<U1>, data: &[u8]) -> S<U1> { s.mix_hash(data) }
            pub fn t_ss(s: S<U1>, data: &[u8]) -> S<U0> { s.mix_shared_secret(data) }
            pub fn t_psk(s: S<U1>, data: &[u8]) -> S<U0> { s.mix_psk(data) }
            pub fn t_finish(s: S<U1>) -> (Cy, H) { s.finish() }
            pub fn t_enc(s: S<U1>, data: &mut [u8]) -> (S<vru_noise::typenum::U2>, Tag<C>) { s.encrypt(data) }
            pub fn t_dec(s: S<U1>, data: &mut [u8], tag: Tag<C>) -> Result<S<vru_noise::typenum::U2>, MacMismatch> { s.decrypt(data, tag) }
            pub fn x_enc(s: S<U300>, data: &mut [u8]) -> (S<U301>, Tag<C>) { s.encrypt(data) }
            pub fn x_dec(s: S<U300>, data: &mut [u8], tag: Tag<C>) -> Result<S<U301>, MacMismatch> { s.decrypt(data, tag) }
            pub fn y_enc(s: S<U301>, data: &mut [u8]) -> (S<vru_noise::typenum::U302>, Tag<C>) { s.encrypt(data) }

            pub fn c_send(c: Cy) -> Un { c.send }
            pub fn c_receive(c: Cy) -> Un { c.receive }
            pub fn c_swap(c: Cy) -> Cy { c.swap() }
            pub fn c_enc(c: &mut Cy, ad: &[u8], data: &mut [u8]) -> Tag<C> { c.encrypt(ad, data) }
            pub fn c_dec(c: &mut Cy, ad: &[u8], data: &mut [u8], tag: &Tag<C>) -> Result<(), MacMismatch> { c.decrypt(ad, data, tag) }
            pub fn c_enc_ext(c: &mut Cy, ad: &[u8], data: &mut Vec<u8>) { c.encrypt_ext(ad, data) }
            pub fn c_dec_ext(c: &mut Cy, ad: &[u8], data: &mut Vec<u8>) -> Result<(), MacMismatch> { c.decrypt_ext(ad, data) }
            pub fn d_enc(u: &mut Un, ad: &[u8], data: &mut [u8]) -> Tag<C> { u.encrypt(ad, data) }
            pub fn d_dec(u: &mut Un, ad: &[u8], data: &mut [u8], tag: &Tag<C>) -> Result<(), MacMismatch> { u.decrypt(ad, data, tag) }
        }
    };
}
noise!(a, sha3::Sha3_256, byteorder::LittleEndian, chacha20poly1305::ChaCha20Poly1305);
noise!(b, sha2::Sha512, byteorder::BigEndian, aes_gcm::Aes256Gcm);
