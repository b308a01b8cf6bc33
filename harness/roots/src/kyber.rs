use rac::{generic_array::{typenum::{U2, U3, U4}, GenericArray}, LineValid};
use vru_kyber::{Kem, Kyber};

type A<N> = GenericArray<u8, N>;
macro_rules! kyber {
    ($m:ident, $w:ty) => {
        pub mod $m {
            use super::*;
            pub type K = Kyber<$w>;
            pub type Pk = <K as Kem>::PublicKey;
            pub type Sk = <K as Kem>::SecretKey;
            pub type Ct = <K as Kem>::CipherText;
            pub type PkB = A<<Pk as LineValid>::Length>;
            pub type SkB = A<<Sk as LineValid>::Length>;
            pub type CtB = A<<Ct as LineValid>::Length>;
            pub type Ss = A<<K as Kem>::SharedSecretLength>;
            pub type Seed = A<<K as Kem>::PairSeedLength>;
            pub type ESeed = A<<K as Kem>::EncapsulationSeedLength>;
            pub type Hash = A<<K as Kem>::PublicKeyHashLength>;

            pub fn generate(seed: &Seed) -> (Pk, Sk) { K::generate_pair(seed) }
            pub fn generate_bytes(seed: &Seed) -> (PkB, SkB) { let (p, s) = K::generate_pair(seed); (p.clone_line(), s.clone_line()) }
            pub fn encaps(seed: &ESeed, pk: &Pk, h: &Hash) -> (Ct, Ss) { K::encapsulate(seed, pk, h) }
            pub fn decaps(sk: &Sk, pk: &Pk, h: &Hash, ct: &Ct) -> Ss { K::decapsulate(sk, pk, h, ct) }
            pub fn pk_decode(b: &PkB) -> Result<Pk, ()> { LineValid::try_clone_array(b) }
            pub fn sk_decode(b: &SkB) -> Result<Sk, ()> { LineValid::try_clone_array(b) }
            pub fn ct_decode(b: &CtB) -> Result<Ct, ()> { LineValid::try_clone_array(b) }
            pub fn pk_encode(b: &Pk) -> PkB { b.clone_line() }
            pub fn sk_encode(b: &Sk) -> SkB { b.clone_line() }
            pub fn pk_loop(b: &PkB) -> PkB { <Pk as LineValid>::try_clone_array(b).unwrap().clone_line() }
            pub fn ct_loop(b: &CtB) -> CtB { <Ct as LineValid>::try_clone_array(b).unwrap().clone_line() }
            pub fn sk_loop(seed: &Seed) -> (Sk, Sk) { let (_, s) = K::generate_pair(seed); let t = <Sk as LineValid>::try_clone_array(&s.clone_line()).unwrap(); (s, t) }
            pub fn pk_fresh(seed: &Seed) -> (Pk, Pk) { let (p, _) = K::generate_pair(seed); let t = <Pk as LineValid>::try_clone_array(&p.clone_line()).unwrap(); (p, t) }
            pub fn encaps_wire(seed: &ESeed, pk: &PkB, h: &Hash) -> (CtB, Ss) { let pk = <Pk as LineValid>::try_clone_array(pk).unwrap(); let (c, s) = K::encapsulate(seed, &pk, h); (c.clone_line(), s) }
            pub fn decaps_wire(sk: &SkB, pk: &PkB, h: &Hash, ct: &CtB) -> Ss {
                let pk = <Pk as LineValid>::try_clone_array(pk).unwrap();
                let sk = <Sk as LineValid>::try_clone_array(sk).unwrap();
                let ct = <Ct as LineValid>::try_clone_array(ct).unwrap();
                K::decapsulate(&sk, &pk, h, &ct)
            }
            /// all operations on a generated pair and a ciphertext from the wire
            pub fn fresh_ops(seed: &Seed, eseed: &ESeed, h: &Hash, ct: &CtB) -> (CtB, Ss, Ss, PkB) {
                let (pk, sk) = K::generate_pair(seed);
                let (c, s) = K::encapsulate(eseed, &pk, h);
                let ct = <Ct as LineValid>::try_clone_array(ct).unwrap();
                let d = K::decapsulate(&sk, &pk, h, &ct);
                (c.clone_line(), s, d, pk.clone_line())
            }
            pub fn agree(sk: &SkB, pk: &PkB, h: &Hash, eseed: &ESeed) -> (Ss, Ss) {
                let pk = <Pk as LineValid>::try_clone_array(pk).unwrap();
                let sk = <Sk as LineValid>::try_clone_array(sk).unwrap();
                let (c, s) = K::encapsulate(eseed, &pk, h);
                (s, K::decapsulate(&sk, &pk, h, &c))
            }
            /// a ciphertext as its receiver decodes it, with the key it was made for
            pub fn sealed(seed: &ESeed, pk: &PkB, h: &Hash) -> (Ct, Pk) { let pk = <Pk as LineValid>::try_clone_array(pk).unwrap(); let (c, _) = K::encapsulate(seed, &pk, h); (<Ct as LineValid>::try_clone_array(&c.clone_line()).unwrap(), pk) }
            /// decapsulation, with the key and the ciphertext as decoded
            pub fn opened(sk: &SkB, pk: &PkB, h: &Hash, ct: &CtB) -> (Ss, Sk, Ct) {
                let pk = <Pk as LineValid>::try_clone_array(pk).unwrap();
                let sk = <Sk as LineValid>::try_clone_array(sk).unwrap();
                let ct = <Ct as LineValid>::try_clone_array(ct).unwrap();
                (K::decapsulate(&sk, &pk, h, &ct), sk, ct)
            }
            pub fn ct_encode(b: &Ct) -> CtB { b.clone_line() }
        }
    };
}
kyber!(w2, U2);
kyber!(w3, U3);
kyber!(w4, U4);
