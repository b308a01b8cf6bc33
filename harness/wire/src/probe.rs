//! Types whose traits are asked for; see `probe` in the driver.
use typenum::{U0, U1, U2, U3, U4};
use rac::generic_array::typenum;
use vru_kyber::{Kem, Kyber};
use vru_noise::{Key, SymmetricState};
use vru_session::handshake::{xx, PublicKey, SecretKey, TrivialCipher, TrivialUnidirectional};
type N = (sha3::Sha3_256, byteorder::LittleEndian, chacha20poly1305::ChaCha20Poly1305);

/// states that hold a key, and the handshake states
pub fn single_use(_: Key<N, U0>, _: Key<N, U1>, _: SymmetricState<N, Key<N, U0>>, _: SymmetricState<N, Key<N, U1>>, _: xx::InitiatorsEphemeral, _: xx::RespondersEphemeral, _: xx::InitiatorsFinal) {}
/// holders of secret keys
pub fn secret(_: Key<N, U0>, _: SymmetricState<N, Key<N, U0>>, _: SymmetricState<N, Key<N, U1>>, _: xx::InitiatorsEphemeral, _: xx::RespondersEphemeral, _: xx::InitiatorsFinal, _: SecretKey, _: <Kyber<U2> as Kem>::SecretKey, _: <Kyber<U3> as Kem>::SecretKey, _: <Kyber<U4> as Kem>::SecretKey, _: TrivialCipher, _: TrivialUnidirectional) {}
/// holders of secret keys that have no byte encoding either
pub fn opaque(_: Key<N, U0>, _: SymmetricState<N, Key<N, U0>>, _: SymmetricState<N, Key<N, U1>>, _: xx::InitiatorsEphemeral, _: xx::RespondersEphemeral, _: xx::InitiatorsFinal, _: SecretKey, _: TrivialCipher, _: TrivialUnidirectional) {}
/// types that have these traits, to see that the question is answered
pub fn witness(_: PublicKey, _: vru_session::handshake::Identity, _: <Kyber<U3> as Kem>::PublicKey) {}
