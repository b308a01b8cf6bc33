#!/usr/bin/env python3
# writes properties.jsonl (kept as a script so that the list stays readable)
import json,os,re
P=[]
def where(n,files):
    last=n.split("::")[-1].split(" ")[-1]
    for f in files:
        if re.search(r"\b"+re.escape(last)+r"\b",open("/repo/"+f).read()): return f
    return files[0]
def p(id,title,statement,over,text,why,files,syms):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=files[0] if len(files)==1 else where(n,files)) for n in syms])))
KY=["vru-kyber/src/kem.rs","vru-kyber/src/indcpa.rs","vru-kyber/src/poly.rs","vru-kyber/src/poly_inner.rs","vru-kyber/src/coefficient.rs"]
KAT="The only tests are one known-answer vector per width (one seed, one ciphertext), a single point of the input space; "
p("K01","Kyber never panics or overflows on any input","For every seed and for every byte string of the right length used as a public key, secret key or ciphertext, at each of the widths 2, 3 and 4, key generation, encoding, decoding, encapsulation and decapsulation perform no overflowing arithmetic, no out-of-range access and no panic.",["inputs","configurations"],"all seeds, all byte strings of the right length (hostile ones included), widths 2, 3, 4",KAT+"hostile encodings (coefficients at the extremes of their range) are never tried and release builds hide overflow.",KY,["Kyber::generate_pair","Kyber::encapsulate","Kyber::decapsulate","Coefficient::montgomery_reduce","Coefficient::barrett_reduce","PolyInner"])
p("K02","Decapsulation rejects implicitly, bound to what was received","Decapsulation yields the key made from the recovered message only if re-encrypting that message reproduces the received ciphertext in every byte; otherwise it yields a key made from the whole secret rejection value. In both cases the key depends on every byte of the received ciphertext and no error or panic tells the two cases apart.",["inputs","configurations"],"all secret keys and all received ciphertexts, valid or not, widths 2, 3, 4",KAT+"no test decapsulates an altered ciphertext.",["vru-kyber/src/kem.rs"],["Kyber::decapsulate"])
p("K03","Encapsulation and decapsulation agree on the shared secret","For every pair seed and encapsulation seed, whenever decryption recovers the encapsulated message, decapsulation returns exactly the shared secret that encapsulation returned. This holds both for a public key used directly after generation and for one that was encoded and decoded, on either side.",["inputs","configurations"],"all seeds, widths 2, 3, 4, every combination of fresh and re-decoded public key",KAT+"and it always re-decodes the public key before use.",KY,["Kyber::generate_pair","Kyber::encapsulate","Kyber::decapsulate"])
p("K04","Kyber control flow and addresses never depend on secrets","No branch condition, loop bound or memory index executed by key generation, encapsulation, decapsulation or secret-key encoding depends on the noise and encapsulation seeds, the secret key, the rejection value, the recovered message or the shared secret. Only public data (the public seed, public keys, ciphertexts as received, lengths) may steer them.",["inputs","configurations"],"all secret values, widths 2, 3, 4","Functional tests observe outputs only; a secret-dependent branch gives the same outputs.",KY,["Coefficient::freeze","PolyInner::from_message","PolyInner::to_message","Kyber::decapsulate","gen_matrix"])
p("K05","Kyber keys and ciphertexts survive their byte encoding","Decoding any byte string as a public key or a ciphertext and encoding it again gives the same bytes; encoding any generated secret key and decoding it gives back coefficients congruent to the original ones, in the same positions. A public key, secret key or ciphertext is therefore interchangeable with its encoding.",["inputs","configurations"],"all byte strings of the right length; all generated keys; widths 2, 3, 4",KAT+"most bit positions of the packers are pinned only for that value and the secret key decoder is never called.",["vru-kyber/src/poly_inner.rs","vru-kyber/src/indcpa.rs"],["PolyInner::compress_slightly","PolyInner::decompress_slightly","PolyInner::compress","PolyInner::decompress","PolyInner::to_bytes","PolyInner::from_bytes"])
p("K06","Public matrix and noise are sampled from the right streams","Every entry of the public matrix is a canonical residue below q that depends only on the public seed and its position, and key generation and public-key decoding expand the same seed to the same matrix. Every noise polynomial is drawn from the secret noise seed with its own nonce, so no two noise polynomials of one operation share a stream, and none is drawn from public data.",["inputs","configurations"],"all seeds, widths 2, 3, 4",KAT+"a candidate equal to q or the refill of the buffer is hit for few seeds only.",["vru-kyber/src/indcpa.rs","vru-kyber/src/poly.rs"],["gen_matrix","Poly::get_noise","key_pair","encapsulate"])
p("K07","Encryption and decryption compute the ring equations of the scheme","For all seeds, messages and received bytes the public vector is A*s+e, the ciphertext consists of A^T*r+e1 and t*r+e2+m*q/2, and decryption sets a message bit exactly if the coefficient of s*u-v lies in the middle half of the range. Every product is the exact product in Z_q[x]/(x^256+1), for every pair of operands, and every value that is sent is rounded by at most half a rounding step; decryption is therefore off by nothing but noise and rounding.",["inputs","configurations"],"all seeds, messages, keys and ciphertexts; widths 2, 3, 4",KAT+"an arithmetic slip for rare coefficient values, a coarser rounding or a smaller message amplitude stays invisible, because decryption tolerates errors.",["vru-kyber/src/poly.rs","vru-kyber/src/poly_inner.rs","vru-kyber/src/coefficient.rs","vru-kyber/src/indcpa.rs"],["Poly::ntt_inner","Coefficient::acc","Coefficient::montgomery_reduce","PolyInner::compress","PolyInner::to_message","PolyInner::from_message","encapsulate","decapsulate"])
p("K08","Noise is centred binomial, made of bits that are used once","Every coefficient of every secret, blinding and error polynomial is a sum of eta bits of its stream less a sum of eta other bits, with eta 5, 4, 3 at the widths 2, 3, 4, and no bit of a stream is used twice in a polynomial. Every coefficient of the secret key, the public vector, the ciphertext vector and the hidden message carries its noise.",["inputs","configurations"],"all seeds, widths 2, 3, 4",KAT+"less noise, repeated noise or none at all makes decryption only more reliable.",["vru-kyber/src/poly_inner.rs","vru-kyber/src/poly.rs","vru-kyber/src/indcpa.rs"],["Cbd::cbd","Poly::get_noise","key_pair","encapsulate"])
NO=["vru-noise/src/cipher_state.rs","vru-noise/src/symmetric_state.rs","vru-noise/src/hash.rs"]
CV="The only test replays one fixed transcript of one pattern with one configuration; "
p("N01","Transport nonces never repeat or skip","In each direction the n-th successful operation (counting from 0) uses nonce n, written as a 64-bit counter after four zero bytes in the byte order of the configuration; a successful encryption or decryption advances the counter of its own direction by exactly one, and a failed decryption changes neither counter nor key nor the other direction.",["histories","inputs"],"all sequences of encryptions and (successful or failing) decryptions, both directions, all counter values",CV+"it never lets a decryption fail and sends a handful of messages.",["vru-noise/src/cipher_state.rs"],["Unidirectional::encrypt","Unidirectional::decrypt","Cipher::encrypt","Cipher::decrypt"])
p("N02","Decryption accepts only what the AEAD verified","A transport or handshake decryption returns success only if the AEAD accepted exactly the given ciphertext and tag under the current key, the current nonce and the associated data (for a handshake message: the current transcript hash); on success the buffer holds the AEAD's plaintext. Encryption authenticates under the same key, nonce and associated data, and the buffer-with-tag forms mean the same with the tag as the last bytes.",["inputs","histories"],"all keys, nonces, associated data, ciphertexts, tags and lengths",CV+"no altered ciphertext, tag or associated data is ever presented.",["vru-noise/src/cipher_state.rs","vru-noise/src/symmetric_state.rs"],["Unidirectional::decrypt","Cipher::decrypt_ext","SymmetricState::decrypt","SymmetricState::encrypt"])
p("N03","A keyed handshake state can be used only once","Once a handshake state holds a key it cannot be duplicated, and every operation that encrypts, decrypts or mixes consumes it and yields a successor, so no handshake nonce can be used twice with one key. The same holds for the session handshake states of both parties: none can be copied, and each step consumes its state.",["programs","histories"],"all client programs that compile against the crates","A test is one client program that happens not to reuse a state; the claim is about every program that compiles.",["vru-noise/src/symmetric_state.rs","vru-session/src/handshake/xx.rs"],["Key","SymmetricState","InitiatorsEphemeral","RespondersEphemeral","InitiatorsFinal"])
p("N04","The transcript hash covers every byte in order","Mixing data into the transcript gives the hash of the old transcript hash followed by the data; after a handshake encryption or decryption it gives the hash of the old transcript hash, the whole ciphertext and the whole tag, in this order, whatever the length of the ciphertext. Mixing leaves the keys alone and both parties compute the same value. A new state starts from the protocol name, padded with zeros to the hash length or, if longer, hashed; its first chaining key is the same value.",["inputs","configurations"],"all transcripts and payload lengths, all hash functions and block sizes",CV+"its payloads never reach the hash's block size, where the hashing code takes another route.",["vru-noise/src/hash.rs","vru-noise/src/symmetric_state.rs"],["MixHash::mix_parts","MixHash::mix_hash","SymmetricState::encrypt","SymmetricState::decrypt"])
p("N05","Key schedule derives separate keys for separate purposes","Mixing a shared secret or a pre-shared key derives the next chaining key and the cipher key as distinct parts of one HKDF output over the previous chaining key and the whole secret, the pre-shared form also feeding a third part into the transcript hash; mixing restarts the handshake nonce at zero. Finishing splits the chaining key into two distinct directional keys, both starting at nonce zero, and swapping the pair exchanges the directions and nothing else.",["inputs","configurations"],"all chaining keys and secrets, both supported key/hash size relations",CV+"pre-shared keys and one of the two cipher suites are never exercised.",NO,["SymmetricState::mix_shared_secret","SymmetricState::mix_psk","SymmetricState::finish","Cipher::swap","hkdf_split"])
p("N06","Ill-sized encrypted input is an error, never a panic","Decrypting a buffer of any length, including one shorter than an authentication tag, returns success or an error and never panics.",["inputs"],"all buffer lengths and contents",CV+"only well-formed messages are decrypted.",["vru-noise/src/cipher_state.rs"],["Cipher::decrypt_ext"])
p("N07","Key rotation happens on schedule and in step on both sides","The rotor of a direction is applied exactly when the number of successful operations in that direction becomes a multiple of its interval, after the message at that position was processed with the old key, and identically for the encrypting and the decrypting side. Rotation never resets or repeats the nonce counter and is never triggered by a failed decryption.",["histories","configurations"],"all histories and all rotation intervals","No test uses a rotor with a finite interval.",["vru-noise/src/cipher_state.rs"],["Unidirectional::next","Rotor"])
SE=["vru-session/src/handshake/xx.rs","vru-session/src/handshake/noise.rs"]
HS="One test runs one honest handshake with fixed seeds and one payload size; "
p("S01","An honest handshake ends in agreement","For all keys, seeds and payloads, when the four messages are delivered unmodified both parties accept and end with the same transcript hash, the initiator's sending key and nonce equal to the responder's receiving ones and vice versa, every payload delivered as sent, and each party holding the static public key of the other.",["inputs"],"all long-term keys, seeds and payload contents",HS+"agreement for other values is not exercised.",SE+["vru-session/src/handshake/key.rs"],["xx::out0","xx::take0_out1","xx::take1_out2","xx::take2_out3","xx::take_3"])
p("S02","Handshake steps accept only authenticated fields","No handshake step that returns success does so without having verified the authentication tag of every encrypted field of the message it consumed, each under the state reached by all earlier fields, and the values it returns are the verified plaintexts. Every byte received in the clear is bound into the transcript or the keys before the next verification, so altering any byte makes some later verification run on a different key or transcript.",["inputs","fault_sequences"],"all messages, altered in any byte",HS+"no altered message is ever presented.",SE,["xx::take1_out2","xx::take2_out3","xx::take_3"])
p("S03","Session keys depend on every secret of the handshake","The final keys of both parties depend on all three Diffie-Hellman results (ephemeral-ephemeral, and each party's static key with the other's ephemeral key) and on all four encapsulated secrets, two to ephemeral and two to static keys, each in full and unconditionally. Each encryption in the handshake uses a key that depends on every secret established before it.",["inputs"],"all keys and seeds",HS+"leaving out a secret for some values keeps both sides in agreement.",SE,["xx::out0","xx::take0_out1","xx::take1_out2","xx::take2_out3","xx::take_3"])
p("S04","The initiator accepts only the identity it dialled","The initiator's handshake succeeds only if the static public key presented by the responder hashes to the identity that the initiator asked for; a responder that mixes the expected identity but presents another key is refused.",["inputs","fault_sequences"],"all responders, including ones that know the expected identity but not its key",HS+"the responder is always the expected one.",["vru-session/src/handshake/xx.rs","vru-session/src/handshake/key.rs"],["xx::take1_out2","PublicKey::identity"])
p("S05","Hostile handshake and key bytes never panic a party","Whatever bytes a peer sends as a handshake message, as a serialized public key or as the text of an identity, the receiving code returns an error or a value and does not panic.",["inputs"],"all messages, serialized keys and identity strings",HS+"only well-formed inputs are parsed.",["vru-session/src/handshake/xx.rs","vru-session/src/handshake/key.rs"],["PublicKey::decompress","Deserialize for PublicKey","Identity::from_str"])
p("S06","A public key is always consistent with its own hash and bytes","However a public key was obtained (generated, decompressed, cloned or deserialized), its cached lattice hash is the hash of its lattice key, its compressed form followed by decompression gives an equal key, and serializing then deserializing gives an equal key. A received hash that does not match the received key never becomes part of a key.",["inputs"],"all keys and all serialized forms",HS+"the serde path and mismatching hashes are never exercised.",["vru-session/src/handshake/key.rs"],["PublicKey::gen","PublicKey::decompress","PublicKey::compress","Clone for PublicKey","Deserialize for PublicKey"])
p("S07","Identity names the whole key and its text form is exact","The identity of a public key is the hash of its complete compressed form, so two keys differing in any byte get different hash inputs. Printing an identity and parsing the text returns the same identity, and text that was not produced by printing an identity (wrong length, wrong leading byte) is refused.",["inputs"],"all public keys; all strings",HS+"the text form is not tested at all.",["vru-session/src/handshake/key.rs"],["PublicKey::identity","Identity::from_str","Display for Identity"])
p("S08","Secret types cannot be printed or serialized","No type that holds secret key material (secret keys, keyed symmetric states, the handshake states of either party, transport ciphers, Kyber secret keys) can be formatted, displayed or serialized, and no function gives the text of one. A public key, which can be printed, contains only public data.",["programs"],"all client programs that compile against the crates","Absence of an implementation is not observable by a test that compiles.",["vru-session/src/handshake/key.rs","vru-session/src/handshake/xx.rs","vru-noise/src/symmetric_state.rs","vru-kyber/src/indcpa.rs"],["SecretKey","Key","InitiatorsEphemeral","RespondersEphemeral","InitiatorsFinal"])
RA=["rac/src/concat.rs","rac/src/line.rs","rac/src/schnorr.rs"]
p("R01","Composite encodings are lossless and laid out in order","The encoding of a pair is the encoding of its first part immediately followed by that of its second, for all part lengths; decoding splits at exactly that place, fails exactly if one of the parts fails to decode, and decoding what was encoded gives the same value. The clone and serde wrappers of encodable values preserve the value, and a signature's encoding has its two parts at these places for every curve, also when coordinate and scalar differ in length.",["inputs","configurations"],"all values, part types and part lengths (equal and unequal)","The crate has a single test, which signs and verifies and encodes nothing.",RA,["Concat","LineLike","Schnorr::clone_line","Schnorr::try_clone_array"])
p("R02","Signature verification is bound to message, key and nonce point","Verification succeeds only if the x-coordinate recomputed from the public key, the signature scalar and the challenge equals the signature's one in every byte, where the challenge is the hash of that x-coordinate followed by the whole message. Signing computes the response from the same challenge, so a signature made with the matching secret key satisfies this equation for every message. Verifying any decodable signature ends with acceptance or refusal, never with a panic.",["inputs"],"all keys, messages and signatures","One random valid signature over one message is verified; no forgery, other message or other key is ever presented.",["rac/src/schnorr.rs","rac/src/secp256k1_m.rs"],["Schnorr::sign","Schnorr::verify"])
p("R03","A signature survives its byte encoding","Encoding a signature that verifies and decoding the bytes gives a signature that still verifies, for every shipped curve.",["inputs","configurations"],"all signatures on all shipped curves","No test encodes a signature.",["rac/src/schnorr.rs","rac/src/curve25519_dalek_m.rs"],["Schnorr::try_clone_array","C25519Scalar::try_clone_array"])
p("R04","Curve wrappers compute in the group they name","For each shipped curve, the base point is its standard generator, mul_ec adds two points, exp_ec multiplies a point by a scalar, and adding, subtracting, multiplying scalars is the arithmetic of the scalar field. Every encoding of a point or a scalar, including the compressed forms, decodes to the value it was made from, bytes that decode encode to the same bytes again (points of curve25519 aside, which have several encodings), and the 25519 scalar decodes every 32 bytes, clamped as RFC 7748 requires of a secret key. x_coordinate is the coordinate of the point's encoding.",["inputs","configurations"],"all points and scalars of all shipped curves","One signature over one curve is made and verified; no single operation is compared with anything.",["rac/src/curve25519_dalek_m.rs","rac/src/secp256k1_m.rs","rac/src/elliptic.rs"],["Curve","Scalar","C25519Scalar","CompressedEdwardsY","EdwardsPoint","SecretKey","PublicKey"])
UD=["vru-udp/src/global.rs","vru-udp/src/local.rs"]
NT="The crate has no tests; "
p("U01","UDP node commands never hit a borrow or lock conflict","For every command and every state of the node, handling the command takes its internal locks and dynamic borrows so that no conflicting borrow panics and no lock is requested while the same thread holds it; locks are not held while waiting on another thread.",["histories","schedules"],"all commands in all node states (peer unknown, pending, connected) and all interleavings with the main thread",NT+"and the state in which it matters (a pending handle) needs a connected peer.",UD,["Node::command","NodeState::process"])
p("U02","A peer worker serves every kind of message until told to end","The worker of a peer keeps receiving until all its senders are gone or it is told to terminate, whatever sequence of network and local messages arrives; no message kind ends the worker, so handing it a message cannot fail while the node is running.",["histories"],"all message sequences",NT+"the effect needs a local command followed by another message.",["vru-udp/src/local.rs"],["PeerState::run","Peer::send","PeerHandle::send"])
p("U03","Shutting down the UDP node cannot deadlock","Nobody waits for a worker thread to finish while still holding, or leaving with someone who waits, a sender that keeps that worker's channel open; joining the node therefore completes once the running flag is cleared.",["schedules","histories"],"all node states at shutdown",NT+"shutdown with a connected peer is not exercised.",UD,["Peer::join","NodeState::run","Node::join"])
p("U04","Only whole frames are processed and the first frame carries the whole message","A datagram whose length differs from the frame size is reported and never processed. The first datagram sent to a dialled peer starts with the complete, unchanged opening handshake message made for that peer, and its remaining bytes are filled with fresh randomness.",["inputs"],"all received datagrams, all dialled peers",NT+"nothing observes the bytes on the wire.",["vru-udp/src/global.rs"],["NodeState::run","NodeState::process"])
p("U05","Handshake seeds are fresh and complete randomness","Every seed with which the node starts a handshake or creates its long-term key is filled over its whole length from the thread-local cryptographic generator immediately before its use, and is used once.",["inputs","histories"],"all handshakes started by a node",NT+"randomness quality is not observable in one run.",["vru-udp/src/global.rs","vru-node/src/main.rs"],["NodeState::process","main"])
TC=["vru-tcp/src/lib.rs"]
p("U06","Local commands reach the named peer, dials are recorded once","A local command is sent, unchanged and exactly once, to the handle registered for its destination, wherever that handle is kept, and the handle stays registered under that identity. A connect command records exactly the given address and identity as a pending dial if none is pending for that address; otherwise it leaves the pending one alone and reports the connection as failed.",["histories","inputs"],"all commands in all node states",NT+"handles exist only after a dial was answered.",["vru-udp/src/global.rs","vru-udp/src/local.rs"],["Node::command","PeerHandle::send"])
p("U07","Datagrams reach the worker of their link, dials start one worker","A received frame is passed unchanged and exactly once, with the address it came from, to the worker registered under the link token at its start, if there is one. Otherwise, if a dial is pending for the address it came from, one worker is started with the handshake state made for that dial, kept so that it is joined at the end, and its handle is registered under the dialled identity.",["inputs","histories"],"all frames in all node states",NT+"no peer answers in any test.",["vru-udp/src/global.rs","vru-udp/src/local.rs","vru-udp/src/linkage/datagram.rs"],["NodeState::process","Peer::spawn","Datagram::link"])
p("T01","Main loops stop once the running flag is cleared","In the TCP node, the UDP node and the control listener every cycle of the main loop, including retry cycles after any kind of poll error, checks the running flag before waiting again, and every wait has a finite timeout. All of them share one flag with the interrupt handler, which clears it; nothing sets it again.",["schedules","fault_sequences"],"all sequences of poll results and errors",NT+"poll errors need fault injection.",["vru-tcp/src/lib.rs","vru-udp/src/global.rs","vru-node/src/listener_unix.rs"],["NodeState::run","CommandListenerIter::next"])
p("T02","No pending TCP connection is forgotten","After a readiness notification for its listening socket the TCP node accepts until an accept fails, so connections arriving together are all handled although notifications are edge-triggered; running out of pending connections is not reported as an error.",["schedules"],"all arrival patterns",NT+"the effect needs two connections between two polls.",TC,["NodeState::run"])
p("T03","Network failures are reported, not fatal","A failing connect, accept, poll, receive or send in the TCP or UDP node leads to an error event or a return value and never to a panic of the node's threads or of the caller issuing a command. Nor does a successful network operation, such as an incoming connection, lead to a certain panic.",["fault_sequences"],"all failures of network system calls",NT+"system-call failures need fault injection.",["vru-tcp/src/lib.rs","vru-udp/src/global.rs"],["Node::command","NodeState::run","NodeState::process"])
p("T04","Only the owner ends a node","Once running, the main loops of the UDP node, the TCP node and the control listener go on waiting for input whatever arrives and whichever network operation fails; they end only when the running flag was cleared, a wait was interrupted, or the node's own waker fired.",["inputs","fault_sequences"],"all sequences of inputs and failures of network calls",NT+"a loop that ends on a rare failure looks fine in a short run.",["vru-tcp/src/lib.rs","vru-udp/src/global.rs","vru-node/src/listener_unix.rs"],["NodeState::run","CommandListenerIter::next"])
p("D01","A node keeps its identity across restarts and crashes","A node hands out a key pair only if it is derived from the seed read from its database or from a fresh seed that was stored there and flushed to disk before; a stored seed is always used unchanged and never overwritten, and database errors are returned.",["crash_points","histories"],"all crash points and restarts","There is no test of the database.",["vru-node/src/database.rs"],["Database::key_or_insert"])
p("C01","Client and node agree on the control protocol","The client sends exactly the command type that the node's control listener decodes, with matching serializer and deserializer settings, and every client subcommand maps its arguments to the command of the same meaning.",["programs","inputs"],"all subcommands and arguments","There is no test of either binary.",["vru-node/src/bin/client.rs","vru-node/src/listener_unix.rs","vru-node/src/main.rs"],["client::main","CommandListenerIter::next"])
p("C02","A stalled or lying control client cannot hang the node","Reading a command from an accepted control connection is bounded in time and in size before any decoding starts, so a client that sends nothing, or claims a huge length, cannot block the listener for good or exhaust memory; whatever a connection delivers yields at most an error for that command.",["inputs","fault_sequences"],"all control clients","There is no test of the listener.",["vru-node/src/listener_unix.rs"],["CommandListenerIter::next"])
p("C03","The node carries out each command once and shuts down in order","Every control command that the listener decodes is given to the node unchanged, exactly once, and nothing else is; a command that cannot be decoded is skipped. When the listener ends, or could not start, the node is joined before the process ends, and then the event thread, which reports every event until the node is gone.",["histories","fault_sequences"],"all sequences of control connections","There is no test of the node binary.",["vru-node/src/main.rs","vru-node/src/listener_unix.rs"],["main","CommandListenerIter::next"])
p("E01","Every reported event reaches the node reference unchanged","Every event given to a node's reporting function, by whatever thread, is sent exactly once, unchanged and without a bound that could drop it, into the one channel whose receiver is the node reference, and nothing but the reference takes events out of it. Receiving from the reference returns the next event itself and loses none; an empty channel is not taken for a node that is gone, and a node that is gone is told as such.",["histories","schedules"],"all sequences of events and calls","There is no test of a running node.",["vru-udp/src/global.rs","vru-udp/src/command.rs","vru-tcp/src/lib.rs"],["NodeRef::recv","NodeRef::try_recv","EventSender::report","NodeState::report","Node::spawn"])
p("X01","Decryption fails with negligible probability only","Over the choice of the seeds, decapsulation of an honest ciphertext recovers the encapsulated message except with negligible probability, at each of the widths 2, 3 and 4.",["inputs"],"all seeds",KAT+"a failure probability of one in a million stays invisible.",["vru-kyber/src/indcpa.rs","vru-kyber/src/size.rs"],["encapsulate","decapsulate"])
p("X02","Matrix rejection sampling is uniform and always ends","The rejection sampler reads each block of the stream once, uses every candidate, ends for every seed, and gives uniformly distributed entries.",["inputs"],"all seeds",KAT+"runs that need a refill are rare.",["vru-kyber/src/indcpa.rs"],["gen_matrix"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import sys; print(len(P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    assert x["statement"].count(". ")<=2,x["id"]
