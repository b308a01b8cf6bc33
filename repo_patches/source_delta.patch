From 17bcf0eb3150d74dad42cfce856ce91b4f145a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 01/20] fix: decapsulation hashes the received cipher text

---
 vru-kyber/src/kem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vru-kyber/src/kem.rs b/vru-kyber/src/kem.rs
index 4b6835b..af3a943 100644
--- a/vru-kyber/src/kem.rs
+++ b/vru-kyber/src/kem.rs
@@ -94,7 +94,7 @@ where
         let ct_prime = cipher_text.clone_line();
         let flag = ct.ct_eq(ct_prime.as_ref());
 
-        let ct_hash = Sha3_256::default().chain(ct).finalize_fixed();
+        let ct_hash = Sha3_256::default().chain(ct_prime).finalize_fixed();
         for i in 0..32 {
             r[i].conditional_assign(&reject[i], !flag);
         }
-- 
2.43.0


From 3ea38677680a8a69e6da54c4e174133a4bdc641a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 02/20] fix: generated public key equals its encoding

---
 vru-kyber/src/indcpa.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vru-kyber/src/indcpa.rs b/vru-kyber/src/indcpa.rs
index d4e99b6..f8255c2 100644
--- a/vru-kyber/src/indcpa.rs
+++ b/vru-kyber/src/indcpa.rs
@@ -124,7 +124,9 @@ where
             Coefficient::acc(a.iter().zip(b.iter()))
         });
         let p = p.ntt();
-        Poly::functor_2(&p, &e[i], |p, e| p + e)
+        let p: Poly<S, typenum::B1> = Poly::functor_2(&p, &e[i], |p, e| p + e);
+        // the public key is known to others only in compressed form
+        Poly::decompress_slightly(&p.compress_slightly())
     });
 
     (
-- 
2.43.0


From 1b8d5329b984879502dc54f0f224136a5767dea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 03/20] fix: decrypt_ext rejects a buffer shorter than the tag

---
 vru-noise/src/cipher_state.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vru-noise/src/cipher_state.rs b/vru-noise/src/cipher_state.rs
index 96862b6..9a59b83 100644
--- a/vru-noise/src/cipher_state.rs
+++ b/vru-noise/src/cipher_state.rs
@@ -183,7 +183,10 @@ where
         use generic_array::typenum::Unsigned;
 
         let mut tag = GenericArray::default();
-        let pos = buffer.len() - <<C::Aead as AeadCore>::TagSize as Unsigned>::USIZE;
+        let pos = buffer
+            .len()
+            .checked_sub(<<C::Aead as AeadCore>::TagSize as Unsigned>::USIZE)
+            .ok_or(MacMismatch)?;
         tag.clone_from_slice(&buffer[pos..]);
         buffer.resize(pos, 0);
         self.decrypt(associated_data, buffer.as_mut(), &tag)
-- 
2.43.0


From 4662d1bf4ecb2446000899d78598a9f7cff485d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 04/20] fix: initiator accepts only the static key of the
 identity it dials

---
 vru-session/src/handshake/xx.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vru-session/src/handshake/xx.rs b/vru-session/src/handshake/xx.rs
index f2b543b..d286644 100644
--- a/vru-session/src/handshake/xx.rs
+++ b/vru-session/src/handshake/xx.rs
@@ -31,6 +31,7 @@ pub type Message3<S> = Concat<Ct, EncryptedDefault<S>>;
 
 pub struct InitiatorsEphemeral {
     symmetric_state: SymmetricState<Noise, ChainingKey<Noise>>,
+    peer_s_pi: Identity,
     e_pk: PublicKey,
     e_sk: SecretKey,
 }
@@ -53,6 +54,8 @@ pub enum InitiatorsError {
     PayloadSMac(MacMismatch),
     #[error("static key {}", _0)]
     StaticKeyMac(MacMismatch),
+    #[error("static key does not match the identity")]
+    StaticKeyIdentity,
 }
 
 #[derive(Debug, Error)]
@@ -84,6 +87,7 @@ pub fn out0(seed: &Array<typenum::U96>, peer_s_pi: &Identity) -> (InitiatorsEphe
     (
         InitiatorsEphemeral {
             symmetric_state,
+            peer_s_pi: peer_s_pi.clone(),
             e_pk,
             e_sk,
         },
@@ -112,6 +116,7 @@ where
     let (Concat(peer_e_ct, payload_p), peer_e_pkc, enc_peer_s_pkc) = message;
     let InitiatorsEphemeral {
         symmetric_state,
+        peer_s_pi,
         e_pk,
         e_sk,
     } = state;
@@ -127,6 +132,9 @@ where
         .decrypt_line(enc_peer_s_pkc)
         .map_err(InitiatorsError::StaticKeyMac)?;
     let peer_s_pk = PublicKey::decompress(peer_s_pkc);
+    if peer_s_pk.identity() != peer_s_pi {
+        return Err(InitiatorsError::StaticKeyIdentity);
+    }
     let peer_e_pq;
     let symmetric_state = symmetric_state
         .mix_shared_secret(&peer_s_pk.dh(&e_sk))
-- 
2.43.0


From c2bf68c8971f284f1603ecd98ab85a881a8ccbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 05/20] fix: a malformed public key in the handshake is an
 error, not a panic

---
 vru-session/src/handshake/key.rs | 10 +++++++---
 vru-session/src/handshake/xx.rs  | 13 ++++++++++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/vru-session/src/handshake/key.rs b/vru-session/src/handshake/key.rs
index 9d9a78b..c7c3f52 100644
--- a/vru-session/src/handshake/key.rs
+++ b/vru-session/src/handshake/key.rs
@@ -40,15 +40,19 @@ impl PublicKey {
     }
 
     pub fn decompress(bytes: PublicKeyBytes) -> Self {
+        Self::try_decompress(bytes).unwrap()
+    }
+
+    pub fn try_decompress(bytes: PublicKeyBytes) -> Result<Self, ()> {
         let Concat(elliptic_bytes, lattice_bytes) = bytes;
         let lattice = Pk::clone_array(&lattice_bytes);
-        let elliptic = EdwardsPoint::try_clone_array(&elliptic_bytes).unwrap();
+        let elliptic = EdwardsPoint::try_clone_array(&elliptic_bytes)?;
         let lattice_hash = lattice::pk_hash(&lattice);
-        PublicKey {
+        Ok(PublicKey {
             elliptic,
             lattice,
             lattice_hash,
-        }
+        })
     }
 
     pub fn elliptic(&self) -> Array<typenum::U32> {
diff --git a/vru-session/src/handshake/xx.rs b/vru-session/src/handshake/xx.rs
index d286644..eca84c2 100644
--- a/vru-session/src/handshake/xx.rs
+++ b/vru-session/src/handshake/xx.rs
@@ -54,6 +54,8 @@ pub enum InitiatorsError {
     PayloadSMac(MacMismatch),
     #[error("static key {}", _0)]
     StaticKeyMac(MacMismatch),
+    #[error("invalid public key")]
+    InvalidKey,
     #[error("static key does not match the identity")]
     StaticKeyIdentity,
 }
@@ -66,6 +68,8 @@ pub enum RespondersError {
     PayloadRMac(MacMismatch),
     #[error("static key {}", _0)]
     StaticKeyMac(MacMismatch),
+    #[error("invalid public key")]
+    InvalidKey,
 }
 
 // the handshake variant is xx, but the initiator know responder pk
@@ -126,12 +130,14 @@ where
         .decrypt_line(payload_p)
         .map_err(InitiatorsError::PayloadPMac)?;
     let symmetric_state = symmetric_state.mix_hash(&peer_e_pkc.clone_line());
-    let peer_e_pk = PublicKey::decompress(peer_e_pkc);
+    let peer_e_pk =
+        PublicKey::try_decompress(peer_e_pkc).map_err(|()| InitiatorsError::InvalidKey)?;
     let (symmetric_state, peer_s_pkc) = symmetric_state
         .mix_shared_secret(&peer_e_pk.dh(&e_sk))
         .decrypt_line(enc_peer_s_pkc)
         .map_err(InitiatorsError::StaticKeyMac)?;
-    let peer_s_pk = PublicKey::decompress(peer_s_pkc);
+    let peer_s_pk =
+        PublicKey::try_decompress(peer_s_pkc).map_err(|()| InitiatorsError::InvalidKey)?;
     if peer_s_pk.identity() != peer_s_pi {
         return Err(InitiatorsError::StaticKeyIdentity);
     }
@@ -271,7 +277,8 @@ where
         .mix_shared_secret(&s_pk.decapsulate(&s_sk, &peer_s_ct))
         .decrypt_line(enc_peer_s_pkc)
         .map_err(RespondersError::StaticKeyMac)?;
-    let peer_s_pk = PublicKey::decompress(peer_s_pkc);
+    let peer_s_pk =
+        PublicKey::try_decompress(peer_s_pkc).map_err(|()| RespondersError::InvalidKey)?;
     let (symmetric_state, payload_r) = symmetric_state
         .mix_shared_secret(&peer_s_pk.dh(&e_sk))
         .decrypt_line(payload_r)
-- 
2.43.0


From 7fbd070226a512c2ed1f1b20749ec97649fd150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 06/20] fix: deserialized public key is validated and its hash
 is consistent

---
 vru-session/src/handshake/key.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/vru-session/src/handshake/key.rs b/vru-session/src/handshake/key.rs
index c7c3f52..fce6b0f 100644
--- a/vru-session/src/handshake/key.rs
+++ b/vru-session/src/handshake/key.rs
@@ -157,11 +157,13 @@ mod implementations {
             D: de::Deserializer<'de>,
         {
             let LineLike(Concat(a, Concat(b, c))) = de::Deserialize::deserialize(deserializer)?;
-            Ok(PublicKey {
-                elliptic: LineValid::try_clone_array(&a).unwrap(),
-                lattice: Line::clone_array(&b),
-                lattice_hash: c,
-            })
+            let key = PublicKey::try_decompress(Concat(a, b))
+                .map_err(|()| de::Error::custom("invalid public key"))?;
+            if key.lattice_hash == c {
+                Ok(key)
+            } else {
+                Err(de::Error::custom("wrong hash of the lattice public key"))
+            }
         }
     }
 
-- 
2.43.0


From 20ee6ed2a318ed8b784e6656431a47061fb9f836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 07/20] fix: parsing an identity accepts exactly what is
 displayed

---
 vru-session/src/handshake/key.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vru-session/src/handshake/key.rs b/vru-session/src/handshake/key.rs
index fce6b0f..bd60e6d 100644
--- a/vru-session/src/handshake/key.rs
+++ b/vru-session/src/handshake/key.rs
@@ -123,6 +123,12 @@ impl FromStr for Identity {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let bytes = base64::decode(s)?;
+        if bytes.len() != 33 {
+            return Err(base64::DecodeError::InvalidLength);
+        }
+        if bytes[0] != 0 {
+            return Err(base64::DecodeError::InvalidByte(0, bytes[0]));
+        }
         let mut hash = Array::default();
         hash.as_mut_slice().clone_from_slice(&bytes[1..33]);
         Ok(Identity { hash })
-- 
2.43.0


From f2ca2a2c1f80962a3446a49c488e3d44b6f06a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 08/20] fix: schnorr signature is split at the length of the
 coordinate

---
 rac/src/schnorr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rac/src/schnorr.rs b/rac/src/schnorr.rs
index 09ae327..ed38c39 100644
--- a/rac/src/schnorr.rs
+++ b/rac/src/schnorr.rs
@@ -56,7 +56,7 @@ where
         use generic_array::typenum::Unsigned;
 
         let mut x = GenericArray::default();
-        let m = <<C::Scalar as LineValid>::Length as Unsigned>::USIZE;
+        let m = <C::CoordinateLength as Unsigned>::USIZE;
         x[..m].clone_from_slice(self.r.clone_line().as_ref());
         x[m..].clone_from_slice(self.s.clone_line().as_ref());
         x
-- 
2.43.0


From 7f15bd772c68b2f8551465c8c4a45a9d66e5f395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 09/20] fix: the first command to a peer does not borrow the
 handles twice

---
 vru-udp/src/global.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index 87e3f60..c57f24f 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -106,14 +106,15 @@ impl Node {
                 destination,
                 command,
             } => {
-                if let Some(handle) = self.handles.borrow().get(&destination) {
+                let mut handles = self.handles.borrow_mut();
+                if let Some(handle) = handles.get(&destination) {
                     handle.send(command);
                 } else {
                     let mut h = self.pending_handles.lock().unwrap();
                     if let Some(handle) = h.remove(&destination) {
                         drop(h);
                         handle.send(command);
-                        self.handles.borrow_mut().insert(destination, handle);
+                        handles.insert(destination, handle);
                     }
                 }
             },
-- 
2.43.0


From caaeb88a08f546ea2393c928a1af0a8ed3403b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 10/20] fix: a command does not end the peer's worker

---
 vru-udp/src/local.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/vru-udp/src/local.rs b/vru-udp/src/local.rs
index 55c656a..2c636f9 100644
--- a/vru-udp/src/local.rs
+++ b/vru-udp/src/local.rs
@@ -82,10 +82,18 @@ impl PeerState {
     fn run(self) {
         // TODO:
         let _ = (&self.sk, &self.pk, &self.handshake_state);
-        while let Ok(PeerMessage::Network { address, datagram }) = self.receiver.recv() {
-            let _ = datagram;
-            self.event_sender
-                .report(Event::Info(format!("process connection with: {}", address)));
+        while let Ok(message) = self.receiver.recv() {
+            match message {
+                PeerMessage::Network { address, datagram } => {
+                    let _ = datagram;
+                    self.event_sender
+                        .report(Event::Info(format!("process connection with: {}", address)));
+                },
+                // TODO:
+                PeerMessage::Command(command) => {
+                    let _ = command;
+                },
+            }
         }
     }
 }
-- 
2.43.0


From 878421c651fd82d8b39f55f8e11bd500b91f84ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 11/20] fix: joining a peer terminates its worker

---
 vru-udp/src/local.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vru-udp/src/local.rs b/vru-udp/src/local.rs
index 2c636f9..1cc121e 100644
--- a/vru-udp/src/local.rs
+++ b/vru-udp/src/local.rs
@@ -11,6 +11,7 @@ enum PeerMessage {
         datagram: Datagram,
     },
     Command(LocalCommand),
+    Terminate,
 }
 
 pub struct Peer {
@@ -26,6 +27,9 @@ impl Peer {
     }
 
     pub fn join(self) {
+        // handles keep the channel open, so dropping the sender is not enough;
+        // an error means that the worker is done already
+        let _ = self.sender.send(PeerMessage::Terminate);
         self.worker_thread.join().unwrap();
     }
 
@@ -65,7 +69,9 @@ pub struct PeerHandle {
 
 impl PeerHandle {
     pub fn send(&self, command: LocalCommand) {
-        self.sender.send(PeerMessage::Command(command)).unwrap()
+        if self.sender.send(PeerMessage::Command(command)).is_err() {
+            log::warn!("failed to send a command, the peer is terminated");
+        }
     }
 }
 
@@ -93,6 +99,7 @@ impl PeerState {
                 PeerMessage::Command(command) => {
                     let _ = command;
                 },
+                PeerMessage::Terminate => break,
             }
         }
     }
-- 
2.43.0


From d7ff8967ebd8ab562aaa87abc4b3c802f7697b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 12/20] fix: the datagram carries the whole initial message

---
 vru-udp/src/global.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index c57f24f..7bf5ae5 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -187,7 +187,7 @@ impl NodeState {
                 rand::Rng::fill(&mut rand::thread_rng(), seed.as_mut());
                 let mut datagram = Datagram::default();
                 let (state, message) = xx::out0(&seed, &peer_pi);
-                datagram.as_mut()[..1120].clone_from_slice(&message.0.clone_line());
+                datagram.as_mut()[..1120].clone_from_slice(&message.clone_line());
                 rand::Rng::fill(&mut rand::thread_rng(), datagram.as_mut()[1120..].as_mut());
                 if let Err(error) = self.socket.send_to(datagram.as_ref(), address) {
                     self.sender
-- 
2.43.0


From 9f378e6f1a3c6124532a803f94e39d7d222de573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 13/20] fix: a failing wait does not prevent the shutdown

---
 vru-tcp/src/lib.rs    | 7 ++++++-
 vru-udp/src/global.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/vru-tcp/src/lib.rs b/vru-tcp/src/lib.rs
index 4e6346e..54d00d1 100644
--- a/vru-tcp/src/lib.rs
+++ b/vru-tcp/src/lib.rs
@@ -152,7 +152,12 @@ where
                         }
                     },
                     Err(error) if error.kind() == io::ErrorKind::Interrupted => return,
-                    Err(error) => self.report(Event::Error(NodeError::Io(error))),
+                    Err(error) => {
+                        self.report(Event::Error(NodeError::Io(error)));
+                        if !running.load(Ordering::Acquire) {
+                            return;
+                        }
+                    },
                 }
             }
 
diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index 7bf5ae5..5bef54b 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -151,7 +151,12 @@ impl NodeState {
                         }
                     },
                     Err(error) if error.kind() == io::ErrorKind::Interrupted => return,
-                    Err(error) => self.sender.report(Event::Error(Error::ReadSocket(error))),
+                    Err(error) => {
+                        self.sender.report(Event::Error(Error::ReadSocket(error)));
+                        if !running.load(Ordering::Acquire) {
+                            return;
+                        }
+                    },
                 }
             }
             let mut datagram = Datagram::default();
-- 
2.43.0


From 814d7f6c5045e51ab2b43e8b1e36df0013fae3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 14/20] fix: failed connect is reported, not a panic

---
 vru-tcp/src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vru-tcp/src/lib.rs b/vru-tcp/src/lib.rs
index 54d00d1..25f83ac 100644
--- a/vru-tcp/src/lib.rs
+++ b/vru-tcp/src/lib.rs
@@ -107,7 +107,16 @@ where
     fn command(&self, command: Command<Self::Address>) {
         match command {
             Command::Connect { peer_pi, address } => {
-                let stream = TcpStream::connect(address).unwrap();
+                let stream = match TcpStream::connect(address) {
+                    Ok(stream) => stream,
+                    Err(error) => {
+                        let event = Event::Error(NodeError::Io(error));
+                        if let Err(mpsc::SendError(event)) = self.sender.send(event) {
+                            log::warn!("failed to send event: {:?}", event);
+                        }
+                        return;
+                    },
+                };
             },
             _ => (),
         }
-- 
2.43.0


From f7703399ab61bc7bb9d33b5fb4d2bfa188d370ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 15/20] fix: accept every pending connection

---
 vru-tcp/src/lib.rs | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/vru-tcp/src/lib.rs b/vru-tcp/src/lib.rs
index 25f83ac..64da204 100644
--- a/vru-tcp/src/lib.rs
+++ b/vru-tcp/src/lib.rs
@@ -176,19 +176,26 @@ where
                         log::info!("wake");
                         return;
                     },
-                    1 => match self.listener.accept() {
-                        Ok((stream, address)) => {
-                            let processor = self.processor_factory.spawn_processor(None);
-                            let peer = Peer::spawn(
-                                self.sk.clone(),
-                                self.pk.clone(),
-                                stream,
-                                processor,
-                                running.clone(),
-                            );
-                            self.incoming.send((address, peer)).unwrap();
-                        },
-                        Err(error) => self.report(Event::Error(NodeError::Io(error))),
+                    // the readiness is edge triggered, so accept all pending connections
+                    1 => loop {
+                        match self.listener.accept() {
+                            Ok((stream, address)) => {
+                                let processor = self.processor_factory.spawn_processor(None);
+                                let peer = Peer::spawn(
+                                    self.sk.clone(),
+                                    self.pk.clone(),
+                                    stream,
+                                    processor,
+                                    running.clone(),
+                                );
+                                self.incoming.send((address, peer)).unwrap();
+                            },
+                            Err(error) if error.kind() == io::ErrorKind::WouldBlock => break,
+                            Err(error) => {
+                                self.report(Event::Error(NodeError::Io(error)));
+                                break;
+                            },
+                        }
                     },
                     _ => unreachable!(),
                 }
-- 
2.43.0


From df4a1fe3c9ef4970775ad2d1c724038727c062f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 16/20] fix: the key is durable before it is used

---
 vru-node/src/database.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vru-node/src/database.rs b/vru-node/src/database.rs
index 5f768c7..3bd1679 100644
--- a/vru-node/src/database.rs
+++ b/vru-node/src/database.rs
@@ -27,6 +27,7 @@ impl Database {
         } else {
             randomize(&mut s);
             self.db.insert(b"key_seed", s.as_ref())?;
+            self.db.flush()?;
         }
         Ok(PublicKey::gen(&s))
     }
-- 
2.43.0


From d255635b4c51d7d65cea1f7e3ebd0af570c1a888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 17/20] fix: control listener notices the shutdown even if it
 is busy

---
 vru-node/src/listener_unix.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/vru-node/src/listener_unix.rs b/vru-node/src/listener_unix.rs
index f64e4d1..da6ccf7 100644
--- a/vru-node/src/listener_unix.rs
+++ b/vru-node/src/listener_unix.rs
@@ -33,10 +33,13 @@ impl CommandListener {
         P: AsRef<Path>,
     {
         let _ = fs::remove_file(&path);
+        let listener = UnixListener::bind(path)?;
+        let mut sources = Sources::with_capacity(1);
+        sources.register((), &listener, interest::READ);
         Ok(CommandListener {
             running,
-            listener: UnixListener::bind(path)?,
-            sources: Sources::with_capacity(1),
+            listener,
+            sources,
             events: Events::with_capacity(1),
         })
     }
@@ -59,21 +62,17 @@ where
     type Item = bincode::Result<T>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.inner
-            .sources
-            .register((), &self.inner.listener, interest::READ);
         loop {
+            if !self.inner.running.load(Ordering::Acquire) {
+                return None;
+            }
             match self
                 .inner
                 .sources
                 .wait_timeout(&mut self.inner.events, Duration::from_secs(2))
             {
                 Ok(()) => break,
-                Err(error) if error.kind() == io::ErrorKind::TimedOut => {
-                    if !self.inner.running.load(Ordering::Acquire) {
-                        return None;
-                    }
-                },
+                Err(error) if error.kind() == io::ErrorKind::TimedOut => (),
                 Err(error) if error.kind() == io::ErrorKind::Interrupted => return None,
                 Err(error) => {
                     return Some(Err(error.into()));
-- 
2.43.0


From 08f4c3deec1ebeabc45281063bbd7259d763631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 18/20] fix: control client cannot stall the node

---
 vru-node/src/listener_unix.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/vru-node/src/listener_unix.rs b/vru-node/src/listener_unix.rs
index da6ccf7..f8c7444 100644
--- a/vru-node/src/listener_unix.rs
+++ b/vru-node/src/listener_unix.rs
@@ -1,7 +1,8 @@
 use std::{
     os::unix::net::UnixListener,
     path::Path,
-    io, fs,
+    io::{self, Read},
+    fs,
     sync::{
         Arc,
         atomic::{Ordering, AtomicBool},
@@ -12,6 +13,8 @@ use std::{
 use serde::de::DeserializeOwned;
 use popol::{Sources, Events, interest};
 
+const MAX_COMMAND_SIZE: u64 = 1 << 20;
+
 pub struct CommandListener {
     running: Arc<AtomicBool>,
     listener: UnixListener,
@@ -80,7 +83,13 @@ where
             }
         }
         match self.inner.listener.accept() {
-            Ok((stream, _)) => Some(bincode::deserialize_from(stream)),
+            Ok((stream, _)) => {
+                // a client neither stalls the node nor makes it read without a limit
+                if let Err(error) = stream.set_read_timeout(Some(Duration::from_secs(2))) {
+                    return Some(Err(error.into()));
+                }
+                Some(bincode::deserialize_from(stream.take(MAX_COMMAND_SIZE)))
+            },
             Err(error) => {
                 if error.kind() == io::ErrorKind::Interrupted {
                     None
-- 
2.43.0


From c14762da0b6f821655d5865cd16b2ac461fcd286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:14 +0000
Subject: [PATCH 19/20] fix: too long datagrams are not taken for frames

---
 vru-udp/src/global.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index 5bef54b..7f83d24 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -159,13 +159,16 @@ impl NodeState {
                     },
                 }
             }
-            let mut datagram = Datagram::default();
-            match self.socket.recv_from(datagram.as_mut()) {
+            // one byte more than a frame, otherwise a longer datagram looks like a frame
+            let mut buffer = [0; Datagram::SIZE + 1];
+            match self.socket.recv_from(buffer.as_mut()) {
                 Ok((length, address)) => {
                     if length != Datagram::SIZE {
                         self.sender
                             .report(Event::Error(Error::FrameSize(address, length)));
                     } else {
+                        let mut datagram = Datagram::default();
+                        datagram.as_mut().copy_from_slice(&buffer[..Datagram::SIZE]);
                         self.process(address, datagram);
                     }
                 },
-- 
2.43.0


From 79c0ed865a54426ce782dc3a5bf14017544f28b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 20/20] fix: subtract secp256k1 scalars

Scalar::sub_ff was unimplemented, so signing over secp256k1 always panicked.
---
 rac/src/secp256k1_m.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rac/src/secp256k1_m.rs b/rac/src/secp256k1_m.rs
index ccb7db7..438cc49 100644
--- a/rac/src/secp256k1_m.rs
+++ b/rac/src/secp256k1_m.rs
@@ -25,8 +25,10 @@ impl Scalar for SecretKey {
     }
 
     fn sub_ff(&self, rhs: &Self) -> Result<Self, ()> {
-        let _ = rhs;
-        unimplemented!()
+        let mut c = rhs.clone();
+        c.negate_assign();
+        c.add_assign(self.clone_line().as_slice()).map_err(|_| ())?;
+        Ok(c)
     }
 
     fn mul_ff(&self, rhs: &Self) -> Result<Self, ()> {
-- 
2.43.0

