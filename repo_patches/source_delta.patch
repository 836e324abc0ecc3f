From 80d36151dbf7ba0700e96d70bcb446d5885b7a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 01/12] fix: key path parsing no longer panics or wraps on big
 hardened numbers and non-ASCII parts

---
 keychain/src/key_path.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/keychain/src/key_path.rs b/keychain/src/key_path.rs
index 5a9f8d5..f5ffaeb 100644
--- a/keychain/src/key_path.rs
+++ b/keychain/src/key_path.rs
@@ -71,7 +71,11 @@ impl GenericKeyPath {
     if s.len() == 0 {
       return Err(Error::EmptyValueAtIndex(index));
     }
-    Self::soft_int(index, &s[..s.len() - 1]).map(|val| val + BIP44_SOFT_UPPER_BOUND)
+    let soft = &s[..s.len() - 1];
+    let val = Self::soft_int(index, soft)?;
+    // a hardened number has only 31 bits, so parsing it as i32 reports an overflow for bigger ones
+    str::parse::<i32>(soft).map_err(|err| Error::ParseErrorAtIndex(index, err))?;
+    Ok(val + BIP44_SOFT_UPPER_BOUND)
   }
 
   fn soft_int(index: usize, s: &str) -> Result<u32, Error> {
@@ -85,7 +89,7 @@ impl GenericKeyPath {
     if s.len() == 0 {
       return Err(Error::EmptyValueAtIndex(index));
     }
-    if &s[s.len() - 1..] == "'" {
+    if s.ends_with("'") {
       Self::hard_int(index, s)
     } else {
       Self::soft_int(index, s)
-- 
2.43.0


From d47e9c4345baf35e86bf7034724de1f4efa7a700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 02/12] fix: report the offending address, not the change, for
 an invalid address in a key path

---
 keychain/src/networks/bitcoin/key_path.rs | 2 +-
 keychain/src/networks/cardano/key_path.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/keychain/src/networks/bitcoin/key_path.rs b/keychain/src/networks/bitcoin/key_path.rs
index da77a71..20e4b9d 100644
--- a/keychain/src/networks/bitcoin/key_path.rs
+++ b/keychain/src/networks/bitcoin/key_path.rs
@@ -40,7 +40,7 @@ impl KeyPath {
       return Err(Error::InvalidChange(change));
     }
     if address >= BIP44_SOFT_UPPER_BOUND {
-      return Err(Error::InvalidAddress(change));
+      return Err(Error::InvalidAddress(address));
     }
     Ok(())
   }
diff --git a/keychain/src/networks/cardano/key_path.rs b/keychain/src/networks/cardano/key_path.rs
index 6bae86a..7cd2d8c 100644
--- a/keychain/src/networks/cardano/key_path.rs
+++ b/keychain/src/networks/cardano/key_path.rs
@@ -19,7 +19,7 @@ impl KeyPath {
       return Err(Error::InvalidChange(change));
     }
     if address >= BIP44_SOFT_UPPER_BOUND {
-      return Err(Error::InvalidAddress(change));
+      return Err(Error::InvalidAddress(address));
     }
     Ok(KeyPath { account: account + BIP44_SOFT_UPPER_BOUND, change, address })
   }
-- 
2.43.0


From b6990b9410c52b05f7fb351fccda82657160e10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 03/12] fix: Cardano key data and signatures that are too long
 are an error, not a panic

---
 keychain/src/networks/cardano/key.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keychain/src/networks/cardano/key.rs b/keychain/src/networks/cardano/key.rs
index c06be8d..ef840b4 100644
--- a/keychain/src/networks/cardano/key.rs
+++ b/keychain/src/networks/cardano/key.rs
@@ -48,7 +48,7 @@ pub struct Key {
 impl Key {
   pub fn from_data(data: &[u8]) -> Result<Self, Error> {
     let mut arr: [u8; XPRV_SIZE] = [0; XPRV_SIZE];
-    if data.len() < XPRV_SIZE {
+    if data.len() != XPRV_SIZE {
       return Err(Error::InvalidKeySize(data.len(), XPRV_SIZE));
     }
     arr.copy_from_slice(data);
@@ -126,7 +126,7 @@ impl IKey for Key {
 
   fn verify(&self, data: &[u8], signature: &[u8], path: &dyn KeyPath) -> Result<bool, Error> {
     let mut sign: [u8; SIGNATURE_SIZE] = [0; SIGNATURE_SIZE];
-    if signature.len() < SIGNATURE_SIZE {
+    if signature.len() != SIGNATURE_SIZE {
       return Err(Error::InvalidSignatureSize(signature.len(), SIGNATURE_SIZE));
     }
     sign.copy_from_slice(signature);
-- 
2.43.0


From 5386d2c63eedb85eafb9da52f5e85eaa308b3a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 04/12] fix: decrypt accepts the encryption of an empty string

---
 keychain/src/crypt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain/src/crypt.rs b/keychain/src/crypt.rs
index 1a3b964..65980b6 100644
--- a/keychain/src/crypt.rs
+++ b/keychain/src/crypt.rs
@@ -72,7 +72,7 @@ pub fn encrypt(data: &[u8], password: &str, entropy: &dyn Entropy) -> Vec<u8> {
 pub fn decrypt(data: &[u8], password: &str) -> Result<Vec<u8>, DecryptError> {
   use self::password_encryption_parameter::*;
 
-  if data.len() <= METADATA_SIZE {
+  if data.len() < METADATA_SIZE {
     // not enough input to decrypt.
     return Err(DecryptError::NotEnoughData);
   }
-- 
2.43.0


From cd5788ff48813c80577a86c85e7c99d3cec5e31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 05/12] fix: networks that share exactly one seed size can be
 managed together

---
 keychain/src/manager.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain/src/manager.rs b/keychain/src/manager.rs
index 5b2b81c..b2349c9 100644
--- a/keychain/src/manager.rs
+++ b/keychain/src/manager.rs
@@ -147,7 +147,7 @@ impl KeychainManager {
 
     match min {
       0 => Err(Error::CantCalculateSeedSize(min, max)),
-      m if m >= max => Err(Error::CantCalculateSeedSize(min, max)),
+      m if m > max => Err(Error::CantCalculateSeedSize(min, max)),
       _ => Ok(min)
     }
   }
-- 
2.43.0


From 82157efa24e64d487a5433856adb66b84d9ae249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 06/12] fix: skipping an invalid child key never turns a normal
 child into a hardened one

---
 secp256k1_bip32/src/private.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secp256k1_bip32/src/private.rs b/secp256k1_bip32/src/private.rs
index 226c445..81b40cd 100644
--- a/secp256k1_bip32/src/private.rs
+++ b/secp256k1_bip32/src/private.rs
@@ -201,7 +201,7 @@ impl XPrv {
     let mut newpk = self.key.clone();
 
     if newpk.tweak_add_assign(&tweak_pk).is_err() {
-      if (hardened && index < std::u32::MAX) || (!hardened && index < BIP44_SOFT_UPPER_BOUND) {
+      if (hardened && index < std::u32::MAX) || (!hardened && index < BIP44_SOFT_UPPER_BOUND - 1) {
         return self.derive(index + 1);
       } else {
         return Err(KeyError::TweakOutOfRange);
-- 
2.43.0


From 1eabd4ca85b3b19cfb294811cfcf4ff879e525e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 07/12] fix: verify accepts the 65 byte signatures made by sign

---
 secp256k1_bip32/src/public.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/secp256k1_bip32/src/public.rs b/secp256k1_bip32/src/public.rs
index 2192c68..1b43144 100644
--- a/secp256k1_bip32/src/public.rs
+++ b/secp256k1_bip32/src/public.rs
@@ -20,7 +20,12 @@ impl XPub {
   }
 
   pub fn verify(&self, data: &[u8], signature: &[u8]) -> Result<bool, KeyError> {
-    if signature.len() != util::SIGNATURE_SIZE {
+    // signature can have a recovery id at the end (the format returned by the XPrv::sign)
+    if signature.len() == util::SIGNATURE_SIZE + 1 {
+      if signature[util::SIGNATURE_SIZE] > 1 {
+        return Err(KeyError::InvalidRecoveryId);
+      }
+    } else if signature.len() != util::SIGNATURE_SIZE {
       return Err(KeyError::InvalidSignature(signature.len(), util::SIGNATURE_SIZE));
     }
     let mut sha3 = Sha3::keccak256();
@@ -30,7 +35,7 @@ impl XPub {
 
     let message = Message::parse(&out);
 
-    Signature::parse_slice(signature)
+    Signature::parse_slice(&signature[..util::SIGNATURE_SIZE])
       .map(|signature| verify(&message, &signature, &self.0))
       .map_err(|err| err.into())
   }
-- 
2.43.0


From c3edc02683023f36489323aae0d5193ccbbc3b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 08/12] fix: mnemonic numbers above 2047 are refused instead of
 read outside of the word list

---
 bip39/src/bip39.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bip39/src/bip39.rs b/bip39/src/bip39.rs
index c5568f2..f9aa3a3 100755
--- a/bip39/src/bip39.rs
+++ b/bip39/src/bip39.rs
@@ -836,6 +836,10 @@ impl Mnemonics {
   ///
   pub fn from_mnemonics(mnemonics: Vec<MnemonicIndex>) -> Result<Self> {
     let _ = Type::from_word_count(mnemonics.len())?;
+    // `MnemonicIndex` can be built without its smart constructor
+    for mnemonic in mnemonics.iter() {
+      MnemonicIndex::new(mnemonic.0)?;
+    }
     Ok(Mnemonics(mnemonics))
   }
 }
@@ -921,7 +925,10 @@ pub mod dictionary {
       }
     }
     fn lookup_word(&self, mnemonic: MnemonicIndex) -> Result<String> {
-      Ok(unsafe { self.words.get_unchecked(mnemonic.0 as usize) }).map(|s| String::from(*s))
+      match self.words.get(mnemonic.0 as usize) {
+        None => Err(Error::MnemonicWordNotFoundInDictionary(mnemonic.0.to_string())),
+        Some(word) => Ok(String::from(*word))
+      }
     }
   }
 
-- 
2.43.0


From 030f6f2cf76285df170373da4bffde16d5a49a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 09/12] fix: delete_networks frees the list with the layout it
 was made with

---
 keychain-c/src/network.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain-c/src/network.rs b/keychain-c/src/network.rs
index ab30ccc..97f3585 100644
--- a/keychain-c/src/network.rs
+++ b/keychain-c/src/network.rs
@@ -33,7 +33,7 @@ impl Ptr<[Network]> for NetworksPtr {
     if self.ptr.is_null() {
       return;
     }
-    let _ = Vec::from_raw_parts(self.ptr as *mut &[Network], self.count, self.count);
+    let _ = Vec::from_raw_parts(self.ptr as *mut Network, self.count, self.count);
     self.ptr = std::ptr::null();
   }
 }
-- 
2.43.0


From 0768573818b108d9e025842320bf0db0c895e774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 10/12] fix: delete_string ignores null

---
 keychain-c/src/utils/string.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keychain-c/src/utils/string.rs b/keychain-c/src/utils/string.rs
index 4ab4ed0..8a4f2f2 100644
--- a/keychain-c/src/utils/string.rs
+++ b/keychain-c/src/utils/string.rs
@@ -10,6 +10,9 @@ impl Ptr<str> for CharPtr {
   }
 
   unsafe fn free(&mut self) {
+    if self.is_null() {
+      return;
+    }
     let _ = CString::from_raw(*self as *mut c_char);
     *self = std::ptr::null();
   }
-- 
2.43.0


From c0c821a819c18fe31da3048de924fc6b3864b70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:51 +0000
Subject: [PATCH 11/12] fix: secret bytes are erased with writes the optimizer
 can't remove

---
 bip39/src/bip39.rs          |  2 +-
 bip39/src/util/securemem.rs | 15 +++++++--------
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/bip39/src/bip39.rs b/bip39/src/bip39.rs
index f9aa3a3..f9f07b4 100755
--- a/bip39/src/bip39.rs
+++ b/bip39/src/bip39.rs
@@ -512,7 +512,7 @@ impl Deref for Seed {
 }
 impl Drop for Seed {
   fn drop(&mut self) {
-    self.0.copy_from_slice(&[0; SEED_SIZE][..]);
+    securemem::zero(&mut self.0);
   }
 }
 
diff --git a/bip39/src/util/securemem.rs b/bip39/src/util/securemem.rs
index 61ba866..64b47d3 100755
--- a/bip39/src/util/securemem.rs
+++ b/bip39/src/util/securemem.rs
@@ -1,12 +1,11 @@
 /// zero the given slice.
 ///
-/// We assume the compiler won't optimise out the call to this function
+/// The writes are volatile, so the compiler can't optimise them out
+/// even when nothing reads the slice afterwards.
 pub fn zero(to_zero: &mut [u8]) {
-  // the unsafety of this call is bounded to the existence of the pointer
-  // and the accuracy of the length of the array.
-  //
-  // since to_zero existence is bound to live at least as long as the call
-  // of this function and that we use the length (in bytes) of the given
-  // slice, this call is safe.
-  unsafe { ::std::ptr::write_bytes(to_zero.as_mut_ptr(), 0, to_zero.len()) }
+  for byte in to_zero.iter_mut() {
+    // the write is safe, since the reference is valid for the whole time of the call.
+    unsafe { ::std::ptr::write_volatile(byte, 0) }
+  }
+  ::std::sync::atomic::compiler_fence(::std::sync::atomic::Ordering::SeqCst);
 }
-- 
2.43.0


From e9a37193c0973b07dc7b73f12962125c6a19c9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:51 +0000
Subject: [PATCH 12/12] fix: a zero byte in an error or panic message no longer
 panics across the C boundary

---
 keychain-c/src/error.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/keychain-c/src/error.rs b/keychain-c/src/error.rs
index 85c1b4b..2011e1d 100644
--- a/keychain-c/src/error.rs
+++ b/keychain-c/src/error.rs
@@ -59,11 +59,16 @@ impl ErrorPtr {
   }
 
   pub fn new(err: &RError) -> Self {
-    Self { error_type: Self::error_type(err), message: format!("{}", err).to_cstr() }
+    Self { error_type: Self::error_type(err), message: Self::message(&format!("{}", err)) }
   }
 
   pub fn panic(msg: &str) -> Self {
-    Self { error_type: ErrorType::Panic, message: msg.to_cstr() }
+    Self { error_type: ErrorType::Panic, message: Self::message(msg) }
+  }
+
+  // C string can't contain zero bytes, they are printed as \0
+  fn message(msg: &str) -> CharPtr {
+    msg.replace('\0', "\\0").to_cstr()
   }
 }
 
-- 
2.43.0

