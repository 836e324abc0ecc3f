//! Contract of the `secp256k1_bip32` crate as its callers may use it (what C09-C11 prove of the real
//! code): a key is a value; loading, deriving, the public key, signing and verification are functions
//! of it and their arguments, each of which may fail; a child deeper than 255 is refused.
#![cfg(kani)]
use ghost::Buf;
use std::{error, fmt};

#[derive(Debug)]
pub enum KeyError {
  InvalidSignature(usize, usize),
  InvalidPublicKey,
  InvalidSecretKey,
  InvalidRecoveryId,
  InvalidMessage,
  InvalidInputLength,
  TweakOutOfRange,
  InvalidDataSize(usize, usize),
  InvalidEntropySize(usize),
  DeriveDepthTooBig,
  InternalError
}
impl fmt::Display for KeyError {
  fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
    Ok(())
  }
}
impl error::Error for KeyError {}

/// ghost: whether operations fail is chosen by the harness (bit k: the k-th operation fails), so
/// that the symbolic execution stays concrete
pub static mut GHOST_FAIL: u32 = 0;
static mut GHOST_OPS: u32 = 0;
/// ghost: whether the proof needs that signatures are accepted
pub static mut GHOST_ACCEPTS: bool = false;
/// the specification replays the operations from the start
pub fn ghost_restart() {
  unsafe { GHOST_OPS = 0 }
}
fn fails() -> bool {
  unsafe {
    let f = GHOST_FAIL >> GHOST_OPS & 1 == 1;
    GHOST_OPS += 1;
    f
  }
}

pub struct XPrv([u8; 8]);
impl XPrv {
  pub fn from_data(data: &[u8]) -> Result<Self, KeyError> {
    if data.len() != 77 {
      return Err(KeyError::InvalidDataSize(data.len(), 77));
    }
    if fails() {
      return Err(KeyError::InvalidSecretKey);
    }
    let mut o = [0u8; 8];
    ghost::uf!(XPRV_LOAD, Buf::from(data), &mut o);
    Ok(XPrv(o))
  }
  pub fn from_seed(seed: &bip39::Seed) -> Result<Self, KeyError> {
    if fails() {
      return Err(KeyError::InvalidSecretKey);
    }
    let mut o = [0u8; 8];
    ghost::uf!(XPRV_SEED, Buf::from(seed.as_ref()), &mut o);
    Ok(XPrv(o))
  }
  pub fn public(&self) -> XPub {
    XPub(self.0)
  }
  /// loading what was stored gives the key back
  pub fn serialize(&self) -> Vec<u8> {
    let mut o = [0u8; 77];
    ghost::uf!(XPRV_STORE, Buf::from(&self.0), &mut o);
    let mut v = Vec::with_capacity(77);
    v.extend_from_slice(&o);
    v
  }
  pub fn sign(&self, data: &[u8]) -> Result<Vec<u8>, KeyError> {
    if fails() {
      return Err(KeyError::InvalidMessage);
    }
    let mut o = [0u8; 65];
    ghost::uf!(XPRV_SIGN, Buf::new().part(&self.0).part(data), &mut o);
    // what a key signs it accepts, with the recovery id and without (C11)
    if unsafe { GHOST_ACCEPTS } {
      let mut a = [0u8; 1];
      ghost::uf!(XPUB_VERIFY, Buf::new().part(&self.0).part(data).part(&o), &mut a);
      kani::assume(a[0] == 1);
      ghost::uf!(XPUB_VERIFY, Buf::new().part(&self.0).part(data).part(&o[..64]), &mut a);
      kani::assume(a[0] == 1);
    }
    let mut v = Vec::with_capacity(65);
    v.extend_from_slice(&o);
    Ok(v)
  }
  pub fn derive(&self, index: u32) -> Result<Self, KeyError> {
    if fails() {
      return Err(KeyError::TweakOutOfRange);
    }
    let mut o = [0u8; 8];
    ghost::uf!(XPRV_DERIVE, Buf::new().part(&self.0).part(&index.to_be_bytes()), &mut o);
    Ok(XPrv(o))
  }
}

pub struct XPub([u8; 8]);
impl XPub {
  pub fn serialize(&self) -> Vec<u8> {
    let mut o = [0u8; 65];
    ghost::uf!(XPUB_STORE, Buf::from(&self.0), &mut o);
    let mut v = Vec::with_capacity(65);
    v.extend_from_slice(&o);
    v
  }
  pub fn serialize_compressed(&self) -> Vec<u8> {
    let f = self.serialize();
    let mut v = Vec::with_capacity(33);
    v.push(2 + (f[64] & 1));
    v.extend_from_slice(&f[1..33]);
    v
  }
  pub fn verify(&self, data: &[u8], signature: &[u8]) -> Result<bool, KeyError> {
    if fails() {
      return Err(KeyError::InvalidSignature(signature.len(), 64));
    }
    let mut o = [0u8; 1];
    ghost::uf!(XPUB_VERIFY, Buf::new().part(&self.0).part(data).part(signature), &mut o);
    Ok(o[0] & 1 == 1)
  }
}
