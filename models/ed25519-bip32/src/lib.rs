//! Assumed contract on `ed25519-bip32` 0.1: key checks are exact; derivation, public keys, signing
//! and verification are uninterpreted, constrained only by verify(sign(m)) = true under the same key.
#![cfg(kani)]
extern crate ghost;
use ghost::Buf;
use std::fmt;
use std::marker::PhantomData;

pub const XPRV_SIZE: usize = 96;
pub const XPUB_SIZE: usize = 64;
pub const SIGNATURE_SIZE: usize = 64;
pub type DerivationIndex = u32;

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum DerivationScheme {
  V1,
  V2
}
impl Default for DerivationScheme {
  fn default() -> Self {
    DerivationScheme::V2
  }
}

#[derive(Debug, PartialEq, Eq)]
pub enum PrivateKeyError {
  LengthInvalid(usize),
  HighestBitsInvalid,
  LowestBitsInvalid
}
#[derive(Debug, PartialEq, Eq)]
pub enum PublicKeyError {
  LengthInvalid(usize)
}
#[derive(Debug, PartialEq, Eq)]
pub enum SignatureError {
  InvalidLength(usize)
}

/// A key is a value: `state` stands for it.  Of a derived key the bytes are not modelled.
pub struct XPrv {
  state: [u8; 8],
  bytes: [u8; XPRV_SIZE],
  derived: bool
}
impl XPrv {
  fn load(bytes: [u8; XPRV_SIZE]) -> Self {
    let mut state = [0u8; 8];
    ghost::uf!(ED_LOAD, Buf::from(&bytes), &mut state);
    XPrv { state, bytes, derived: false }
  }
  pub fn normalize_bytes(mut bytes: [u8; XPRV_SIZE]) -> Self {
    bytes[0] &= 0b1111_1000;
    bytes[31] &= 0b0001_1111;
    bytes[31] |= 0b0100_0000;
    XPrv::load(bytes)
  }
  pub fn from_bytes_verified(bytes: [u8; XPRV_SIZE]) -> Result<Self, PrivateKeyError> {
    if (bytes[31] & 0b1110_0000) != 0b0100_0000 {
      return Err(PrivateKeyError::HighestBitsInvalid);
    }
    if (bytes[0] & 0b0000_0111) != 0 {
      return Err(PrivateKeyError::LowestBitsInvalid);
    }
    Ok(XPrv::load(bytes))
  }
  pub fn from_slice_verified(bytes: &[u8]) -> Result<Self, PrivateKeyError> {
    if bytes.len() != XPRV_SIZE {
      return Err(PrivateKeyError::LengthInvalid(bytes.len()));
    }
    let mut buf = [0u8; XPRV_SIZE];
    buf.copy_from_slice(bytes);
    XPrv::from_bytes_verified(buf)
  }
  pub fn public(&self) -> XPub {
    let mut out = [0u8; XPUB_SIZE];
    ghost::uf!(ED_PUB, Buf::from(&self.state), &mut out);
    XPub(out)
  }
  pub fn sign<T>(&self, message: &[u8]) -> Signature<T> {
    let e = Buf::new().part(&self.state).part(message);
    let mut o = [0u8; SIGNATURE_SIZE];
    ghost::uf!(ED_SIGN, e, &mut o);
    let s = Signature::from_bytes(o);
    kani::assume(self.public().verify(message, &s));
    s
  }
  pub fn verify<T>(&self, message: &[u8], signature: &Signature<T>) -> bool {
    self.public().verify(message, signature)
  }
  pub fn derive(&self, scheme: DerivationScheme, index: DerivationIndex) -> Self {
    let e = Buf::new().part(&self.state).num((scheme as u64) << 32 | index as u64);
    let mut state = [0u8; 8];
    ghost::uf!(ED_DERIVE, e, &mut state);
    XPrv { state, bytes: [0; XPRV_SIZE], derived: true }
  }
  pub fn get_extended(&self, out: &mut [u8; 64]) {
    out.copy_from_slice(&self.as_ref()[0..64])
  }
}
impl PartialEq for XPrv {
  fn eq(&self, o: &XPrv) -> bool {
    self.as_ref() == o.as_ref()
  }
}
impl Eq for XPrv {}
impl Clone for XPrv {
  fn clone(&self) -> Self {
    XPrv { state: self.state, bytes: self.bytes, derived: self.derived }
  }
}
impl fmt::Debug for XPrv {
  fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
    Ok(())
  }
}
impl AsRef<[u8]> for XPrv {
  fn as_ref(&self) -> &[u8] {
    assert!(!self.derived, "ghost: the bytes of a derived key are not modelled");
    &self.bytes
  }
}
impl From<XPrv> for [u8; XPRV_SIZE] {
  fn from(v: XPrv) -> [u8; XPRV_SIZE] {
    assert!(!v.derived, "ghost: the bytes of a derived key are not modelled");
    v.bytes
  }
}

#[derive(Clone, Copy)]
pub struct XPub([u8; XPUB_SIZE]);
impl XPub {
  pub fn from_bytes(bytes: [u8; XPUB_SIZE]) -> Self {
    XPub(bytes)
  }
  pub fn from_slice(bytes: &[u8]) -> Result<Self, PublicKeyError> {
    if bytes.len() != XPUB_SIZE {
      return Err(PublicKeyError::LengthInvalid(bytes.len()));
    }
    let mut buf = [0u8; XPUB_SIZE];
    buf.copy_from_slice(bytes);
    Ok(XPub(buf))
  }
  pub fn verify<T>(&self, message: &[u8], signature: &Signature<T>) -> bool {
    let e = Buf::new().part(&self.0[0..32]).part(message).part(signature.as_ref());
    let mut o = [0u8; 1];
    ghost::uf!(ED_VERIFY, e, &mut o);
    o[0] & 1 == 1
  }
  pub fn get_without_chaincode(&self, out: &mut [u8; 32]) {
    out.copy_from_slice(&self.0[0..32])
  }
}
impl AsRef<[u8]> for XPub {
  fn as_ref(&self) -> &[u8] {
    &self.0
  }
}
impl From<XPub> for [u8; XPUB_SIZE] {
  fn from(v: XPub) -> [u8; XPUB_SIZE] {
    v.0
  }
}

pub struct Signature<T> {
  bytes: [u8; SIGNATURE_SIZE],
  _phantom: PhantomData<T>
}
impl<T> Signature<T> {
  pub fn from_bytes(bytes: [u8; SIGNATURE_SIZE]) -> Self {
    Signature { bytes, _phantom: PhantomData }
  }
  pub fn from_slice(bytes: &[u8]) -> Result<Self, SignatureError> {
    if bytes.len() != SIGNATURE_SIZE {
      return Err(SignatureError::InvalidLength(bytes.len()));
    }
    let mut buf = [0u8; SIGNATURE_SIZE];
    buf.copy_from_slice(bytes);
    Ok(Self::from_bytes(buf))
  }
  pub fn to_bytes<'a>(&'a self) -> &'a [u8; SIGNATURE_SIZE] {
    &self.bytes
  }
}
impl<T> AsRef<[u8]> for Signature<T> {
  fn as_ref(&self) -> &[u8] {
    &self.bytes
  }
}
