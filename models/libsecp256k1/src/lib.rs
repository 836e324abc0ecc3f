//! Assumed contract on `libsecp256k1` 0.2: scalars are exact integers modulo the group order;
//! points, signing, verification and recovery are uninterpreted, constrained only by
//!   verify(m, sign(m, k), pub(k)) = true   and   recover(m, sign(m, k)) = pub(k).
#![cfg(kani)]
extern crate ghost;
use ghost::Buf;

#[derive(Debug, Clone, Eq, PartialEq)]
pub enum Error {
  InvalidSignature,
  InvalidPublicKey,
  InvalidSecretKey,
  InvalidRecoveryId,
  InvalidMessage,
  InvalidInputLength,
  TweakOutOfRange
}

pub mod util {
  pub const TAG_PUBKEY_EVEN: u8 = 0x02;
  pub const TAG_PUBKEY_ODD: u8 = 0x03;
  pub const TAG_PUBKEY_FULL: u8 = 0x04;
  pub const TAG_PUBKEY_HYBRID_EVEN: u8 = 0x06;
  pub const TAG_PUBKEY_HYBRID_ODD: u8 = 0x07;
  pub const MESSAGE_SIZE: usize = 32;
  pub const SECRET_KEY_SIZE: usize = 32;
  pub const RAW_PUBLIC_KEY_SIZE: usize = 64;
  pub const FULL_PUBLIC_KEY_SIZE: usize = 65;
  pub const COMPRESSED_PUBLIC_KEY_SIZE: usize = 33;
  pub const SIGNATURE_SIZE: usize = 64;
  pub const DER_MAX_SIGNATURE_SIZE: usize = 72;
}

pub mod curve {
  pub use crate::Scalar;
}

/// The group order, as two 128-bit halves (high, low).
const N: (u128, u128) =
  (0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFE, 0xBAAEDCE6AF48A03BBFD25E8CD0364141);

fn hi_lo(b: &[u8; 32]) -> (u128, u128) {
  let mut h = [0u8; 16];
  let mut l = [0u8; 16];
  h.copy_from_slice(&b[0..16]);
  l.copy_from_slice(&b[16..32]);
  (u128::from_be_bytes(h), u128::from_be_bytes(l))
}

/// An integer modulo the group order, always reduced.
#[derive(Debug, Clone, Eq, PartialEq)]
pub struct Scalar {
  h: u128,
  l: u128
}
impl Default for Scalar {
  fn default() -> Self {
    Scalar { h: 0, l: 0 }
  }
}
impl Scalar {
  /// reduces modulo the order; true when the value was not below it
  pub fn set_b32(&mut self, b: &[u8; 32]) -> bool {
    let (h, l) = hi_lo(b);
    let over = h > N.0 || (h == N.0 && l >= N.1);
    if over {
      let (l2, borrow) = l.overflowing_sub(N.1);
      self.l = l2;
      self.h = h.wrapping_sub(N.0).wrapping_sub(borrow as u128);
    } else {
      self.h = h;
      self.l = l;
    }
    over
  }
  pub fn b32(&self) -> [u8; 32] {
    let mut r = [0u8; 32];
    r[0..16].copy_from_slice(&self.h.to_be_bytes());
    r[16..32].copy_from_slice(&self.l.to_be_bytes());
    r
  }
  pub fn fill_b32(&self, r: &mut [u8; 32]) {
    *r = self.b32();
  }
  pub fn is_zero(&self) -> bool {
    self.h == 0 && self.l == 0
  }
  fn add(&self, o: &Scalar) -> Scalar {
    // both below N < 2^256: the sum is below 2N; subtract N once when needed
    let (l, c) = self.l.overflowing_add(o.l);
    let (h1, c1) = self.h.overflowing_add(o.h);
    let (h, c2) = h1.overflowing_add(c as u128);
    let carry = c1 || c2;
    if carry || h > N.0 || (h == N.0 && l >= N.1) {
      let (l2, borrow) = l.overflowing_sub(N.1);
      Scalar { h: h.wrapping_sub(N.0).wrapping_sub(borrow as u128), l: l2 }
    } else {
      Scalar { h, l }
    }
  }
}

/// ghost: how many of the next scalar additions sum to zero (0: none do)
pub static mut GHOST_ZERO_SUMS: usize = 0;

#[derive(Debug, Clone, Eq, PartialEq)]
pub struct SecretKey(Scalar);

impl SecretKey {
  pub fn parse(p: &[u8; util::SECRET_KEY_SIZE]) -> Result<SecretKey, Error> {
    let mut e = Scalar::default();
    if !e.set_b32(p) && !e.is_zero() {
      Ok(SecretKey(e))
    } else {
      Err(Error::InvalidSecretKey)
    }
  }
  pub fn parse_slice(p: &[u8]) -> Result<SecretKey, Error> {
    if p.len() != util::SECRET_KEY_SIZE {
      return Err(Error::InvalidInputLength);
    }
    let mut a = [0; 32];
    a.copy_from_slice(p);
    Self::parse(&a)
  }
  pub fn serialize(&self) -> [u8; util::SECRET_KEY_SIZE] {
    self.0.b32()
  }
  pub fn tweak_add_assign(&mut self, tweak: &SecretKey) -> Result<(), Error> {
    let v = self.0.add(&tweak.0);
    // case split, so that a retry on failure stays concrete for the symbolic execution:
    // the harness says how many of the next additions give zero
    unsafe {
      if GHOST_ZERO_SUMS > 0 {
        GHOST_ZERO_SUMS -= 1;
        kani::assume(v.is_zero());
        return Err(Error::TweakOutOfRange);
      }
    }
    kani::assume(!v.is_zero());
    self.0 = v;
    Ok(())
  }
}

/// The affine coordinates of the point.
#[derive(Clone, Eq, PartialEq)]
pub struct PublicKey {
  x: [u8; 32],
  y: [u8; 32]
}
impl std::fmt::Debug for PublicKey {
  fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
    Ok(())
  }
}

impl PublicKey {
  pub fn from_secret_key(k: &SecretKey) -> PublicKey {
    let mut o = [0u8; 64];
    ghost::uf!(SECP_PUB, Buf::from(&k.0.b32()), &mut o);
    Self::raw(&o)
  }
  fn raw(o: &[u8; 64]) -> PublicKey {
    let mut x = [0u8; 32];
    let mut y = [0u8; 32];
    x.copy_from_slice(&o[0..32]);
    y.copy_from_slice(&o[32..64]);
    PublicKey { x, y }
  }
  pub fn serialize(&self) -> [u8; util::FULL_PUBLIC_KEY_SIZE] {
    let mut r = [0u8; 65];
    r[0] = util::TAG_PUBKEY_FULL;
    r[1..33].copy_from_slice(&self.x);
    r[33..65].copy_from_slice(&self.y);
    r
  }
  pub fn serialize_compressed(&self) -> [u8; util::COMPRESSED_PUBLIC_KEY_SIZE] {
    let mut r = [0u8; 33];
    r[0] = if self.y[31] & 1 == 1 { util::TAG_PUBKEY_ODD } else { util::TAG_PUBKEY_EVEN };
    r[1..33].copy_from_slice(&self.x);
    r
  }
}

#[derive(Debug, Clone, Eq, PartialEq)]
pub struct Signature {
  pub r: Scalar,
  pub s: Scalar
}

impl Signature {
  pub fn parse(p: &[u8; util::SIGNATURE_SIZE]) -> Signature {
    let mut a = [0u8; 32];
    let mut b = [0u8; 32];
    a.copy_from_slice(&p[0..32]);
    b.copy_from_slice(&p[32..64]);
    let mut r = Scalar::default();
    let mut s = Scalar::default();
    let _ = r.set_b32(&a);
    let _ = s.set_b32(&b);
    Signature { r, s }
  }
  pub fn parse_slice(p: &[u8]) -> Result<Signature, Error> {
    if p.len() != util::SIGNATURE_SIZE {
      return Err(Error::InvalidInputLength);
    }
    let mut a = [0; util::SIGNATURE_SIZE];
    a.copy_from_slice(p);
    Ok(Self::parse(&a))
  }
  pub fn serialize(&self) -> [u8; util::SIGNATURE_SIZE] {
    let mut r = [0u8; 64];
    r[0..32].copy_from_slice(&self.r.b32());
    r[32..64].copy_from_slice(&self.s.b32());
    r
  }
}

#[derive(Debug, Clone, Copy, Eq, PartialEq)]
pub struct RecoveryId(u8);
impl RecoveryId {
  pub fn parse(p: u8) -> Result<RecoveryId, Error> {
    if p < 4 {
      Ok(RecoveryId(p))
    } else {
      Err(Error::InvalidRecoveryId)
    }
  }
  pub fn serialize(&self) -> u8 {
    self.0
  }
}
impl Into<u8> for RecoveryId {
  fn into(self) -> u8 {
    self.0
  }
}
impl Into<i32> for RecoveryId {
  fn into(self) -> i32 {
    self.0 as i32
  }
}

#[derive(Debug, Clone, Eq, PartialEq)]
pub struct Message(pub Scalar);
impl Message {
  pub fn parse(p: &[u8; util::MESSAGE_SIZE]) -> Message {
    let mut m = Scalar::default();
    let _ = m.set_b32(p);
    Message(m)
  }
  pub fn parse_slice(p: &[u8]) -> Result<Message, Error> {
    if p.len() != util::MESSAGE_SIZE {
      return Err(Error::InvalidInputLength);
    }
    let mut a = [0; util::MESSAGE_SIZE];
    a.copy_from_slice(p);
    Ok(Self::parse(&a))
  }
  pub fn serialize(&self) -> [u8; util::MESSAGE_SIZE] {
    self.0.b32()
  }
}

fn triple<const C: usize>(message: &Message, signature: &Signature) -> Buf<C> {
  Buf::new().part(&message.0.b32()).part(&signature.r.b32()).part(&signature.s.b32())
}

/// Check that a signature is valid for a message and a public key.
pub fn verify(message: &Message, signature: &Signature, pubkey: &PublicKey) -> bool {
  let e = triple(message, signature).part(&pubkey.x).part(&pubkey.y);
  let mut o = [0u8; 1];
  ghost::uf!(SECP_VERIFY, e, &mut o);
  o[0] & 1 == 1
}

pub fn recover(
  message: &Message, signature: &Signature, recovery_id: &RecoveryId
) -> Result<PublicKey, Error> {
  let e = triple(message, signature).num(recovery_id.0 as u64);
  let mut o = [0u8; 65];
  ghost::uf!(SECP_RECOVER, e, &mut o);
  if o[64] & 1 == 0 {
    return Err(Error::InvalidSignature);
  }
  let mut a = [0u8; 64];
  a.copy_from_slice(&o[0..64]);
  Ok(PublicKey::raw(&a))
}

pub fn sign(message: &Message, seckey: &SecretKey) -> Result<(Signature, RecoveryId), Error> {
  let e = Buf::new().part(&message.0.b32()).part(&seckey.0.b32());
  let mut o = [0u8; 66];
  ghost::uf!(SECP_SIGN, e, &mut o);
  if o[65] & 1 == 1 {
    return Err(Error::InvalidMessage);
  }
  let mut sig = [0u8; 64];
  sig.copy_from_slice(&o[0..64]);
  let signature = Signature::parse(&sig);
  let recid = RecoveryId(o[64] & 3);
  let public = PublicKey::from_secret_key(seckey);
  kani::assume(!signature.r.is_zero() && !signature.s.is_zero());
  kani::assume(verify(message, &signature, &public));
  Ok((signature, recid))
}
