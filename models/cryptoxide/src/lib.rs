//! Assumed contract on `cryptoxide` 0.1: same API, every primitive an uninterpreted function of
//! exactly the bytes it is given (see `ghost`).  What the real functions compute is NOT modelled.
#![cfg(kani)]
extern crate ghost;
use ghost::{uf, Buf};

pub mod digest {
  pub trait Digest {
    fn input(&mut self, input: &[u8]);
    fn result(&mut self, out: &mut [u8]);
    fn reset(&mut self);
    fn output_bits(&self) -> usize;
    fn output_bytes(&self) -> usize {
      (self.output_bits() + 7) / 8
    }
    fn block_size(&self) -> usize;
    fn input_str(&mut self, input: &str) {
      self.input(input.as_bytes());
    }
    fn ghost_hmac(key: &[u8], data: &[u8], out: &mut [u8]);
    /// distinguishes PBKDF2 over different MACs
    fn ghost_id() -> u64;
  }
}

macro_rules! digest {
  ($name:ident, $cap:expr, $bytes:expr, $block:expr, $fun:ident, $hmac:ident, $id:expr) => {
    #[derive(Clone)]
    pub struct $name {
      data: Buf<$cap>
    }
    impl $name {
      pub fn new() -> Self {
        $name { data: Buf::new() }
      }
    }
    impl crate::digest::Digest for $name {
      fn input(&mut self, input: &[u8]) {
        self.data.push(input);
      }
      fn result(&mut self, out: &mut [u8]) {
        assert!(out.len() >= $bytes, "digest output buffer too small");
        uf!($fun, self.data, &mut out[..$bytes]);
      }
      fn reset(&mut self) {
        self.data = Buf::new();
      }
      fn output_bits(&self) -> usize {
        $bytes * 8
      }
      fn block_size(&self) -> usize {
        $block
      }
      fn ghost_hmac(key: &[u8], data: &[u8], out: &mut [u8]) {
        uf!($hmac, Buf::new().part(key).part(data), out);
      }
      fn ghost_id() -> u64 {
        $id
      }
    }
  };
}

pub mod sha2 {
  use super::*;
  digest!(Sha256, 80, 32, 64, SHA256, HMAC_SHA256, 256);
  digest!(Sha512, 64, 64, 128, SHA512, HMAC_SHA512, 512);
}
pub mod sha1 {
  use super::*;
  digest!(Sha1, 64, 20, 64, SHA1, HMAC_SHA256, 1);
}
pub mod ripemd160 {
  use super::*;
  digest!(Ripemd160, 40, 20, 64, RIPEMD160, HMAC_SHA256, 160);
}

pub mod sha3 {
  use super::*;
  use crate::digest::Digest;
  #[derive(Clone)]
  pub struct Sha3 {
    data: Buf<64>,
    keccak256: bool,
    bytes: usize
  }
  impl Sha3 {
    fn mk(keccak256: bool, bytes: usize) -> Self {
      Sha3 { data: Buf::new(), keccak256, bytes }
    }
    pub fn keccak256() -> Self {
      Self::mk(true, 32)
    }
    pub fn keccak512() -> Self {
      Self::mk(false, 64)
    }
    pub fn sha3_256() -> Self {
      Self::mk(false, 32)
    }
    pub fn sha3_512() -> Self {
      Self::mk(false, 64)
    }
  }
  impl Digest for Sha3 {
    fn input(&mut self, input: &[u8]) {
      self.data.push(input);
    }
    fn result(&mut self, out: &mut [u8]) {
      let n = self.bytes;
      assert!(out.len() >= n, "digest output buffer too small");
      if self.keccak256 {
        uf!(KECCAK256, self.data, &mut out[..32]);
      } else {
        uf!(SHA3, self.data, &mut out[..n]);
      }
    }
    fn reset(&mut self) {
      self.data = Buf::new();
    }
    fn output_bits(&self) -> usize {
      self.bytes * 8
    }
    fn block_size(&self) -> usize {
      136
    }
    fn ghost_hmac(key: &[u8], data: &[u8], out: &mut [u8]) {
      uf!(HMAC_SHA256, Buf::new().part(key).part(data), out);
    }
    fn ghost_id() -> u64 {
      3
    }
  }
}

pub mod mac {
  pub trait Mac {
    fn input(&mut self, data: &[u8]);
    fn reset(&mut self);
    fn result(&mut self) -> MacResult;
    fn raw_result(&mut self, output: &mut [u8]);
    fn output_bytes(&self) -> usize;
    fn ghost_pbkdf2(&self, salt: &[u8], c: u32, output: &mut [u8]);
  }

  pub struct MacResult {
    code: Vec<u8>
  }
  impl MacResult {
    pub fn new(code: &[u8]) -> MacResult {
      MacResult { code: code.to_vec() }
    }
    pub fn new_from_owned(code: Vec<u8>) -> MacResult {
      MacResult { code }
    }
    pub fn code<'s>(&'s self) -> &'s [u8] {
      &self.code[..]
    }
  }
  impl PartialEq for MacResult {
    fn eq(&self, x: &MacResult) -> bool {
      ghost::same(self.code(), x.code())
    }
  }
  impl Eq for MacResult {}
}

pub mod hmac {
  use super::*;
  use crate::digest::Digest;
  use crate::mac::{Mac, MacResult};

  pub struct Hmac<D> {
    digest: D,
    key: Buf<96>,
    data: Buf<96>,
    finished: bool
  }
  impl<D: Digest> Hmac<D> {
    pub fn new(digest: D, key: &[u8]) -> Hmac<D> {
      Hmac { digest, key: Buf::from(key), data: Buf::new(), finished: false }
    }
  }
  impl<D: Digest> Mac for Hmac<D> {
    fn input(&mut self, data: &[u8]) {
      assert!(!self.finished);
      self.data.push(data);
    }
    fn reset(&mut self) {
      self.data = Buf::new();
      self.finished = false;
    }
    fn result(&mut self) -> MacResult {
      let n = self.digest.output_bytes();
      let mut code = vec![0u8; n];
      self.raw_result(&mut code);
      MacResult::new_from_owned(code)
    }
    fn raw_result(&mut self, output: &mut [u8]) {
      let n = self.digest.output_bytes();
      assert!(output.len() >= n, "mac output buffer too small");
      D::ghost_hmac(self.key.as_slice(), self.data.as_slice(), &mut output[..n]);
      self.finished = true;
    }
    fn output_bytes(&self) -> usize {
      self.digest.output_bytes()
    }
    fn ghost_pbkdf2(&self, salt: &[u8], c: u32, output: &mut [u8]) {
      assert!(self.data.n == 0 && !self.finished, "PBKDF2 over a used MAC");
      let n = ((output.len() as u64) << 32) | c as u64;
      let e = Buf::new().part(self.key.as_slice()).part(salt).num(n).num(D::ghost_id());
      uf!(PBKDF2, e, output);
    }
  }
}

pub mod pbkdf2 {
  use crate::mac::Mac;
  pub fn pbkdf2<M: Mac>(mac: &mut M, salt: &[u8], c: u32, output: &mut [u8]) {
    assert!(c > 0);
    mac.ghost_pbkdf2(salt, c, output);
  }
}

pub mod util {
  pub fn fixed_time_eq(lhs: &[u8], rhs: &[u8]) -> bool {
    ghost::same(lhs, rhs)
  }
}

pub mod chacha20poly1305 {
  use super::*;
  /// Assumed contract: encryption is data XOR a key stream determined by (key, nonce), with a tag
  /// determined by (key, nonce, aad, ciphertext); decryption succeeds exactly when the tag given is
  /// that tag, and then undoes the XOR.
  #[derive(Clone)]
  pub struct ChaCha20Poly1305 {
    key: Buf<32>,
    nonce: Buf<12>,
    aad: Buf<16>,
    finished: bool
  }
  impl ChaCha20Poly1305 {
    pub fn new(key: &[u8], nonce: &[u8], aad: &[u8]) -> Self {
      assert!(key.len() == 16 || key.len() == 32);
      assert!(nonce.len() == 8 || nonce.len() == 12);
      ChaCha20Poly1305 {
        key: Buf::from(key),
        nonce: Buf::from(nonce),
        aad: Buf::from(aad),
        finished: false
      }
    }
    fn xor(&self, input: &[u8], output: &mut [u8]) {
      let e = Buf::new().part(self.key.as_slice()).part(self.nonce.as_slice());
      let mut stream = [0u8; 96];
      uf!(CHACHA, e, &mut stream);
      assert!(input.len() <= stream.len(), "ghost: input longer than the model's capacity");
      let mut i = 0;
      while i < input.len() {
        output[i] = input[i] ^ stream[i];
        i += 1;
      }
    }
    fn tag(&self, ct: &[u8]) -> [u8; 16] {
      let e = Buf::new()
        .part(self.key.as_slice())
        .part(self.nonce.as_slice())
        .part(self.aad.as_slice())
        .part(ct);
      let mut t = [0u8; 16];
      uf!(POLY, e, &mut t);
      t
    }
    pub fn encrypt(&mut self, input: &[u8], output: &mut [u8], out_tag: &mut [u8]) {
      assert!(input.len() == output.len());
      assert!(!self.finished);
      assert!(out_tag.len() == 16);
      self.finished = true;
      self.xor(input, output);
      out_tag.copy_from_slice(&self.tag(output));
    }
    pub fn decrypt(&mut self, input: &[u8], output: &mut [u8], tag: &[u8]) -> bool {
      assert!(tag.len() == 16);
      assert!(input.len() == output.len());
      assert!(!self.finished);
      self.finished = true;
      let ok = ghost::same(&self.tag(input), tag);
      if ok {
        self.xor(input, output);
      }
      ok
    }
  }
}
