//! Ghost state for the *assumed contracts* on external dependencies.
//!
//! `uf(tag, input, out)` is an uninterpreted function: the output is arbitrary, but the same
//! (tag, input) always gives the same output bytes.  Nothing else is assumed about hashes, MACs,
//! key derivation or elliptic-curve operations (in particular NOT collision freedom).
//!
//! Every call takes a fresh output and *assumes* functional consistency with every earlier call of
//! the same function (Ackermann's encoding).  Each function has its own small table; a call beyond
//! the table's capacity, or with an input longer than it, fails the proof (it is never cut off).


/// A byte string of bounded capacity, zero beyond its length.
#[derive(Clone, Copy)]
pub struct Buf<const CAP: usize = 128> {
  pub b: [u8; CAP],
  pub n: usize
}

impl<const CAP: usize> Buf<CAP> {
  pub const fn new() -> Self {
    Buf { b: [0; CAP], n: 0 }
  }
  pub fn push(&mut self, d: &[u8]) {
    let n = self.n;
    let m = d.len();
    assert!(m <= CAP && n + m <= CAP, "ghost: input longer than the model's capacity");
    self.b[n..n + m].copy_from_slice(d);
    self.n = n + m;
  }
  /// a part preceded by its length: concatenations are unambiguous
  pub fn part(mut self, d: &[u8]) -> Self {
    self.push(&(d.len() as u16).to_le_bytes());
    self.push(d);
    self
  }
  pub fn num(mut self, n: u64) -> Self {
    self.push(&n.to_le_bytes());
    self
  }
  pub fn as_slice(&self) -> &[u8] {
    &self.b[..self.n]
  }
  pub fn from(d: &[u8]) -> Self {
    let mut b = Buf::new();
    b.push(d);
    b
  }
}

/// equality without early exit; `n` is a length in bytes, arrays are zero beyond it
fn eq_bytes(a: &[u8], b: &[u8], n: usize) -> bool {
  let mut d: u8 = 0;
  let mut i = 0;
  while i < n {
    d |= a[i] ^ b[i];
    i += 1;
  }
  d == 0
}

/// Equality of two byte strings, length first, no early exit on contents.
pub fn same(a: &[u8], b: &[u8]) -> bool {
  a.len() == b.len() && eq_bytes(a, b, a.len())
}

/// One uninterpreted function: at most `SLOTS` calls, inputs up to `CAP` bytes, outputs up to `OUT`.
pub struct Fun<const CAP: usize, const OUT: usize, const SLOTS: usize> {
  input: [Buf<CAP>; SLOTS],
  out: [[u8; OUT]; SLOTS],
  used: [bool; SLOTS]
}

impl<const CAP: usize, const OUT: usize, const SLOTS: usize> Fun<CAP, OUT, SLOTS> {
  pub const fn new() -> Self {
    Fun { input: [Buf::new(); SLOTS], out: [[0; OUT]; SLOTS], used: [false; SLOTS] }
  }

  /// how many calls were answered so far
  pub fn calls(&self) -> usize {
    let mut n = 0;
    let mut i = 0;
    while i < SLOTS {
      n += self.used[i] as usize;
      i += 1;
    }
    n
  }

  #[cfg(kani)]
  pub fn call(&mut self, input: &Buf<CAP>, out: &mut [u8]) {
    assert!(out.len() <= OUT, "ghost: output wider than the model");
    let fresh: [u8; OUT] = kani::any();
    let mut stored = false;
    let mut i = 0;
    while i < SLOTS {
      if self.used[i] {
        if self.input[i].n == input.n {
          kani::assume(
            !eq_bytes(&self.input[i].b, &input.b, input.n) || eq_bytes(&self.out[i], &fresh, OUT)
          );
        }
      } else if !stored {
        self.input[i] = *input;
        self.out[i] = fresh;
        self.used[i] = true;
        stored = true;
        break;
      }
      i += 1;
    }
    assert!(stored, "ghost: more calls than the model's capacity");
    out.copy_from_slice(&fresh[..out.len()]);
  }
}

macro_rules! functions {
  ($($(#[$m:meta])* $name:ident($cap:expr, $out:expr, $slots:expr);)*) => {
    $($(#[$m])* pub static mut $name: Fun<$cap, $out, $slots> = Fun::new();)*
  };
}

functions! {
  SHA256(80, 32, 10);
  SHA512(64, 64, 3);
  SHA1(64, 20, 2);
  SHA3(64, 64, 2);
  KECCAK256(64, 32, 4);
  RIPEMD160(40, 20, 3);
  HMAC_SHA512(112, 64, 6);
  HMAC_SHA256(112, 32, 3);
  PBKDF2(128, 64, 4);
  CHACHA(48, 96, 4);
  POLY(160, 16, 4);
  SECP_PUB(32, 64, 6);
  SECP_SIGN(72, 66, 3);
  SECP_VERIFY(176, 1, 4);
  SECP_RECOVER(97, 65, 3);
  XPRV_LOAD(80, 8, 4);
  XPRV_SEED(64, 8, 4);
  XPRV_STORE(8, 77, 4);
  XPRV_SIGN(32, 65, 3);
  XPRV_DERIVE(16, 8, 16);
  XPUB_STORE(8, 65, 4);
  XPUB_VERIFY(96, 1, 4);
  NET_KEY(96, 3, 6);
  ED_LOAD(96, 8, 4);
  ED_DERIVE(20, 8, 12);
  ED_PUB(8, 64, 6);
  ED_SIGN(40, 64, 3);
  ED_VERIFY(160, 1, 4);
}

/// call an uninterpreted function
#[macro_export]
macro_rules! uf {
  ($name:ident, $input:expr, $out:expr) => {
    #[allow(static_mut_refs)]
    unsafe {
      $crate::$name.call(&$input, $out)
    }
  };
}
