//! Contracts of the `secp256k1_bip32` crate (properties C09-C11).
use cryptoxide::{digest::Digest, hmac::Hmac, mac::Mac, sha2::{Sha256, Sha512}, sha3::Sha3};
use ripemd160::{Digest as RipeDigest, Ripemd160};
use rt::*;
use secp256k1::{Message, PublicKey, SecretKey, Signature};
use secp256k1_bip32::{KeyError, XPrv};

// ---------------------------------------------------------------- specification functions

fn sha256(d: &[u8]) -> [u8; 32] {
  let mut h = Sha256::new();
  Digest::input(&mut h, d);
  let mut o = [0u8; 32];
  Digest::result(&mut h, &mut o);
  o
}

fn keccak(d: &[u8]) -> [u8; 32] {
  let mut h = Sha3::keccak256();
  Digest::input(&mut h, d);
  let mut o = [0u8; 32];
  Digest::result(&mut h, &mut o);
  o
}

fn hmac512(k: &[u8], d: &[u8]) -> [u8; 64] {
  let mut mac = Hmac::new(Sha512::new(), k);
  mac.input(d);
  let res = mac.result();
  let mut o = [0u8; 64];
  o.copy_from_slice(res.code());
  o
}

type Num = (u128, u128);
/// the order of the group
const N: Num = (0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFE, 0xBAAEDCE6AF48A03BBFD25E8CD0364141);

fn num(b: &[u8]) -> Num {
  let (mut h, mut l) = ([0u8; 16], [0u8; 16]);
  h.copy_from_slice(&b[..16]);
  l.copy_from_slice(&b[16..32]);
  (u128::from_be_bytes(h), u128::from_be_bytes(l))
}

fn less(a: Num, b: Num) -> bool {
  a.0 < b.0 || (a.0 == b.0 && a.1 < b.1)
}

fn valid_secret(b: &[u8]) -> bool {
  let n = num(b);
  n != (0, 0) && less(n, N)
}

/// (a + b) modulo the order, both below it
fn add_mod(a: Num, b: Num) -> Num {
  let (l, c) = a.1.overflowing_add(b.1);
  let (h1, c1) = a.0.overflowing_add(b.0);
  let (h, c2) = h1.overflowing_add(c as u128);
  if c1 || c2 || !less((h, l), N) {
    let (l2, borrow) = l.overflowing_sub(N.1);
    (h.wrapping_sub(N.0).wrapping_sub(borrow as u128), l2)
  } else {
    (h, l)
  }
}

fn keep<T>(t: T) -> std::mem::ManuallyDrop<T> {
  std::mem::ManuallyDrop::new(t)
}

/// any 77 bytes with a right checksum
fn any_stored() -> [u8; 77] {
  let mut d: [u8; 77] = any();
  let c = sha256(&sha256(&d[..73]));
  d[73..77].copy_from_slice(&c[..4]);
  d
}

/// any extended private key, and the bytes it is stored as
fn any_key() -> ([u8; 77], std::mem::ManuallyDrop<XPrv>) {
  let d = any_stored();
  assume(valid_secret(&d[41..73]));
  match XPrv::from_data(&d) {
    Ok(k) => (d, keep(k)),
    Err(_) => panic!("a valid stored key was refused")
  }
}

fn public_of(secret: &[u8]) -> PublicKey {
  let mut a = [0u8; 32];
  a.copy_from_slice(secret);
  match SecretKey::parse(&a) {
    Ok(k) => PublicKey::from_secret_key(&k),
    Err(_) => panic!()
  }
}

/// what BIP32 says about the child of `d` at `index`: (left half, chain code, fingerprint)
fn bip32(d: &[u8; 77], index: u32) -> ([u8; 64], [u8; 4]) {
  let comp = public_of(&d[41..73]).serialize_compressed();
  let mut input = [0u8; 37];
  if index >= 0x8000_0000 {
    input[1..33].copy_from_slice(&d[41..73]);
  } else {
    input[0..33].copy_from_slice(&comp);
  }
  input[33..37].copy_from_slice(&index.to_be_bytes());
  let i = hmac512(&d[9..41], &input);
  let mut r = Ripemd160::new();
  RipeDigest::input(&mut r, &sha256(&comp)[..]);
  let r = r.result();
  let mut f = [0u8; 4];
  f.copy_from_slice(&r[..4]);
  (i, f)
}

/// `c` is the child of `d` at `index`
fn is_child(d: &[u8; 77], index: u32, c: &XPrv) {
  let (i, f) = bip32(d, index);
  let s = keep(c.serialize());
  assert!(s.len() == 77);
  assert!(valid_secret(&i[..32]), "a left half out of range was used");
  assert!(d[0] < 255 && s[0] == d[0] + 1, "depth of the child");
  assert!(same(&s[1..5], &f), "fingerprint of the child");
  assert!(same(&s[5..9], &index.to_be_bytes()), "index of the child");
  assert!(same(&s[9..41], &i[32..64]), "chain code of the child");
  assert!(num(&s[41..73]) == add_mod(num(&d[41..73]), num(&i[..32])), "secret of the child");
}

fn child(hardened: bool) {
  let (d, k) = any_key();
  let mut index: u32 = any_of(&[0, 1, 44 | 1 << 31, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff]);
  #[cfg(not(kani))]
  { index = index & 0x7fff_ffff | (hardened as u32) << 31; }
  assume((index >= 0x8000_0000) == hardened);
  let r = keep(k.derive(index));
  match *r {
    Ok(ref c) => {
      is_child(&d, index, c);
      reach(true);
    }
    Err(KeyError::DeriveDepthTooBig) => assert!(d[0] == 255),
    Err(_) => {
      let (i, _) = bip32(&d, index);
      assert!(!valid_secret(&i[..32]), "a child that exists was refused");
    }
  }
}

/// the sum of the first number tried is zero: the next number is used, never one of the other range
#[cfg(kani)]
fn retry(hardened: bool) {
  let (d, k) = any_key();
  assume(d[0] < 255);
  let index: u32 = any();
  assume((index >= 0x8000_0000) == hardened);
  unsafe { secp256k1::GHOST_ZERO_SUMS = 1 };
  let last = index == 0x7fff_ffff || index == 0xffff_ffff;
  let r = keep(k.derive(index));
  match *r {
    Ok(ref c) => {
      assert!(!last, "a child of the other range was derived");
      is_child(&d, index + 1, c);
      reach(true);
    }
    Err(_) => {
      let (i, _) = bip32(&d, index);
      if valid_secret(&i[..32]) && !last {
        let (i, _) = bip32(&d, index + 1);
        assert!(!valid_secret(&i[..32]), "a child that exists was refused");
      }
    }
  }
}
#[cfg(not(kani))]
fn retry(_: bool) {}

fn verify(n: usize) {
  let (d, k) = any_key();
  let p = keep(k.public());
  let data: Bytes<9> = Bytes::any();
  let sig: [u8; 66] = any();
  // natively most signatures would be wrong: use the right one half of the time
  #[cfg(not(kani))]
  let sig = {
    let mut s = sig;
    if any::<bool>() {
      s[..65].copy_from_slice(&k.sign(data.get()).unwrap());
    }
    if any::<bool>() {
      s[64] = any_of(&[0, 1, 2, 255]);
    }
    s
  };
  let want = secp256k1::verify(
    &Message::parse(&keccak(data.get())),
    &{
      let mut a = [0u8; 64];
      a.copy_from_slice(&sig[..64]);
      Signature::parse(&a)
    },
    &public_of(&d[41..73])
  );
  match p.verify(data.get(), &sig[..n]) {
    Ok(v) => {
      assert!(n == 64 || (n == 65 && sig[64] <= 1), "a signature of another form was accepted");
      assert!(v == want, "not the answer of ECDSA over the Keccak-256 digest");
      reach(true);
    }
    Err(_) => assert!(n == 65 && sig[64] > 1, "a signature of the right size was refused")
  }
}

contracts! {
  // ------------------------------------------------------------------ C09
  c09_stored [80] {
    let mut d: [u8; 77] = any();
    // natively a right checksum is made half of the time
    #[cfg(not(kani))]
    if any::<bool>() {
      let c = sha256(&sha256(&d[..73]));
      d[73..77].copy_from_slice(&c[..4]);
      if any::<bool>() { d[73 + any::<u8>() as usize % 4] ^= 1 << (any::<u8>() % 8); }
    }
    let right = same(&sha256(&sha256(&d[..73]))[..4], &d[73..77]);
    match *keep(XPrv::from_data(&d)) {
      Ok(ref k) => {
        assert!(right, "a wrong checksum was accepted");
        assert!(valid_secret(&d[41..73]), "a secret out of range was accepted");
        let s = keep(k.serialize());
        assert!(s.len() == 77, "size of the stored key");
        assert!(same(&s[..], &d), "loading and storing changes the key");
        reach(true);
      }
      Err(_) => assert!(!right || !valid_secret(&d[41..73]), "a valid stored key was refused")
    }
  }

  c09_other_sizes [80] {
    #[cfg(kani)]
    let (a, n): ([u8; 80], usize) = (any(), any());
    #[cfg(kani)]
    let s: &[u8] = unsafe { std::mem::transmute(std::ptr::slice_from_raw_parts(a.as_ptr(), n)) };
    #[cfg(not(kani))]
    let a: Vec<u8> = { let d = any_stored(); let n = upto(160); d.iter().chain(d.iter()).chain(d.iter()).take(n).cloned().collect() };
    #[cfg(not(kani))]
    let s: &[u8] = &a[..];
    assume(s.len() != 77);
    assert!(keep(XPrv::from_data(s)).is_err(), "a stored key of another size was accepted");
    reach(true);
  }

  // ------------------------------------------------------------------ C10
  c10_master [120] {
    let b: [u8; 64] = any();
    let i = hmac512(b"Bitcoin seed", &b);
    let seed = keep(bip39::Seed::from_bytes(b));
    match *keep(XPrv::from_seed(&seed)) {
      Ok(ref k) => {
        assert!(valid_secret(&i[..32]));
        let s = keep(k.serialize());
        assert!(s.len() == 77 && same(&s[..9], &[0; 9]), "depth, fingerprint and index of the master key");
        assert!(same(&s[9..41], &i[32..]), "chain code of the master key");
        assert!(same(&s[41..73], &i[..32]), "secret of the master key");
        reach(true);
      }
      Err(_) => assert!(!valid_secret(&i[..32]), "a seed with a master key was refused")
    }
  }
  c10_child_normal [80] { child(false) }
  c10_child_hardened [80] { child(true) }
  c10_depth [80] {
    let mut d = any_stored();
    d[0] = 255;
    let c = sha256(&sha256(&d[..73]));
    d[73..77].copy_from_slice(&c[..4]);
    assume(valid_secret(&d[41..73]));
    let k = match XPrv::from_data(&d) { Ok(k) => keep(k), Err(_) => panic!() };
    assert!(keep(k.derive(any())).is_err(), "a child deeper than 255 was derived");
    reach(true);
  }
  c10_retry_normal [80] { retry(false) }
  c10_retry_hardened [80] { retry(true) }

  // ------------------------------------------------------------------ C11
  c11_sign [180] {
    let (d, k) = any_key();
    let data: Bytes<9> = Bytes::any();
    let msg = Message::parse(&keccak(data.get()));
    let mut secret = [0u8; 32];
    secret.copy_from_slice(&d[41..73]);
    let want = secp256k1::sign(&msg, &SecretKey::parse(&secret).unwrap());
    match *keep(k.sign(data.get())) {
      Ok(ref s) => match want {
        Ok((w, r)) => {
          assert!(s.len() == 65, "size of a signature");
          assert!(same(&s[..32], &w.r.b32()) && same(&s[32..64], &w.s.b32()), "not the signature of the digest");
          assert!(s[64] == r.serialize() && s[64] <= 1, "recovery id");
          let p = keep(k.public());
          let mut a = [0u8; 65];
          a.copy_from_slice(&s[..]);
          match p.verify(data.get(), &a) { Ok(v) => assert!(v, "its own signature is wrong"), Err(_) => assert!(false, "its own signature was refused") }
          match p.verify(data.get(), &a[..64]) { Ok(v) => assert!(v, "its own signature is wrong"), Err(_) => assert!(false, "its own signature was refused") }
          reach(true);
        }
        Err(_) => assert!(false)
      },
      Err(_) => match want {
        Ok((_, r)) => assert!(r.serialize() > 1, "no signature"),
        Err(_) => {}
      }
    }
  }
  c11_verify_64 [180] { verify(64) }
  c11_verify_65 [180] { verify(65) }
  c11_other_sizes [180] {
    let (_, k) = any_key();
    #[cfg(kani)]
    let (a, n): ([u8; 80], usize) = (any(), any());
    #[cfg(kani)]
    let s: &[u8] = unsafe { std::mem::transmute(std::ptr::slice_from_raw_parts(a.as_ptr(), n)) };
    let data: [u8; 3] = any();
    #[cfg(not(kani))]
    let a: Vec<u8> = { let n = upto(140); let d = k.sign(&data).unwrap(); d.iter().chain(d.iter()).chain(d.iter()).take(n).cloned().collect() };
    #[cfg(not(kani))]
    let s: &[u8] = &a[..];
    assume(s.len() != 64 && s.len() != 65);
    match k.public().verify(&data, s) {
      Err(_) => reach(true),
      Ok(_) => assert!(false, "a signature of another size was not refused")
    }
  }
}

#[cfg(not(kani))]
mod natives {
  use super::*;

  /// one derivation after the other, along any path from any seed, with the real primitives
  pub fn c10_chain() {
    let b: [u8; 64] = any();
    let mut k = XPrv::from_seed(&bip39::Seed::from_bytes(b)).unwrap();
    for _ in 0..upto(6) {
      let index: u32 = any_of(&[0, 1, 44 | 1 << 31, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff]);
      let mut d = [0u8; 77];
      d.copy_from_slice(&k.serialize());
      k = k.derive(index).unwrap();
      is_child(&d, index, &k);
    }
  }

  pub fn c11_history() {
    // the answers depend on nothing but key, data and signature
    let (_, k) = any_key();
    let p = k.public();
    let mut seen: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
    for _ in 0..upto(3) + 1 {
      let n = upto(200);
      let data: Vec<u8> = (0..n).map(|_| any::<u8>()).collect();
      let s = k.sign(&data).unwrap();
      assert!(s.len() == 65 && s[64] <= 1);
      seen.push((data, s));
    }
    for (d, s) in &seen {
      assert!(&k.sign(d).unwrap() == s, "another signature for the same data");
      assert!(p.verify(d, s).unwrap() && p.verify(d, &s[..64]).unwrap(), "a signature of the key is refused");
      for (e, _) in &seen {
        if e != d {
          assert!(!p.verify(e, s).unwrap(), "a signature is accepted for other data");
        }
      }
    }
  }
}
#[cfg(not(kani))]
pub const NATIVE: &[(&str, fn())] = &[("c10_chain", natives::c10_chain), ("c11_history", natives::c11_history)];
