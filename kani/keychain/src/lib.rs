//! Contracts of the `keychain` crate (properties C12-C23).
use cryptoxide::{chacha20poly1305::ChaCha20Poly1305, digest::Digest, hmac::Hmac, pbkdf2::pbkdf2, sha2::Sha512};
use ed25519_bip32 as ed;
use keychain::networks::{bitcoin, cardano, ethereum};
use keychain::{crypt, Entropy, Key, KeyError, KeyFactory, KeyPath, Network};
#[cfg(kani)]
use keychain::{KeychainManager, SeedSize};
use rt::*;
use secp256k1_bip32::XPrv;
use std::cell::RefCell;

// ---------------------------------------------------------------- helpers

/// results are not dropped: keeps the proofs small
fn keep<T>(t: T) -> std::mem::ManuallyDrop<T> {
  std::mem::ManuallyDrop::new(t)
}

/// a slice of any length; under Kani the length is unbounded (only its address and size are used)
macro_rules! any_length_slice {
  ($a:ident, $s:ident) => {
    #[cfg(kani)]
    let ($a, n): ([u8; 112], usize) = (any(), any());
    #[cfg(kani)]
    assume(n <= usize::MAX / 16);
    #[cfg(kani)]
    let $s: &[u8] = unsafe { std::mem::transmute(std::ptr::slice_from_raw_parts($a.as_ptr(), n)) };
    #[cfg(not(kani))]
    let $a: Vec<u8> = { let n = upto(300); (0..n).map(|_| any::<u8>()).collect() };
    #[cfg(not(kani))]
    let $s: &[u8] = &$a[..];
  };
}

const HARD: u32 = 1 << 31;
const PURPOSE: u8 = 1;
const COIN: u8 = 2;
const ACCOUNT: u8 = 3;
const CHANGE: u8 = 4;
const ADDRESS: u8 = 5;

/// which part of a path an error names, and its value; None for any other error
trait Offending {
  fn offending(&self) -> Option<(u8, u32)>;
}
#[cfg(kani)]
impl Offending for keychain::verif_exports::KeyPathError {
  fn offending(&self) -> Option<(u8, u32)> {
    use keychain::verif_exports::KeyPathError::*;
    match *self {
      InvalidPurpose(v, _) => Some((PURPOSE, v)),
      InvalidCoin(v, _) => Some((COIN, v)),
      InvalidAccount(v) => Some((ACCOUNT, v)),
      InvalidChange(v) => Some((CHANGE, v)),
      InvalidAddress(v) => Some((ADDRESS, v)),
      _ => None
    }
  }
}
#[cfg(not(kani))]
impl<E: std::fmt::Debug> Offending for E {
  fn offending(&self) -> Option<(u8, u32)> {
    let t = format!("{:?}", self);
    let (name, rest) = t.split_at(t.find('(')?);
    let v: String = rest[1..].chars().take_while(|c| c.is_ascii_digit()).collect();
    let part = match name {
      "InvalidPurpose" => PURPOSE,
      "InvalidCoin" => COIN,
      "InvalidAccount" => ACCOUNT,
      "InvalidChange" => CHANGE,
      "InvalidAddress" => ADDRESS,
      _ => return None
    };
    v.parse().ok().map(|v| (part, v))
  }
}

fn any_number() -> u32 {
  any_of(&[0, 1, 2, 44, HARD - 1, HARD, HARD + 1, HARD + 44, HARD + 60, HARD + 1815, u32::MAX])
}

// ---------------------------------------------------------------- C12

/// `r` is the path of a network with these parts exactly when they are valid
fn path_is<P: KeyPath, E: Offending>(
  r: Result<P, E>, purpose: u32, coin: u32, account: u32, change: u32, address: u32, reported: &[u8]
) {
  let r = keep(r);
  let bad = if account >= HARD && reported[0] == ACCOUNT {
    Some((ACCOUNT, account))
  } else if change > 1 {
    Some((CHANGE, change))
  } else if address >= HARD {
    Some((reported[1], address))
  } else {
    None
  };
  match (&*r, bad) {
    (Ok(p), None) => {
      assert!(p.purpose() == purpose, "purpose of the path");
      assert!(p.coin() == coin, "coin of the path");
      assert!(p.account() == account + HARD, "account of the path");
      assert!(p.change() == change, "change of the path");
      assert!(p.address() == address, "address of the path");
      reach(true);
    }
    (Err(e), Some(b)) => {
      assert!(e.offending() == Some(b), "the first offending part and its value are reported");
      reach(true);
    }
    (Ok(_), Some(_)) => assert!(false, "an invalid path was built"),
    (Err(_), None) => assert!(false, "a valid path was refused")
  }
}

// ---------------------------------------------------------------- C13

#[derive(Clone, Copy)]
struct AnyPath([u32; 5]);
impl KeyPath for AnyPath {
  fn purpose(&self) -> u32 {
    self.0[0]
  }
  fn coin(&self) -> u32 {
    self.0[1]
  }
  fn account(&self) -> u32 {
    self.0[2]
  }
  fn change(&self) -> u32 {
    self.0[3]
  }
  fn address(&self) -> u32 {
    self.0[4]
  }
}

#[derive(Clone, Copy, PartialEq)]
enum Net {
  Eth,
  Btc,
  Ada
}
impl Net {
  fn coin(self) -> u32 {
    HARD + match self { Net::Eth => 60, Net::Btc => 0, Net::Ada => 1815 }
  }
  fn network(self) -> Network {
    match self { Net::Eth => Network::ETHEREUM, Net::Btc => Network::BITCOIN, Net::Ada => Network::CARDANO }
  }
  fn load(self, data: &[u8]) -> Result<Box<dyn Key>, KeyError> {
    match self {
      Net::Eth => ethereum::KeyFactory::new().key_from_data(data),
      Net::Btc => bitcoin::KeyFactory::new().key_from_data(data),
      Net::Ada => cardano::KeyFactory::new().key_from_data(data)
    }
  }
  fn data_from_seed(self, seed: &[u8]) -> Result<Vec<u8>, KeyError> {
    match self {
      Net::Eth => ethereum::KeyFactory::new().key_data_from_seed(seed),
      Net::Btc => bitcoin::KeyFactory::new().key_data_from_seed(seed),
      Net::Ada => cardano::KeyFactory::new().key_data_from_seed(seed)
    }
  }
  fn any_path(self) -> AnyPath {
    let p = AnyPath([
      any_of(&[HARD + 44, HARD + 49, HARD + 84, 44]),
      any_of(&[self.coin(), self.coin() + 1, self.coin() - HARD, HARD, HARD + 60, HARD + 1815]),
      any_of(&[HARD, HARD + 1, u32::MAX, 0, HARD - 1]),
      any_of(&[0, 1, 2, HARD, HARD + 1]),
      any_of(&[0, 1, 5, HARD - 1, HARD, u32::MAX])
    ]);
    // half of the native runs look at accepted paths, the others at one offending part
    #[cfg(not(kani))]
    {
      let good = AnyPath([HARD + 44, self.coin(), p.0[2] | HARD, p.0[3] & 1, p.0[4] & (HARD - 1)]);
      let mut q = good;
      let k = upto(9);
      if k < 5 {
        q.0[k] = p.0[k];
      }
      return if upto(9) == 0 { p } else { q };
    }
    #[cfg(kani)]
    p
  }
  /// the parts this network does not accept
  fn offends(self, p: &AnyPath, part: u8) -> bool {
    match part {
      PURPOSE => self != Net::Btc && p.0[0] != HARD + 44,
      COIN => p.0[1] != self.coin(),
      ACCOUNT => p.0[2] < HARD,
      CHANGE => p.0[3] > 1,
      ADDRESS => p.0[4] >= HARD,
      _ => false
    }
  }
  fn accepts(self, p: &AnyPath) -> bool {
    let mut i = 1;
    while i <= 5 {
      if self.offends(p, i) {
        return false;
      }
      i += 1;
    }
    true
  }
}

/// stored bytes of any key of the network
fn any_secp_data() -> [u8; 77] {
  #[cfg(kani)]
  {
    any()
  }
  #[cfg(not(kani))]
  {
    let s: [u8; 64] = any();
    let mut d = [0u8; 77];
    d.copy_from_slice(&XPrv::from_seed(&bip39::Seed::from_bytes(s)).unwrap().serialize());
    d
  }
}
fn any_ada_data() -> [u8; 96] {
  let mut d: [u8; 96] = any();
  d[0] &= 248;
  d[31] = d[31] & 31 | 64;
  d
}

/// which operations of the secp256k1_bip32 crate fail (bit k: the k-th of load, derive... operation)
#[cfg(kani)]
fn failing(bits: u32) {
  unsafe { secp256k1_bip32::GHOST_FAIL = bits }
  secp256k1_bip32::ghost_restart();
}
#[cfg(not(kani))]
fn failing(_: u32) {}
/// the specification performs the operations again
fn again() {
  #[cfg(kani)]
  secp256k1_bip32::ghost_restart();
}

/// the key of the stored one at the path
fn secp_child(d: &[u8], p: &AnyPath) -> Result<XPrv, secp256k1_bip32::KeyError> {
  let k = keep(XPrv::from_data(d)?);
  let k = keep(k.derive(p.0[0])?);
  let k = keep(k.derive(p.0[1])?);
  let k = keep(k.derive(p.0[2])?);
  let k = keep(k.derive(p.0[3])?);
  k.derive(p.0[4])
}
fn ada_child(d: &[u8; 96], p: &AnyPath) -> ed::XPrv {
  let s = ed::DerivationScheme::V2;
  match ed::XPrv::from_bytes_verified(*d) {
    Ok(k) => k.derive(s, p.0[0]).derive(s, p.0[1]).derive(s, p.0[2]).derive(s, p.0[3]).derive(s, p.0[4]),
    Err(_) => panic!("key data")
  }
}

enum Answer {
  Bytes(Vec<u8>),
  Bool(bool)
}
impl PartialEq for Answer {
  fn eq(&self, o: &Answer) -> bool {
    match (self, o) {
      (Answer::Bytes(a), Answer::Bytes(b)) => same(a, b),
      (Answer::Bool(a), Answer::Bool(b)) => a == b,
      _ => false
    }
  }
}

#[derive(Clone, Copy)]
enum Op {
  Pub,
  Sign,
  Verify
}

fn ask(k: &dyn Key, op: Op, data: &[u8], sig: &[u8], p: &AnyPath) -> Result<Answer, KeyError> {
  match op {
    Op::Pub => k.pub_key(p).map(Answer::Bytes),
    Op::Sign => k.sign(data, p).map(Answer::Bytes),
    Op::Verify => k.verify(data, sig, p).map(Answer::Bool)
  }
}

/// the error names a part that offends, with its value
fn refused(net: Net, p: &AnyPath, e: &KeyError) {
  match *e {
    KeyError::InvalidKeyPath(ref e) => match e.offending() {
      Some((part, v)) => {
        assert!(net.offends(p, part), "the error names a part that is fine");
        assert!(p.0[part as usize - 1] == v, "the error gives another value than the part's");
      }
      None => assert!(false, "the error names no part")
    },
    _ => assert!(false, "a refused path gives an error about the path")
  }
}

/// a key of Ethereum or Bitcoin; `fail`: which of the operations below it fail
fn secp_key(net: Net, op: Op, fail: u32, n: usize) {
  failing(fail);
  let d = any_secp_data();
  let p = net.any_path();
  let data: [u8; 9] = any();
  let sig_a: [u8; 65] = any();
  let sig_n = any_of(&[64usize, 65]);
  assume(sig_n == n);
  let key = keep(net.load(&d));
  let r = match *key {
    Ok(ref k) => {
      assert!(k.network() == net.network(), "network of the key");
      keep(ask(&**k, op, &data, &sig_a[..n], &p))
    }
    Err(_) => {
      assert!(fail != 0 || cfg!(not(kani)), "a key that loads was refused");
      return;
    }
  };
  if !net.accepts(&p) {
    match *r {
      Ok(_) => assert!(false, "a foreign path was accepted"),
      Err(ref e) => refused(net, &p, e)
    }
    reach(fail == 0);
    return;
  }
  again();
  let want = keep(match secp_child(&d, &p) {
    Ok(k) => {
      let k = keep(k);
      match op {
        Op::Pub => Ok(Answer::Bytes(keep(k.public()).serialize())),
        Op::Sign => k.sign(&data).map(Answer::Bytes),
        Op::Verify => keep(k.public()).verify(&data, &sig_a[..n]).map(Answer::Bool)
      }
    }
    Err(e) => Err(e)
  });
  match (&*r, &*want) {
    (Ok(a), Ok(b)) => assert!(a == b, "the answer is that of the key at exactly this path"),
    (Err(KeyError::InvalidKeyPath(_)), _) => assert!(false, "an accepted path was refused"),
    (Err(_), Err(_)) => {}
    (Ok(_), Err(_)) => assert!(false, "an answer although the key at the path gives none"),
    (Err(_), Ok(_)) => assert!(false, "an error although the key at the path answers")
  }
  reach(fail == 0);
}

fn ada_key(op: Op) {
  let d = any_ada_data();
  let p = Net::Ada.any_path();
  let data: [u8; 9] = any();
  let sig: [u8; 64] = any();
  let key = keep(Net::Ada.load(&d));
  let r = match *key {
    Ok(ref k) => {
      assert!(k.network() == Network::CARDANO, "network of the key");
      keep(ask(&**k, op, &data, &sig, &p))
    }
    Err(_) => {
      assert!(false, "a valid key was refused");
      return;
    }
  };
  if !Net::Ada.accepts(&p) {
    match *r {
      Ok(_) => assert!(false, "a foreign path was accepted"),
      Err(ref e) => refused(Net::Ada, &p, e)
    }
    reach(true);
    return;
  }
  let k = ada_child(&d, &p);
  let want = match op {
    Op::Pub => Answer::Bytes(k.public().as_ref().to_vec()),
    Op::Sign => Answer::Bytes(k.sign::<u8>(&data).as_ref().to_vec()),
    Op::Verify => Answer::Bool(k.verify(&data, &ed::Signature::<u8>::from_bytes(sig)))
  };
  match *r {
    Ok(ref a) => assert!(*a == want, "the answer is that of the key at exactly this path"),
    Err(_) => assert!(false, "an accepted path was refused")
  }
  reach(true);
}

/// what a key signs it accepts, at the same path
fn signs_and_verifies(net: Net) {
  failing(0);
  #[cfg(kani)]
  unsafe { secp256k1_bip32::GHOST_ACCEPTS = true }
  let data: [u8; 9] = any();
  let p = AnyPath([HARD + 44, net.coin(), any::<u32>() | HARD, any::<bool>() as u32, any::<u32>() & (HARD - 1)]);
  let d = any_secp_data();
  let key = keep(net.load(&d));
  if let Ok(ref k) = *key {
    if let Ok(ref s) = *keep(k.sign(&data, &p)) {
      assert!(s.len() == 65, "length of the signature");
      match *keep(k.verify(&data, s, &p)) {
        Ok(v) => assert!(v, "a signature made by the key was not accepted by it"),
        Err(_) => assert!(false, "a signature made by the key gives an error")
      }
      match *keep(k.verify(&data, &s[..64], &p)) {
        Ok(v) => assert!(v, "a signature made by the key was not accepted without its recovery id"),
        Err(_) => assert!(false, "a signature made by the key gives an error without its recovery id")
      }
      reach(true);
    }
  }
}

// ---------------------------------------------------------------- C23

fn sha512(d: &[u8]) -> [u8; 64] {
  let mut h = Sha512::new();
  h.input(d);
  let mut o = [0u8; 64];
  h.result(&mut o);
  o
}

// ---------------------------------------------------------------- C15, C16

/// a random source of arbitrary bytes, all of them on record
struct Source(RefCell<(Vec<u8>, usize)>, [u8; 64]);
impl Source {
  fn new() -> Self {
    Source(RefCell::new((Vec::with_capacity(64), 0)), any())
  }
}
impl Entropy for Source {
  fn fill_bytes(&self, into: &mut [u8]) {
    let mut s = self.0.borrow_mut();
    for b in into.iter_mut() {
      assert!(s.1 < 64, "more random bytes than any of the uses needs");
      *b = self.1[s.1];
      s.1 += 1;
    }
    s.0.extend_from_slice(into);
  }
}

fn derived_key(password: &[u8], salt: &[u8]) -> [u8; 32] {
  let mut k = [0u8; 32];
  let mut mac = Hmac::new(Sha512::new(), password);
  pbkdf2(&mut mac, salt, 19162, &mut k);
  k
}

/// a password of C bytes under Kani (of at most C characters natively): only its bytes are used
fn any_password<const C: usize>() -> String {
  let a: [u8; C] = any();
  #[cfg(kani)]
  {
    let mut v = Vec::with_capacity(C);
    v.extend_from_slice(&a);
    unsafe { String::from_utf8_unchecked(v) }
  }
  #[cfg(not(kani))]
  {
    a[..upto(C)].iter().map(|&b| if b < 224 { b as char } else { char::from_u32(0x4e00 + b as u32).unwrap() }).collect()
  }
}

fn encrypts<const N: usize, const P: usize>() {
  let data: [u8; N] = any();
  let src = Source::new();
  let pass = keep(any_password::<P>());
  let out = keep(crypt::encrypt(&data, &pass, &src));
  assert!(out.len() == N + 60, "length of the encryption");
  let used = src.0.borrow().1;
  assert!(used >= 44, "salt and nonce are entirely fresh");
  let log = &src.1;
  let first = same(&out[..32], &log[..32]) && same(&out[32..44], &log[32..44]);
  let second = same(&out[..32], &log[12..44]) && same(&out[32..44], &log[..12]);
  assert!(first || second, "salt and nonce are the bytes drawn");
  let key = derived_key(pass.as_bytes(), &out[..32]);
  let (mut ct, mut tag) = ([0u8; N], [0u8; 16]);
  ChaCha20Poly1305::new(&key, &out[32..44], &[]).encrypt(&data, &mut ct, &mut tag);
  assert!(same(&out[44..60], &tag), "tag");
  assert!(same(&out[60..], &ct), "ciphertext");
  reach(true);
}

fn round_trip<const N: usize, const P: usize>() {
  let data: [u8; N] = any();
  let src = Source::new();
  let pass = keep(any_password::<P>());
  let out = keep(crypt::encrypt(&data, &pass, &src));
  match *keep(crypt::decrypt(&out, &pass)) {
    Ok(ref d) => assert!(same(d, &data), "decryption gives the data back"),
    Err(_) => assert!(false, "own encryption not decrypted")
  }
  reach(true);
}

fn decrypts<const N: usize, const P: usize>() {
  let mut data: [u8; N] = any();
  let pass = keep(any_password::<P>());
  let key = derived_key(pass.as_bytes(), &data[..32]);
  // natively: data whose tag verifies, or nearly
  #[cfg(not(kani))]
  {
    let k = upto(3);
    let plain: Vec<u8> = data[60..].to_vec();
    let (mut ct, mut tag) = (vec![0u8; N - 60], [0u8; 16]);
    ChaCha20Poly1305::new(&key, &data[32..44], &[]).encrypt(&plain, &mut ct, &mut tag);
    if k > 0 {
      data[44..60].copy_from_slice(&tag);
      data[60..].copy_from_slice(&ct);
    }
    if k > 1 {
      let i = upto(N - 33) + 32;
      data[i] ^= 1 << upto(7);
    }
  }
  #[cfg(kani)]
  { data[0] = data[0]; }
  let mut plain = [0u8; 64];
  let good = ChaCha20Poly1305::new(&key, &data[32..44], &[]).decrypt(&data[60..], &mut plain[..N - 60], &data[44..60]);
  match *keep(crypt::decrypt(&data, &pass)) {
    Ok(ref d) => {
      assert!(good, "plaintext released without a matching tag");
      assert!(same(d, &plain[..N - 60]), "the plaintext is exactly the decrypted bytes");
      reach(true);
    }
    Err(crypt::DecryptError::DecryptionFailed) => { assert!(!good, "authentic data refused"); reach(true); }
    Err(crypt::DecryptError::NotEnoughData) => assert!(false, "60 bytes and more are enough")
  }
}

// ---------------------------------------------------------------- C17-C22: the wallet operations

/// encryption by its contract (C15, C16): the sealed data holds the password and the contents
pub fn sealed(data: &[u8], password: &str, _: &dyn Entropy) -> Vec<u8> {
  seal(data, password)
}
fn seal(data: &[u8], password: &str) -> Vec<u8> {
  let mut v = Vec::with_capacity(60 + data.len());
  let p = password.as_bytes();
  let mut h = [0u8; 60];
  h[0] = p.len() as u8;
  h[1..1 + p.len()].copy_from_slice(p);
  v.extend_from_slice(&h);
  v.extend_from_slice(data);
  v
}
pub fn unsealed(data: &[u8], password: &str) -> Result<Vec<u8>, crypt::DecryptError> {
  if data.len() < 60 {
    return Err(crypt::DecryptError::NotEnoughData);
  }
  let p = password.as_bytes();
  if data[0] as usize != p.len() {
    return Err(crypt::DecryptError::DecryptionFailed);
  }
  let mut i = 0;
  while i < p.len() {
    if data[1 + i] != p[i] {
      return Err(crypt::DecryptError::DecryptionFailed);
    }
    i += 1;
  }
  Ok(data[60..].to_vec())
}

#[cfg(kani)]
mod abstract_networks {
  use super::*;
  use ghost::Buf;
  /// an arbitrary network: its key data is any function of the seed
  #[derive(Clone, Copy)]
  pub struct Fact {
    pub net: u32,
    pub min: usize,
    pub max: usize
  }
  pub struct AKey {
    pub net: u32,
    pub data: Vec<u8>
  }
  pub fn key_of(net: u32, seed: &[u8]) -> Vec<u8> {
    let mut o = [0u8; 3];
    ghost::uf!(NET_KEY, Buf::new().part(&net.to_le_bytes()).part(seed), &mut o);
    o.to_vec()
  }
  impl KeyFactory for Fact {
    fn network(&self) -> Network {
      Network(self.net)
    }
    fn seed_size(&self) -> SeedSize {
      SeedSize { min: self.min, max: self.max }
    }
    fn key_from_data(&self, data: &[u8]) -> Result<Box<dyn Key>, KeyError> {
      Ok(Box::new(AKey { net: self.net, data: data.to_vec() }))
    }
    fn key_data_from_seed(&self, seed: &[u8]) -> Result<Vec<u8>, KeyError> {
      Ok(key_of(self.net, seed))
    }
  }
  impl Key for AKey {
    fn network(&self) -> Network {
      Network(self.net)
    }
    fn pub_key(&self, _: &dyn KeyPath) -> Result<Vec<u8>, KeyError> {
      let mut v = Vec::with_capacity(8);
      v.extend_from_slice(&self.net.to_le_bytes());
      v.extend_from_slice(&self.data);
      Ok(v)
    }
    fn sign(&self, data: &[u8], path: &dyn KeyPath) -> Result<Vec<u8>, KeyError> {
      self.pub_key(path)
    }
    fn verify(&self, data: &[u8], signature: &[u8], path: &dyn KeyPath) -> Result<bool, KeyError> {
      Ok(true)
    }
  }
  pub fn manager(nets: &[(u32, usize, usize)]) -> std::mem::ManuallyDrop<KeychainManager> {
    let mut v: Vec<Box<dyn KeyFactory>> = Vec::with_capacity(4);
    for n in nets {
      v.push(Box::new(Fact { net: n.0, min: n.1, max: n.2 }));
    }
    match KeychainManager::with_factories(v) {
      Ok(m) => keep(m),
      Err(_) => panic!("a manager of networks with a common seed size")
    }
  }
}
#[cfg(kani)]
use abstract_networks::*;

contracts! {
  // ------------------------------------------------------------------ C12
  c12_bitcoin [2] {
    let (t, a, c, d): (bool, u32, u32, u32) = (any(), any_number(), any_number(), any_number());
    let coin = HARD + t as u32;
    path_is(bitcoin::KeyPath::bip44(t, a, c, d), HARD + 44, coin, a, c, d, &[ACCOUNT, ADDRESS]);
    path_is(bitcoin::KeyPath::bip49(t, a, c, d), HARD + 49, coin, a, c, d, &[ACCOUNT, ADDRESS]);
    path_is(bitcoin::KeyPath::bip84(t, a, c, d), HARD + 84, coin, a, c, d, &[ACCOUNT, ADDRESS]);
  }
  c12_cardano [2] {
    let (a, c, d) = (any_number(), any_number(), any_number());
    path_is(cardano::KeyPath::new(a, c, d), HARD + 44, HARD + 1815, a, c, d, &[ACCOUNT, ADDRESS]);
  }
  c12_ethereum [2] {
    let a = any_number();
    path_is(ethereum::KeyPath::new(a), HARD + 44, HARD + 60, a, 0, 0, &[ACCOUNT, ADDRESS]);
    // the number of a MetaMask path is reported as its account
    path_is(ethereum::KeyPath::new_metamask(a), HARD + 44, HARD + 60, 0, 0, a, &[ACCOUNT, ACCOUNT]);
  }

  // ------------------------------------------------------------------ C13
  c13_ethereum_pub [110] { secp_key(Net::Eth, Op::Pub, 0, 65) }
  c13_ethereum_sign [110] { secp_key(Net::Eth, Op::Sign, 0, 65) }
  c13_ethereum_verify [110] { secp_key(Net::Eth, Op::Verify, 0, 65) }
  c13_bitcoin_pub [110] { secp_key(Net::Btc, Op::Pub, 0, 65) }
  c13_bitcoin_sign [110] { secp_key(Net::Btc, Op::Sign, 0, 65) }
  c13_bitcoin_verify [110] { secp_key(Net::Btc, Op::Verify, 0, 65) }
  c13_cardano_pub [120] { ada_key(Op::Pub) }
  c13_cardano_sign [120] { ada_key(Op::Sign) }
  c13_cardano_verify [162] { ada_key(Op::Verify) }

  // ------------------------------------------------------------------ C15, C16
  c15_encrypt_0 [100] { encrypts::<0, 4>() }
  c15_encrypt_1 [100] { encrypts::<1, 0>() }
  c15_encrypt_9 [100] { encrypts::<9, 3>() }
  c15_round_trip_0 [100] { round_trip::<0, 3>() }
  c15_round_trip_5 [100] { round_trip::<5, 0>() }
  c16_decrypt_60 [100] { decrypts::<60, 4>() }
  c16_decrypt_61 [100] { decrypts::<61, 0>() }
  c16_decrypt_69 [100] { decrypts::<69, 3>() }
  c16_too_short [10] {
    any_length_slice!(_a, s);
    assume(s.len() < 60);
    let pass = keep(any_password::<4>());
    match *keep(crypt::decrypt(s, &pass)) {
      Err(crypt::DecryptError::NotEnoughData) => reach(true),
      _ => assert!(false, "fewer than 60 bytes have to be refused as not enough data")
    }
  }

  #[cfg_attr(kani, kani::stub(keychain::crypt::encrypt, sealed))]
  #[cfg_attr(kani, kani::stub(keychain::crypt::decrypt, unsealed))]
  x17_proto [70] {
    #[cfg(kani)]
    {
      let m = manager(&[(7, 128, 256)]);
      let seed: [u8; 64] = any();
      let d = keep(m.keychain_data_from_seed(&seed, "p"));
      match *d {
        Ok(ref d) => {
          let k = keep(m.keychain_from_data(d, "p"));
          match *k {
            Ok(ref k) => {
              let n = keep(k.networks());
              assert!(n.len() == 1 && n[0].0 == 7);
              let pk = keep(k.pub_key(&Network(7), &AnyPath([0; 5])));
              match *pk {
                Ok(ref b) => assert!(same(&b[4..], &key_of(7, &seed))),
                _ => assert!(false)
              }
              reach(true);
            }
            Err(_) => assert!(false)
          }
        }
        Err(_) => assert!(false)
      }
    }
  }

  // ------------------------------------------------------------------ C23
  c23_data_from_seed [130] {
    let seed: [u8; 64] = any();
    let h = sha512(&seed[..32]);
    match *keep(Net::Ada.data_from_seed(&seed)) {
      Ok(ref d) => {
        assert!(d.len() == 96, "length of the key data");
        assert!(same(&d[1..31], &h[1..31]) && same(&d[32..64], &h[32..64]), "hash of the first half of the seed");
        assert!(d[0] == h[0] & 0xf8, "low bits");
        assert!(d[31] == h[31] & 0x1f | 0x40, "high bits");
        assert!(same(&d[64..96], &seed[32..64]), "second half of the seed");
        match *keep(Net::Ada.load(d)) {
          Ok(_) => reach(true),
          Err(_) => assert!(false, "key data made from a seed does not load")
        }
      }
      Err(_) => assert!(false, "no key data for a seed of 64 bytes")
    }
  }
  c23_seed_sizes [20] {
    any_length_slice!(_a, s);
    assume(s.len() != 64);
    let r = keep(Net::Ada.data_from_seed(s));
    assert!(r.is_err(), "key data from a seed of another size");
    reach(true);
  }
  c23_data_sizes [20] {
    any_length_slice!(_a, s);
    assume(s.len() != 96);
    match *keep(Net::Ada.load(s)) {
      Err(KeyError::InvalidKeySize(n, g)) => { assert!(n == s.len() && g == 96, "the error names the size"); reach(true); }
      _ => assert!(false, "key data of another size not refused as such")
    }
  }
  c23_data_bits [120] {
    let mut d: [u8; 96] = any();
    if any::<bool>() {
      d[0] &= 248;
    }
    if any::<bool>() {
      d[31] = d[31] & 31 | 64;
    }
    let good = d[0] & 7 == 0 && d[31] & 0xe0 == 0x40;
    match *keep(Net::Ada.load(&d)) {
      Ok(_) => { assert!(good, "key data with wrong bits accepted"); reach(true); }
      Err(KeyError::InvalidKeyData(_)) => { assert!(!good, "valid key data refused"); reach(true); }
      Err(_) => assert!(false, "another error than about the key data")
    }
  }
  c23_signature_sizes [100] {
    any_length_slice!(_a, s);
    assume(s.len() != 64);
    let d = any_ada_data();
    let p = AnyPath([HARD + 44, HARD + 1815, HARD, 0, 0]);
    let data: [u8; 5] = any();
    if let Ok(ref k) = *keep(Net::Ada.load(&d)) {
      match *keep(k.verify(&data, s, &p)) {
        Err(KeyError::InvalidSignatureSize(n, g)) => { assert!(n == s.len() && g == 64, "the error names the size"); reach(true); }
        _ => assert!(false, "a signature of another size not refused as such")
      }
    }
  }

  // ------------------------------------------------------------------ C11 (through the networks' keys)
  c11_ethereum_key [110] { signs_and_verifies(Net::Eth) }
  c11_bitcoin_key [110] { signs_and_verifies(Net::Btc) }
}

#[cfg(not(kani))]
mod wallet;
#[cfg(not(kani))]
pub use wallet::NATIVE;
