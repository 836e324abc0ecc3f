//! Contracts of the C interface (C24-C26) for Kani.  The functions of /repo/keychain-c are called as C
//! calls them; the library operations below them are replaced by their contracts: they may give any
//! value or any error, or panic, and record the arguments they are given.
#![cfg(kani)]
#![feature(pattern)]
#![allow(static_mut_refs, dead_code)]
use keychain::verif_exports::{DataError, KeyPathError, MnemonicError};
use keychain::{Error, GenericKeyPath, Key, KeyError, KeyFactory, KeyPath, Keychain, KeychainManager, Language as RLang, Network as RNet, SeedSize};
use rt::*;
use rust_keychain::verif_exports as c;
use rust_keychain::Network as CNet;
use std::mem::{size_of, ManuallyDrop};
use std::os::raw::{c_char, c_void};
use std::ptr::null;
use verif_panic::Payload;

// ---------------------------------------------------------------- the structures of the C header

#[repr(C)]
#[derive(Clone, Copy, PartialEq)]
struct Data {
  ptr: *const u8,
  len: usize
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq)]
struct Nets {
  ptr: *const u32,
  count: usize
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq)]
struct Elem {
  network: u32,
  data: Data
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq)]
struct Backup {
  ptr: *const Elem,
  count: usize
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq)]
struct Info {
  mnemonic: *const c_char,
  language: i32
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq)]
struct Err {
  code: i32,
  message: *const c_char
}
type Path = [u32; 5];
type Obj = *mut c_void;

const PANIC: i32 = -1;


/// every kind of error the library gives, with its code
fn error(k: u8) -> Error {
  match k {
    0 => Error::WrongPassword,
    1 => Error::NotEnoughData,
    2 => Error::SeedIsNotSaved,
    3 => Error::CantCalculateSeedSize(any(), any()),
    4 => Error::DataError(serde_json::error::Error(0)),
    5 => Error::InvalidSeedSize(any()),
    6 => Error::KeyDoesNotExist(RNet(any())),
    7 => Error::KeyAlreadyExist(RNet(any())),
    8 => Error::NetworkIsNotSupported(RNet(any())),
    9 => Error::KeyError(RNet(any()), KeyError::InvalidKeySize(any(), any())),
    10 => Error::KeyPathError(KeyPathError::InvalidAccount(any())),
    _ => Error::MnemonicError(MnemonicError::WrongNumberOfWords(any()))
  }
}

unsafe fn as_mut<T, U>(x: &mut T) -> &mut U {
  assert!(size_of::<T>() == size_of::<U>(), "size of a structure of the C header");
  &mut *(x as *mut T as *mut U)
}
unsafe fn as_ref<T, U>(x: &T) -> &U {
  assert!(size_of::<T>() == size_of::<U>(), "size of a structure of the C header");
  &*(x as *const T as *const U)
}
unsafe fn by_value<T: Copy, U>(x: T) -> U {
  assert!(size_of::<T>() == size_of::<U>(), "size of a structure of the C header");
  std::mem::transmute_copy(&ManuallyDrop::new(x))
}
fn keep<T>(t: T) -> ManuallyDrop<T> {
  ManuallyDrop::new(t)
}

trait Empty: Copy + PartialEq {
  const EMPTY: Self;
}
impl Empty for Data { const EMPTY: Data = Data { ptr: 0x5a00 as *const u8, len: 7 }; }
impl Empty for Nets { const EMPTY: Nets = Nets { ptr: 0x5a00 as *const u32, count: 9 }; }
impl Empty for Backup { const EMPTY: Backup = Backup { ptr: 0x5a00 as *const Elem, count: 3 }; }
impl Empty for Info { const EMPTY: Info = Info { mnemonic: 0x5a00 as *const c_char, language: 2 }; }
impl Empty for Path { const EMPTY: Path = [11, 12, 13, 14, 15]; }
impl Empty for Obj { const EMPTY: Obj = 0x5a00 as Obj; }
impl Empty for *const c_char { const EMPTY: *const c_char = 0x5a00 as *const c_char; }
impl Empty for bool { const EMPTY: bool = true; }
impl Empty for Err { const EMPTY: Err = Err { code: 5, message: 0x5a08 as *const c_char }; }

// ---------------------------------------------------------------- contracts of what lies below

/// formatting an error or value gives some text
pub fn formats(_: std::fmt::Arguments<'_>) -> String {
  let mut s = String::with_capacity(8);
  s.push_str("text");
  s
}
/// replacing what does not occur in a text (the texts here hold no zero byte) gives its copy
pub fn replaces<P: std::str::pattern::Pattern>(t: &str, _: P, _: &str) -> String {
  assert!(t.len() <= 8, "ghost: text too long");
  let mut s = String::with_capacity(9);
  s.push_str(t);
  s
}
/// a text of C is a copy with a zero byte at its end (the texts here hold no zero byte)
pub fn c_text<T: Into<Vec<u8>>>(t: T) -> Result<std::ffi::CString, std::ffi::NulError> {
  let v: Vec<u8> = t.into();
  let c = match v.len() {
    3 => {
      assert!(v[0] == b'a' && v[1] == b' ' && v[2] == b'b', "ghost: another text");
      copy_of(b"a b\0")
    }
    4 => {
      assert!(v[0] == b't' && v[1] == b'e' && v[2] == b'x' && v[3] == b't', "ghost: another text");
      copy_of(b"text\0")
    }
    _ => panic!("ghost: another text")
  };
  Ok(c)
}
fn copy_of<const N: usize>(t: &[u8; N]) -> std::ffi::CString {
  let mut v = Vec::with_capacity(N);
  v.extend_from_slice(t);
  unsafe { std::ffi::CString::from_vec_with_nul_unchecked(v) }
}
/// what the library answers: Ok, one of its errors, or a panic
static mut FAILS: Option<u8> = None;
/// the arguments it was given
static mut CALLS: u8 = 0;
static mut SELF: usize = 0;
static mut NET: u32 = 0;
static mut ARG: [(usize, usize); 3] = [(0, 0); 3];
static mut LANG: Option<RLang> = None;
static mut PATH: Path = [0; 5];
static mut NUMS: (bool, [u32; 3]) = (false, [0; 3]);
static mut OP: u8 = 0;
/// the value it gives
static mut VALUE: [u8; 3] = [0; 3];
static mut PARTS: Path = [0; 5];
static mut TRUTH: bool = false;
static mut DROPPED: u8 = 0;

unsafe fn arg(k: usize, s: &[u8]) {
  ARG[k] = (s.as_ptr() as usize, s.len());
}
unsafe fn answer<T>(op: u8, who: usize, f: impl FnOnce() -> T) -> Result<T, Error> {
  OP = op;
  SELF = who;
  CALLS += 1;
  match FAILS {
    None => Ok(f()),
    Some(k) => Result::Err(error(k))
  }
}
fn at<T>(x: &T) -> usize {
  x as *const T as usize
}
fn some_bytes() -> Vec<u8> {
  let mut v = Vec::with_capacity(5);
  v.extend_from_slice(unsafe { &VALUE });
  v
}
fn some_text() -> String {
  let mut s = String::with_capacity(6);
  s.push_str("a b");
  s
}
fn arr(p: &dyn KeyPath) -> Path {
  [p.purpose(), p.coin(), p.account(), p.change(), p.address()]
}
struct P(Path);
impl KeyPath for P {
  fn purpose(&self) -> u32 { self.0[0] }
  fn coin(&self) -> u32 { self.0[1] }
  fn account(&self) -> u32 { self.0[2] }
  fn change(&self) -> u32 { self.0[3] }
  fn address(&self) -> u32 { self.0[4] }
}
/// a network and its key, which count how often they are dropped
struct Fact(u32);
struct AKey(u32);
impl Drop for Fact {
  fn drop(&mut self) { unsafe { DROPPED += 1 } }
}
impl Drop for AKey {
  fn drop(&mut self) { unsafe { DROPPED += 1 } }
}
impl KeyFactory for Fact {
  fn network(&self) -> RNet { RNet(self.0) }
  fn seed_size(&self) -> SeedSize { SeedSize { min: 128, max: 256 } }
  fn key_from_data(&self, _: &[u8]) -> Result<Box<dyn Key>, KeyError> { Ok(Box::new(AKey(self.0))) }
  fn key_data_from_seed(&self, _: &[u8]) -> Result<Vec<u8>, KeyError> { Ok(some_bytes()) }
}
impl Key for AKey {
  fn network(&self) -> RNet { RNet(self.0) }
  fn pub_key(&self, _: &dyn KeyPath) -> Result<Vec<u8>, KeyError> { Ok(some_bytes()) }
  fn sign(&self, _: &[u8], _: &dyn KeyPath) -> Result<Vec<u8>, KeyError> { Ok(some_bytes()) }
  fn verify(&self, _: &[u8], _: &[u8], _: &dyn KeyPath) -> Result<bool, KeyError> { Ok(true) }
}

const NEW: u8 = 1;
const GENERATE: u8 = 2;
const FROM_SEED: u8 = 3;
const FROM_MNEMONIC: u8 = 4;
const OPEN: u8 = 5;
const CHANGE: u8 = 6;
const ADD: u8 = 7;
const RETRIEVE: u8 = 8;
const KEYS: u8 = 9;
const PUB: u8 = 10;
const SIGN: u8 = 11;
const VERIFY: u8 = 12;
const NETWORKS: u8 = 13;
const HAS: u8 = 14;
const PARSE: u8 = 15;

pub fn m_new() -> Result<KeychainManager, Error> {
  unsafe {
    answer(NEW, 0, || {
      let mut v: Vec<Box<dyn KeyFactory>> = Vec::with_capacity(1);
      v.push(Box::new(Fact(7)));
      match KeychainManager::with_factories(v) {
        Ok(m) => m,
        Result::Err(e) => {
          std::mem::forget(e);
          panic!("a manager of one network")
        }
      }
    })
  }
}
pub fn m_has(m: &KeychainManager, n: &RNet) -> bool {
  unsafe {
    NET = n.0;
    let _ = keep(answer(HAS, at(m), || ()));
    TRUTH
  }
}
pub fn m_generate(m: &KeychainManager, l: Option<RLang>) -> Result<String, Error> {
  unsafe {
    LANG = l;
    answer(GENERATE, at(m), some_text)
  }
}
pub fn m_from_seed(m: &KeychainManager, seed: &[u8], p: &str) -> Result<Vec<u8>, Error> {
  unsafe {
    arg(0, seed);
    arg(1, p.as_bytes());
    answer(FROM_SEED, at(m), some_bytes)
  }
}
pub fn m_from_mnemonic(m: &KeychainManager, t: &str, p: &str, l: Option<RLang>) -> Result<Vec<u8>, Error> {
  unsafe {
    arg(0, t.as_bytes());
    arg(1, p.as_bytes());
    LANG = l;
    answer(FROM_MNEMONIC, at(m), some_bytes)
  }
}
pub fn m_open(m: &KeychainManager, d: &[u8], p: &str) -> Result<Keychain, Error> {
  unsafe {
    arg(0, d);
    arg(1, p.as_bytes());
    answer(OPEN, at(m), || {
      let mut v: Vec<Box<dyn Key>> = Vec::with_capacity(1);
      v.push(Box::new(AKey(7)));
      Keychain::new(v)
    })
  }
}
pub fn m_change(m: &KeychainManager, d: &[u8], p: &str, q: &str) -> Result<Vec<u8>, Error> {
  unsafe {
    arg(0, d);
    arg(1, p.as_bytes());
    arg(2, q.as_bytes());
    answer(CHANGE, at(m), some_bytes)
  }
}
pub fn m_add(m: &KeychainManager, d: &[u8], p: &str, n: RNet) -> Result<Vec<u8>, Error> {
  unsafe {
    arg(0, d);
    arg(1, p.as_bytes());
    NET = n.0;
    answer(ADD, at(m), some_bytes)
  }
}
pub fn m_retrieve(m: &KeychainManager, d: &[u8], p: &str) -> Result<(String, RLang), Error> {
  unsafe {
    arg(0, d);
    arg(1, p.as_bytes());
    answer(RETRIEVE, at(m), || (some_text(), LANG.unwrap()))
  }
}
pub fn m_keys(m: &KeychainManager, d: &[u8], p: &str) -> Result<Vec<(RNet, Vec<u8>)>, Error> {
  unsafe {
    arg(0, d);
    arg(1, p.as_bytes());
    answer(KEYS, at(m), || {
      let mut v = Vec::with_capacity(3);
      v.push((RNet(PARTS[0]), some_bytes()));
      v.push((RNet(PARTS[1]), Vec::new()));
      v
    })
  }
}
pub fn k_networks(k: &Keychain) -> Vec<RNet> {
  unsafe {
    let _ = keep(answer(NETWORKS, at(k), || ()));
    let mut v = Vec::with_capacity(3);
    v.push(RNet(PARTS[0]));
    v.push(RNet(PARTS[1]));
    v
  }
}
pub fn k_pub(k: &Keychain, n: &RNet, p: &dyn KeyPath) -> Result<Vec<u8>, Error> {
  unsafe {
    NET = n.0;
    PATH = arr(p);
    answer(PUB, at(k), some_bytes)
  }
}
pub fn k_sign(k: &Keychain, n: &RNet, d: &[u8], p: &dyn KeyPath) -> Result<Vec<u8>, Error> {
  unsafe {
    NET = n.0;
    PATH = arr(p);
    arg(0, d);
    answer(SIGN, at(k), some_bytes)
  }
}
pub fn k_verify(k: &Keychain, n: &RNet, d: &[u8], s: &[u8], p: &dyn KeyPath) -> Result<bool, Error> {
  unsafe {
    NET = n.0;
    PATH = arr(p);
    arg(0, d);
    arg(1, s);
    answer(VERIFY, at(k), || TRUTH)
  }
}

// ---------------------------------------------------------------- calls

/// some address for objects whose contents the contracts above never read
static mut OBJECT: [u64; 64] = [0; 64];
fn object() -> Obj {
  unsafe { std::ptr::addr_of_mut!(OBJECT) as Obj }
}
static PASS: [u8; 3] = *b"pw\0";
static PASS2: [u8; 4] = *b"new\0";
static TEXT: [u8; 5] = *b"m n\0x";
static BYTES: [u8; 6] = [0, 255, 3, 4, 5, 6];
fn text(t: &[u8]) -> *const c_char {
  t.as_ptr() as *const c_char
}
/// was this the argument: the bytes in place, or a copy of them
unsafe fn given(k: usize, s: &[u8]) -> bool {
  ARG[k] == (s.as_ptr() as usize, s.len())
}

#[derive(Clone, Copy, PartialEq)]
enum Case {
  Value,
  Error,
  Panic
}
/// makes the call with an answer of this kind below it: exactly one slot is written
unsafe fn call<T: Empty>(case: Case, op: u8, who: usize, f: impl FnOnce(&mut T, &mut Err) -> bool) -> Option<T> {
  let k: u8 = any();
  assume(k < 12);
  FAILS = None;
  verif_panic::GHOST_PANICS = None;
  match case {
    Case::Value => {}
    Case::Error => {
      assume(op != PARSE || k == 10);
      FAILS = Some(k)
    }
    Case::Panic => verif_panic::GHOST_PANICS = Some(Payload::Static("text"))
  }
  let (mut v, mut e) = (T::EMPTY, Err::EMPTY);
  let ok = f(&mut v, &mut e);
  if case != Case::Panic && op != 0 {
    assert!(CALLS == 1 && OP == op, "the call makes exactly its operation");
    assert!(SELF == who, "the operation is made on the object");
  }
  if case == Case::Value {
    assert!(ok, "true when the operation succeeds");
    assert!(e == Err::EMPTY, "a call that succeeds leaves the error slot alone");
    return Some(v);
  }
  assert!(!ok, "false when the operation fails");
  assert!(v == T::EMPTY, "a call that fails leaves the value slot alone");
  assert!(e.code == if case == Case::Panic { PANIC } else { k as i32 }, "code of the error");
  assert!(same(std::slice::from_raw_parts(e.message as *const u8, 5), b"text\0"), "message of the error");
  let p = e.message as *const u8;
  c::delete_error(as_mut(&mut e));
  assert!(e.message.is_null(), "a deleted error leaves its owner's pointer");
  c::delete_error(as_mut(&mut e));
  reach(true);
  None
}
unsafe fn is_data(mut d: Data, want: &[u8]) {
  assert!(d.len == want.len(), "length of the data");
  assert!(same(std::slice::from_raw_parts(d.ptr, d.len), want), "contents of the data");
  let p = d.ptr;
  c::delete_data(as_mut(&mut d));
  assert!(d.ptr.is_null(), "deleted data leaves its owner's pointer");
  c::delete_data(as_mut(&mut d));
  reach(true);
}
fn lang(l: i32) -> RLang {
  match l {
    0 => RLang::English,
    1 => RLang::French,
    2 => RLang::Japanese,
    3 => RLang::Korean,
    4 => RLang::ChineseSimplified,
    5 => RLang::ChineseTraditional,
    6 => RLang::Italian,
    _ => RLang::Spanish
  }
}
fn any_lang() -> i32 {
  let l: i32 = any();
  assume(l >= 0 && l < 8);
  l
}
fn any_case() -> Case {
  match any::<u8>() {
    0 => Case::Value,
    1 => Case::Error,
    _ => Case::Panic
  }
}

unsafe fn seed(case: Case) {
  let o = object();
  let r = call(case, FROM_SEED, o as usize, |v: &mut Data, e| {
    c::keychain_manager_keychain_data_from_seed(as_ref(&o), BYTES.as_ptr(), 6, text(&PASS), as_mut(v), as_mut(e))
  });
  if let Some(d) = r {
    assert!(given(0, &BYTES) && given(1, &PASS[..2]), "the arguments reach the manager");
    is_data(d, &VALUE);
  }
}
unsafe fn mnemonic(case: Case) {
  let (o, l) = (object(), any_lang());
  let r = call(case, FROM_MNEMONIC, o as usize, |v: &mut Data, e| {
    c::keychain_manager_keychain_data_from_mnemonic(as_ref(&o), text(&TEXT), text(&PASS), by_value(l), as_mut(v), as_mut(e))
  });
  if let Some(d) = r {
    assert!(given(0, &TEXT[..3]) && given(1, &PASS[..2]) && LANG == Some(lang(l)), "the arguments reach the manager");
    is_data(d, &VALUE);
  }
}
unsafe fn change(case: Case) {
  let o = object();
  let r = call(case, CHANGE, o as usize, |v: &mut Data, e| {
    c::keychain_manager_change_password(as_ref(&o), BYTES.as_ptr(), 5, text(&PASS), text(&PASS2), as_mut(v), as_mut(e))
  });
  if let Some(d) = r {
    assert!(given(0, &BYTES[..5]) && given(1, &PASS[..2]) && given(2, &PASS2[..3]), "the arguments reach the manager");
    is_data(d, &VALUE);
  }
}
unsafe fn add(case: Case) {
  let (o, n) = (object(), any::<u32>());
  let r = call(case, ADD, o as usize, |v: &mut Data, e| {
    c::keychain_manager_add_network(as_ref(&o), BYTES.as_ptr(), 4, text(&PASS), CNet(n), as_mut(v), as_mut(e))
  });
  if let Some(d) = r {
    assert!(given(0, &BYTES[..4]) && given(1, &PASS[..2]) && NET == n, "the arguments reach the manager");
    is_data(d, &VALUE);
  }
}
unsafe fn open(case: Case) {
  let o = object();
  let r = call(case, OPEN, o as usize, |v: &mut Obj, e| {
    c::keychain_manager_keychain_from_data(as_ref(&o), BYTES.as_ptr(), 3, text(&PASS), as_mut(v), as_mut(e))
  });
  if let Some(mut k) = r {
    assert!(given(0, &BYTES[..3]) && given(1, &PASS[..2]), "the arguments reach the manager");
    assert!((*(k as *const Keychain)).has_network(&RNet(7)), "the keychain is the one opened");
    let p = k as *const u8;
    assert!(DROPPED == 0);
    c::delete_keychain(as_mut(&mut k));
    assert!(k.is_null() && DROPPED == 1, "a deleted keychain is released with its keys");
    c::delete_keychain(as_mut(&mut k));
    assert!(DROPPED == 1);
    reach(true);
  }
}
unsafe fn create(case: Case) {
  let r = call(case, NEW, 0, |v: &mut Obj, e| c::keychain_manager_new(as_mut(v), as_mut(e)));
  if let Some(mut k) = r {
    assert!((*(k as *const KeychainManager)).has_network(&RNet(7)), "the manager is the one made");
    let p = k as *const u8;
    assert!(DROPPED == 0);
    c::delete_keychain_manager(as_mut(&mut k));
    assert!(k.is_null() && DROPPED == 1, "a deleted manager is released with its networks");
    c::delete_keychain_manager(as_mut(&mut k));
    assert!(DROPPED == 1);
    reach(true);
  }
}
unsafe fn generate(case: Case) {
  let (o, l) = (object(), any_lang());
  let r = call(case, GENERATE, o as usize, |v: &mut *const c_char, e| {
    c::keychain_manager_generate_mnemonic(as_ref(&o), by_value(l), as_mut(v), as_mut(e))
  });
  if let Some(p) = r {
    assert!(LANG == Some(lang(l)), "the language reaches the manager");
    assert!(same(std::slice::from_raw_parts(p as *const u8, 4), b"a b\0"), "the phrase");
    c::delete_string(p);
    c::delete_string(null());
    reach(true);
  }
}
unsafe fn retrieve(case: Case) {
  let (o, l) = (object(), any_lang());
  LANG = Some(lang(l));
  let r = call(case, RETRIEVE, o as usize, |v: &mut Info, e| {
    c::keychain_manager_retrieve_mnemonic(as_ref(&o), BYTES.as_ptr(), 2, text(&PASS), as_mut(v), as_mut(e))
  });
  if let Some(mut i) = r {
    assert!(given(0, &BYTES[..2]) && given(1, &PASS[..2]), "the arguments reach the manager");
    assert!(i.language == l, "language of the phrase");
    assert!(same(std::slice::from_raw_parts(i.mnemonic as *const u8, 4), b"a b\0"), "the phrase");
    let p = i.mnemonic;
    c::delete_mnemonic_info(as_mut(&mut i));
    assert!(i.mnemonic.is_null(), "a deleted phrase leaves its owner's pointer");
    c::delete_mnemonic_info(as_mut(&mut i));
    reach(true);
  }
}
unsafe fn keys(case: Case) {
  let o = object();
  let r = call(case, KEYS, o as usize, |v: &mut Backup, e| {
    c::keychain_manager_get_keys_data(as_ref(&o), BYTES.as_ptr(), 6, text(&PASS), as_mut(v), as_mut(e))
  });
  if let Some(mut b) = r {
    assert!(given(0, &BYTES) && given(1, &PASS[..2]), "the arguments reach the manager");
    assert!(b.count == 2, "number of keys");
    let l = std::slice::from_raw_parts(b.ptr, 2);
    assert!(l[0].network == PARTS[0] && l[1].network == PARTS[1], "networks of the keys");
    assert!(l[0].data.len == 3 && same(std::slice::from_raw_parts(l[0].data.ptr, 3), &VALUE), "the first key");
    assert!(l[1].data.len == 0 && !l[1].data.ptr.is_null(), "an empty key");
    let (p, q) = (b.ptr, l[0].data.ptr);
    c::delete_key_backup(as_mut(&mut b));
    assert!(b.ptr.is_null(), "a deleted backup leaves its owner's pointer");
    c::delete_key_backup(as_mut(&mut b));
    reach(true);
  }
}
unsafe fn networks(case: Case) {
  let o = object();
  let r = call(case, NETWORKS, o as usize, |v: &mut Nets, e| c::keychain_networks(as_ref(&o), as_mut(v), as_mut(e)));
  if let Some(mut n) = r {
    assert!(n.count == 2, "number of networks");
    let l = std::slice::from_raw_parts(n.ptr, 2);
    assert!(l[0] == PARTS[0] && l[1] == PARTS[1], "the networks");
    let p = n.ptr;
    c::delete_networks(as_mut(&mut n));
    assert!(n.ptr.is_null(), "a deleted list leaves its owner's pointer");
    c::delete_networks(as_mut(&mut n));
    reach(true);
  }
}
unsafe fn has(case: Case) {
  let (o, n) = (object(), any::<u32>());
  let r = call(case, HAS, o as usize, |v: &mut bool, e| c::keychain_manager_has_network(as_ref(&o), CNet(n), as_mut(v), as_mut(e)));
  if let Some(b) = r {
    assert!(NET == n && b == TRUTH, "the network and the answer");
    reach(true);
  }
}
unsafe fn public(case: Case) {
  let (o, n, p) = (object(), any::<u32>(), any::<Path>());
  let r = call(case, PUB, o as usize, |v: &mut Data, e| {
    c::keychain_pub_key(as_ref(&o), CNet(n), by_value(p), as_mut(v), as_mut(e))
  });
  if let Some(d) = r {
    assert!(NET == n && PATH == p, "the arguments reach the keychain");
    is_data(d, &VALUE);
  }
}
unsafe fn sign(case: Case) {
  let (o, n, p) = (object(), any::<u32>(), any::<Path>());
  let r = call(case, SIGN, o as usize, |v: &mut Data, e| {
    c::keychain_sign(as_ref(&o), CNet(n), BYTES.as_ptr(), 5, by_value(p), as_mut(v), as_mut(e))
  });
  if let Some(d) = r {
    assert!(NET == n && PATH == p && given(0, &BYTES[..5]), "the arguments reach the keychain");
    is_data(d, &VALUE);
  }
}
unsafe fn verify(case: Case) {
  let (o, n, p) = (object(), any::<u32>(), any::<Path>());
  let r = call(case, VERIFY, o as usize, |v: &mut bool, e| {
    c::keychain_verify(as_ref(&o), CNet(n), BYTES.as_ptr(), 5, TEXT.as_ptr(), 4, by_value(p), as_mut(v), as_mut(e))
  });
  if let Some(b) = r {
    assert!(NET == n && PATH == p && given(0, &BYTES[..5]) && given(1, &TEXT[..4]), "the arguments reach the keychain");
    assert!(b == TRUTH, "the answer");
    reach(true);
  }
}
pub fn k_parse(s: &str) -> Result<GenericKeyPath, KeyPathError> {
  unsafe {
    arg(0, s.as_bytes());
    match answer(PARSE, 0, || std::mem::transmute::<Path, GenericKeyPath>(PARTS)) {
      Ok(p) => Ok(p),
      Result::Err(_) => Result::Err(KeyPathError::InvalidPartsCount(7))
    }
  }
}
unsafe fn parsed(case: Case) {
  let r = call(case, PARSE, 0, |v: &mut Path, e| c::keypath_from_string(text(&TEXT), as_mut(v), as_mut(e)));
  if let Some(p) = r {
    assert!(given(0, &TEXT[..3]), "the text reaches the library");
    assert!(p == arr(&std::mem::transmute::<Path, GenericKeyPath>(PARTS)), "the path is the library's");
    reach(true);
  }
}
/// a C path constructor gives what the library's gives
unsafe fn path_is<K: KeyPath>(case: Case, lib: Result<K, KeyPathError>, f: impl FnOnce(&mut Path, &mut Err) -> bool) {
  verif_panic::GHOST_PANICS = if case == Case::Panic { Some(Payload::Static("text")) } else { None };
  if case != Case::Panic {
    assume(lib.is_ok() == (case == Case::Value));
  }
  let (mut v, mut e) = (Path::EMPTY, Err::EMPTY);
  let ok = f(&mut v, &mut e);
  let lib = keep(lib);
  match (&*lib, verif_panic::GHOST_PANICS) {
    (Ok(p), None) => {
      assert!(ok && e == Err::EMPTY, "a call that succeeds leaves the error slot alone");
      assert!(v == arr(p), "the path is the library's");
      reach(true);
    }
    (_, g) => {
      assert!(!ok && v == Path::EMPTY, "a call that fails leaves the value slot alone");
      assert!(e.code == if g.is_some() { PANIC } else { 10 }, "code of the error");
      reach(true);
    }
  }
}

/// the bytes of these texts are below 128: they are UTF-8
pub fn utf8(b: &[u8]) -> Result<&str, std::str::Utf8Error> {
  assert!(b.len() <= 4, "ghost: text too long");
  for k in 0..b.len() {
    assert!(b[k] < 128, "ghost: another text");
  }
  Ok(unsafe { std::str::from_utf8_unchecked(b) })
}
unsafe fn length(s: *const c_char) -> usize {
  let mut n = 0;
  while *s.add(n) != 0 {
    n += 1;
  }
  n
}
/// a text of C ends at its first zero byte
pub unsafe fn c_str<'a>(s: *const c_char) -> &'a std::ffi::CStr {
  std::ffi::CStr::from_bytes_with_nul_unchecked(std::slice::from_raw_parts(s as *const u8, length(s) + 1))
}
/// the owner of a text of C owns it up to its first zero byte
pub unsafe fn c_owned(s: *mut c_char) -> std::ffi::CString {
  let n = length(s) + 1;
  std::ffi::CString::from_vec_with_nul_unchecked(Vec::from_raw_parts(s as *mut u8, n, n))
}

contracts! {
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::KeychainManager::keychain_data_from_seed, m_from_seed)]
  c24_25_26_seed_value [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); seed(Case::Value) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::KeychainManager::keychain_data_from_seed, m_from_seed)]
  c24_25_26_seed_error [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); seed(Case::Error) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::KeychainManager::keychain_data_from_seed, m_from_seed)]
  c24_25_26_seed_panic [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); seed(Case::Panic) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::KeychainManager::keychain_data_from_mnemonic, m_from_mnemonic)]
  c24_25_26_mnemonic_value [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); mnemonic(Case::Value) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::KeychainManager::keychain_data_from_mnemonic, m_from_mnemonic)]
  c24_25_26_mnemonic_error [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); mnemonic(Case::Error) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::KeychainManager::keychain_data_from_mnemonic, m_from_mnemonic)]
  c24_25_26_mnemonic_panic [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); mnemonic(Case::Panic) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::KeychainManager::change_password, m_change)]
  c24_25_26_change_value [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); change(Case::Value) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::KeychainManager::change_password, m_change)]
  c24_25_26_change_error [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); change(Case::Error) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::KeychainManager::change_password, m_change)]
  c24_25_26_change_panic [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); change(Case::Panic) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::KeychainManager::add_network, m_add)]
  c24_25_26_add_value [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); add(Case::Value) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::KeychainManager::add_network, m_add)]
  c24_25_26_add_error [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); add(Case::Error) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::KeychainManager::add_network, m_add)]
  c24_25_26_add_panic [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); add(Case::Panic) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::KeychainManager::keychain_from_data, m_open)]
  c24_25_26_open_value [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); open(Case::Value) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::KeychainManager::keychain_from_data, m_open)]
  c24_25_26_open_error [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); open(Case::Error) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::KeychainManager::keychain_from_data, m_open)]
  c24_25_26_open_panic [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); open(Case::Panic) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::KeychainManager::new, m_new)]
  c24_25_26_create_panic [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); create(Case::Panic) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::KeychainManager::generate_mnemonic, m_generate)]
  c24_25_26_generate_value [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); generate(Case::Value) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::KeychainManager::generate_mnemonic, m_generate)]
  c24_25_26_generate_error [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); generate(Case::Error) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::KeychainManager::generate_mnemonic, m_generate)]
  c24_25_26_generate_panic [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); generate(Case::Panic) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::KeychainManager::retrieve_mnemonic, m_retrieve)]
  c24_25_26_retrieve_value [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); retrieve(Case::Value) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::KeychainManager::retrieve_mnemonic, m_retrieve)]
  c24_25_26_retrieve_error [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); retrieve(Case::Error) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::KeychainManager::retrieve_mnemonic, m_retrieve)]
  c24_25_26_retrieve_panic [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); retrieve(Case::Panic) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::KeychainManager::get_keys_data, m_keys)]
  c24_25_26_keys_value [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); keys(Case::Value) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::KeychainManager::get_keys_data, m_keys)]
  c24_25_26_keys_error [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); keys(Case::Error) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::KeychainManager::get_keys_data, m_keys)]
  c24_25_26_keys_panic [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); keys(Case::Panic) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::Keychain::networks, k_networks)]
  c24_25_26_networks_value [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); networks(Case::Value) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::Keychain::networks, k_networks)]
  c24_25_26_networks_panic [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); networks(Case::Panic) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::KeychainManager::has_network, m_has)]
  c24_25_26_has_value [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); has(Case::Value) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::KeychainManager::has_network, m_has)]
  c24_25_26_has_panic [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); has(Case::Panic) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::Keychain::pub_key, k_pub)]
  c24_25_26_public_value [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); public(Case::Value) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::Keychain::pub_key, k_pub)]
  c24_25_26_public_error [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); public(Case::Error) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::Keychain::pub_key, k_pub)]
  c24_25_26_public_panic [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); public(Case::Panic) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::Keychain::sign, k_sign)]
  c24_25_26_sign_value [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); sign(Case::Value) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::Keychain::sign, k_sign)]
  c24_25_26_sign_error [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); sign(Case::Error) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::Keychain::sign, k_sign)]
  c24_25_26_sign_panic [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); sign(Case::Panic) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::Keychain::verify, k_verify)]
  c24_25_26_verify_value [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); verify(Case::Value) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::Keychain::verify, k_verify)]
  c24_25_26_verify_error [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); verify(Case::Error) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::Keychain::verify, k_verify)]
  c24_25_26_verify_panic [24] { unsafe { VALUE = any(); PARTS = any(); TRUTH = any(); verify(Case::Panic) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  c25_26_path_bip44_value [24] {
    let (t, a, ch, ad): (bool, u32, u32, u32) = (any(), any(), any(), any());
    unsafe { path_is(Case::Value, keychain::networks::bitcoin::KeyPath::bip44(t, a, ch, ad), |v, e| c::keypath_bitcoin_new_bip44(t, a, ch, ad, as_mut(v), as_mut(e))) }
  }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  c25_26_path_bip44_error [24] {
    let (t, a, ch, ad): (bool, u32, u32, u32) = (any(), any(), any(), any());
    unsafe { path_is(Case::Error, keychain::networks::bitcoin::KeyPath::bip44(t, a, ch, ad), |v, e| c::keypath_bitcoin_new_bip44(t, a, ch, ad, as_mut(v), as_mut(e))) }
  }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  c25_26_path_bip44_panic [24] {
    let (t, a, ch, ad): (bool, u32, u32, u32) = (any(), any(), any(), any());
    unsafe { path_is(Case::Panic, keychain::networks::bitcoin::KeyPath::bip44(t, a, ch, ad), |v, e| c::keypath_bitcoin_new_bip44(t, a, ch, ad, as_mut(v), as_mut(e))) }
  }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  c25_26_path_bip49_value [24] {
    let (t, a, ch, ad): (bool, u32, u32, u32) = (any(), any(), any(), any());
    unsafe { path_is(Case::Value, keychain::networks::bitcoin::KeyPath::bip49(t, a, ch, ad), |v, e| c::keypath_bitcoin_new_bip49(t, a, ch, ad, as_mut(v), as_mut(e))) }
  }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  c25_26_path_bip49_error [24] {
    let (t, a, ch, ad): (bool, u32, u32, u32) = (any(), any(), any(), any());
    unsafe { path_is(Case::Error, keychain::networks::bitcoin::KeyPath::bip49(t, a, ch, ad), |v, e| c::keypath_bitcoin_new_bip49(t, a, ch, ad, as_mut(v), as_mut(e))) }
  }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  c25_26_path_bip49_panic [24] {
    let (t, a, ch, ad): (bool, u32, u32, u32) = (any(), any(), any(), any());
    unsafe { path_is(Case::Panic, keychain::networks::bitcoin::KeyPath::bip49(t, a, ch, ad), |v, e| c::keypath_bitcoin_new_bip49(t, a, ch, ad, as_mut(v), as_mut(e))) }
  }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  c25_26_path_bip84_value [24] {
    let (t, a, ch, ad): (bool, u32, u32, u32) = (any(), any(), any(), any());
    unsafe { path_is(Case::Value, keychain::networks::bitcoin::KeyPath::bip84(t, a, ch, ad), |v, e| c::keypath_bitcoin_new_bip84(t, a, ch, ad, as_mut(v), as_mut(e))) }
  }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  c25_26_path_bip84_error [24] {
    let (t, a, ch, ad): (bool, u32, u32, u32) = (any(), any(), any(), any());
    unsafe { path_is(Case::Error, keychain::networks::bitcoin::KeyPath::bip84(t, a, ch, ad), |v, e| c::keypath_bitcoin_new_bip84(t, a, ch, ad, as_mut(v), as_mut(e))) }
  }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  c25_26_path_bip84_panic [24] {
    let (t, a, ch, ad): (bool, u32, u32, u32) = (any(), any(), any(), any());
    unsafe { path_is(Case::Panic, keychain::networks::bitcoin::KeyPath::bip84(t, a, ch, ad), |v, e| c::keypath_bitcoin_new_bip84(t, a, ch, ad, as_mut(v), as_mut(e))) }
  }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  c25_26_path_cardano_value [24] {
    let (a, ch, ad): (u32, u32, u32) = (any(), any(), any());
    unsafe { path_is(Case::Value, keychain::networks::cardano::KeyPath::new(a, ch, ad), |v, e| c::keypath_cardano_new(a, ch, ad, as_mut(v), as_mut(e))) }
  }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  c25_26_path_cardano_error [24] {
    let (a, ch, ad): (u32, u32, u32) = (any(), any(), any());
    unsafe { path_is(Case::Error, keychain::networks::cardano::KeyPath::new(a, ch, ad), |v, e| c::keypath_cardano_new(a, ch, ad, as_mut(v), as_mut(e))) }
  }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  c25_26_path_cardano_panic [24] {
    let (a, ch, ad): (u32, u32, u32) = (any(), any(), any());
    unsafe { path_is(Case::Panic, keychain::networks::cardano::KeyPath::new(a, ch, ad), |v, e| c::keypath_cardano_new(a, ch, ad, as_mut(v), as_mut(e))) }
  }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  c25_26_path_ethereum_value [24] {
    let a: u32 = any();
    unsafe { path_is(Case::Value, keychain::networks::ethereum::KeyPath::new(a), |v, e| c::keypath_ethereum_new(a, as_mut(v), as_mut(e))) }
  }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  c25_26_path_ethereum_error [24] {
    let a: u32 = any();
    unsafe { path_is(Case::Error, keychain::networks::ethereum::KeyPath::new(a), |v, e| c::keypath_ethereum_new(a, as_mut(v), as_mut(e))) }
  }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  c25_26_path_ethereum_panic [24] {
    let a: u32 = any();
    unsafe { path_is(Case::Panic, keychain::networks::ethereum::KeyPath::new(a), |v, e| c::keypath_ethereum_new(a, as_mut(v), as_mut(e))) }
  }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  c25_26_path_metamask_value [24] {
    let a: u32 = any();
    unsafe { path_is(Case::Value, keychain::networks::ethereum::KeyPath::new_metamask(a), |v, e| c::keypath_ethereum_new_metamask(a, as_mut(v), as_mut(e))) }
  }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  c25_26_path_metamask_error [24] {
    let a: u32 = any();
    unsafe { path_is(Case::Error, keychain::networks::ethereum::KeyPath::new_metamask(a), |v, e| c::keypath_ethereum_new_metamask(a, as_mut(v), as_mut(e))) }
  }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  c25_26_path_metamask_panic [24] {
    let a: u32 = any();
    unsafe { path_is(Case::Panic, keychain::networks::ethereum::KeyPath::new_metamask(a), |v, e| c::keypath_ethereum_new_metamask(a, as_mut(v), as_mut(e))) }
  }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::GenericKeyPath::from, k_parse)]
  c25_26_parse_value [24] { unsafe { VALUE = any(); PARTS = any(); parsed(Case::Value) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::GenericKeyPath::from, k_parse)]
  c25_26_parse_error [24] { unsafe { VALUE = any(); PARTS = any(); parsed(Case::Error) } }
  #[kani::stub(std::fmt::format, formats)]
  #[kani::stub(str::replace, replaces)]
  #[kani::stub(std::ffi::CString::new, c_text)]
  #[kani::stub(std::str::from_utf8, utf8)]
  #[kani::stub(std::ffi::CString::from_raw, c_owned)]
  #[kani::stub(std::ffi::CStr::from_ptr, c_str)]
  #[kani::stub(keychain::GenericKeyPath::from, k_parse)]
  c25_26_parse_panic [24] { unsafe { VALUE = any(); PARTS = any(); parsed(Case::Panic) } }
  c26_networks [2] {
    assert!(c::NETWORK_BITCOIN().0 == RNet::BITCOIN.0, "number of Bitcoin");
    assert!(c::NETWORK_CARDANO().0 == RNet::CARDANO.0, "number of Cardano");
    assert!(c::NETWORK_ETHEREUM().0 == RNet::ETHEREUM.0, "number of Ethereum");
    reach(true);
  }
  c24_nulls [2] {
    unsafe {
      let (n, l): (usize, i32) = (any(), any_lang());
      let mut d = Data { ptr: null(), len: n };
      c::delete_data(as_mut(&mut d));
      c::delete_string(null());
      let k: i32 = any();
      assume(k >= -1 && k < 12);
      let mut e = Err { code: k, message: null() };
      c::delete_error(as_mut(&mut e));
      let mut w = Nets { ptr: null(), count: n };
      c::delete_networks(as_mut(&mut w));
      let mut b = Backup { ptr: null(), count: n };
      c::delete_key_backup(as_mut(&mut b));
      let mut i = Info { mnemonic: null(), language: l };
      c::delete_mnemonic_info(as_mut(&mut i));
      let mut o: Obj = std::ptr::null_mut();
      c::delete_keychain(as_mut(&mut o));
      c::delete_keychain_manager(as_mut(&mut o));
      assert!(d.ptr.is_null() && e.message.is_null() && w.ptr.is_null() && b.ptr.is_null() && i.mnemonic.is_null() && o.is_null());
      reach(true);
    }
  }
}
