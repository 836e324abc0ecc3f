use super::track::*;
use keychain::{crypt, Entropy, GenericKeyPath, Keychain, KeychainManager, Language as RLang, Network as RNet};
use rt::*;
use rust_keychain as c;
use serde_json::json;
use std::ffi::CString;
use std::mem::{size_of, size_of_val, ManuallyDrop};
use std::os::raw::{c_char, c_void};
use std::ptr::null;

// ---------------------------------------------------------------- the structures of the C header

#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug)]
struct Data {
  ptr: *const u8,
  len: usize
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug)]
struct Nets {
  ptr: *const u32,
  count: usize
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug)]
struct Elem {
  network: u32,
  data: Data
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug)]
struct Backup {
  ptr: *const Elem,
  count: usize
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug)]
struct Info {
  mnemonic: *const c_char,
  language: i32
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug)]
struct Err {
  code: i32,
  message: *const c_char
}
type Path = [u32; 5];
type Obj = *mut c_void;

const PANIC: i32 = -1;
const WRONG_PASSWORD: i32 = 0;
const NOT_ENOUGH_DATA: i32 = 1;
const SEED_IS_NOT_SAVED: i32 = 2;
const DATA_ERROR: i32 = 4;
const INVALID_SEED_SIZE: i32 = 5;
const KEY_DOES_NOT_EXIST: i32 = 6;
const KEY_ALREADY_EXIST: i32 = 7;
const NETWORK_IS_NOT_SUPPORTED: i32 = 8;
const KEY_ERROR: i32 = 9;
const KEY_PATH_ERROR: i32 = 10;
const MNEMONIC_ERROR: i32 = 11;

/// the code of a library error, by its name
fn code_of(e: &keychain::Error) -> i32 {
  use keychain::Error::*;
  match *e {
    WrongPassword => WRONG_PASSWORD,
    NotEnoughData => NOT_ENOUGH_DATA,
    SeedIsNotSaved => SEED_IS_NOT_SAVED,
    CantCalculateSeedSize(..) => 3,
    DataError(_) => DATA_ERROR,
    InvalidSeedSize(_) => INVALID_SEED_SIZE,
    KeyDoesNotExist(_) => KEY_DOES_NOT_EXIST,
    KeyAlreadyExist(_) => KEY_ALREADY_EXIST,
    NetworkIsNotSupported(_) => NETWORK_IS_NOT_SUPPORTED,
    KeyError(..) => KEY_ERROR,
    KeyPathError(_) => KEY_PATH_ERROR,
    MnemonicError(_) => MNEMONIC_ERROR
  }
}

/// `&mut x` as the library's structure of the same layout
unsafe fn as_mut<T, U>(x: &mut T) -> &mut U {
  assert!(size_of::<T>() == size_of::<U>(), "size of a structure of the C header");
  &mut *(x as *mut T as *mut U)
}
unsafe fn as_ref<T, U>(x: &T) -> &U {
  assert!(size_of::<T>() == size_of::<U>(), "size of a structure of the C header");
  &*(x as *const T as *const U)
}
unsafe fn by_value<T: Copy, U>(x: T) -> U {
  assert!(size_of::<T>() == size_of::<U>(), "size of a structure of the C header");
  std::mem::transmute_copy(&ManuallyDrop::new(x))
}

const MARK: usize = 0x5a5a_0000;
fn no_data() -> Data {
  Data { ptr: MARK as *const u8, len: 7 }
}
fn no_err() -> Err {
  Err { code: 5, message: (MARK + 8) as *const c_char }
}
fn no_path() -> Path {
  [11, 12, 13, 14, 15]
}

// ---------------------------------------------------------------- the calls

/// the value of a C call or its error; checks that exactly one slot is written
fn call<T: Copy + PartialEq + std::fmt::Debug>(empty: T, f: impl FnOnce(&mut T, &mut Err) -> bool) -> Result<T, Err> {
  let (mut v, mut e) = (empty, no_err());
  let ok = on(|| f(&mut v, &mut e));
  if ok {
    assert!(e == no_err(), "a call that succeeds leaves the error slot alone");
    Ok(v)
  } else {
    assert!(v == empty, "a call that fails leaves the value slot alone");
    assert!(!e.message.is_null() && e.message != no_err().message, "a call that fails fills the error slot");
    Result::Err(e)
  }
}
fn text(t: &str) -> ManuallyDrop<CString> {
  // owned by the caller: never released through the interface
  ManuallyDrop::new(CString::new(t).unwrap())
}
fn done(t: ManuallyDrop<CString>) {
  drop(ManuallyDrop::into_inner(t))
}

macro_rules! with_text {
  ($($n:ident = $t:expr),* ; $e:expr) => {{
    $(let $n = text($t);)*
    let r = $e;
    $(done($n);)*
    r
  }};
}

fn manager() -> Obj {
  call(MARK as Obj, |v, e| unsafe { c::keychain_manager_new(as_mut(v), as_mut(e)) }).expect("a manager")
}
fn has_network(m: Obj, n: u32) -> bool {
  let f = any::<bool>();
  let mut r = f;
  let mut e = no_err();
  let ok = on(|| unsafe { c::keychain_manager_has_network(as_ref(&m), c::Network(n), &mut r, as_mut(&mut e)) });
  assert!(ok && e == no_err(), "has_network succeeds");
  r
}
fn generate(m: Obj, lang: i32) -> Result<*const c_char, Err> {
  call(null(), |v, e| unsafe { c::keychain_manager_generate_mnemonic(as_ref(&m), by_value(lang), as_mut(v), as_mut(e)) })
}
fn from_seed(m: Obj, seed: &[u8], pass: &CString) -> Result<Data, Err> {
  call(no_data(), |v, e| unsafe {
    c::keychain_manager_keychain_data_from_seed(as_ref(&m), seed.as_ptr(), seed.len(), pass.as_ptr(), as_mut(v), as_mut(e))
  })
}
fn from_mnemonic(m: Obj, phrase: &CString, pass: &CString, lang: i32) -> Result<Data, Err> {
  call(no_data(), |v, e| unsafe {
    c::keychain_manager_keychain_data_from_mnemonic(as_ref(&m), phrase.as_ptr(), pass.as_ptr(), by_value(lang), as_mut(v), as_mut(e))
  })
}
fn open(m: Obj, data: &[u8], pass: &CString) -> Result<Obj, Err> {
  call(MARK as Obj, |v, e| unsafe {
    c::keychain_manager_keychain_from_data(as_ref(&m), data.as_ptr(), data.len(), pass.as_ptr(), as_mut(v), as_mut(e))
  })
}
fn add(m: Obj, data: &[u8], pass: &CString, n: u32) -> Result<Data, Err> {
  call(no_data(), |v, e| unsafe {
    c::keychain_manager_add_network(as_ref(&m), data.as_ptr(), data.len(), pass.as_ptr(), c::Network(n), as_mut(v), as_mut(e))
  })
}
fn change(m: Obj, data: &[u8], old: &CString, new: &CString) -> Result<Data, Err> {
  call(no_data(), |v, e| unsafe {
    c::keychain_manager_change_password(as_ref(&m), data.as_ptr(), data.len(), old.as_ptr(), new.as_ptr(), as_mut(v), as_mut(e))
  })
}
fn backup(m: Obj, data: &[u8], pass: &CString) -> Result<Backup, Err> {
  call(Backup { ptr: MARK as *const Elem, count: 3 }, |v, e| unsafe {
    c::keychain_manager_get_keys_data(as_ref(&m), data.as_ptr(), data.len(), pass.as_ptr(), as_mut(v), as_mut(e))
  })
}
fn retrieve(m: Obj, data: &[u8], pass: &CString) -> Result<Info, Err> {
  call(Info { mnemonic: MARK as *const c_char, language: 2 }, |v, e| unsafe {
    c::keychain_manager_retrieve_mnemonic(as_ref(&m), data.as_ptr(), data.len(), pass.as_ptr(), as_mut(v), as_mut(e))
  })
}
fn networks(k: Obj) -> Nets {
  call(Nets { ptr: MARK as *const u32, count: 9 }, |v, e| unsafe { c::keychain_networks(as_ref(&k), as_mut(v), as_mut(e)) })
    .expect("networks")
}
fn pub_key(k: Obj, n: u32, p: Path) -> Result<Data, Err> {
  call(no_data(), |v, e| unsafe { c::keychain_pub_key(as_ref(&k), c::Network(n), by_value(p), as_mut(v), as_mut(e)) })
}
fn sign(k: Obj, n: u32, d: &[u8], p: Path) -> Result<Data, Err> {
  call(no_data(), |v, e| unsafe {
    c::keychain_sign(as_ref(&k), c::Network(n), d.as_ptr(), d.len(), by_value(p), as_mut(v), as_mut(e))
  })
}
fn verify(k: Obj, n: u32, d: &[u8], s: &[u8], p: Path) -> Result<bool, Err> {
  let mut v: u8 = any::<bool>() as u8;
  let before = v;
  let mut e = no_err();
  let ok = on(|| unsafe {
    c::keychain_verify(as_ref(&k), c::Network(n), d.as_ptr(), d.len(), s.as_ptr(), s.len(), by_value(p), as_mut(&mut v), as_mut(&mut e))
  });
  if ok {
    assert!(e == no_err(), "a call that succeeds leaves the error slot alone");
    Ok(v != 0)
  } else {
    assert!(v == before, "a call that fails leaves the value slot alone");
    assert!(e.message != no_err().message, "a call that fails fills the error slot");
    Result::Err(e)
  }
}
fn parse(t: &CString) -> Result<Path, Err> {
  call(no_path(), |v, e| unsafe { c::keypath_from_string(t.as_ptr(), as_mut(v), as_mut(e)) })
}

// ---------------------------------------------------------------- checked release

fn released_once(p: *const u8, what: &str) {
  assert!(released(p), "{} is not released by its delete function", what);
}
/// takes the contents and releases them
fn take(mut d: Data) -> Vec<u8> {
  assert!(!d.ptr.is_null(), "data without an address");
  let v = unsafe { std::slice::from_raw_parts(d.ptr, d.len) }.to_vec();
  if d.len > 0 {
    assert!(owned(d.ptr) == Some((d.len, 1)), "data does not describe the memory it owns");
  }
  let p = d.ptr;
  unsafe { c_delete_data(&mut d) };
  if d.len > 0 {
    released_once(p, "data");
  }
  v
}
unsafe fn c_delete_data(d: &mut Data) {
  del(d, "data", |d| d.ptr.is_null(), |d| rust_delete_data(d))
}
extern "C" {
  // these take structures that Rust code can't name; called as C does
  #[link_name = "delete_data"]
  fn sym_delete_data(d: *mut Data);
  #[link_name = "delete_string"]
  fn sym_delete_string(p: *const c_char);
}
unsafe fn rust_delete_data(d: &mut Data) {
  sym_delete_data(d)
}
/// deletes, and deletes again; then deletes a null value
unsafe fn del<T>(x: &mut T, what: &str, null: impl Fn(&T) -> bool, f: impl Fn(&mut T)) {
  on(|| f(x));
  assert!(null(x), "deleting {} leaves its owner's pointer", what);
  on(|| f(x));
  assert!(null(x), "deleting {} again changes it", what);
}
fn take_err(mut e: Err) -> (i32, String) {
  let t = unsafe { std::ffi::CStr::from_ptr(e.message) }.to_bytes().to_vec();
  let p = e.message as *const u8;
  assert!(owned(p) == Some((t.len() + 1, 1)), "an error message does not describe the memory it owns");
  unsafe { del(&mut e, "an error", |e| e.message.is_null(), |e| c::delete_error(as_mut(e))) };
  released_once(p, "an error message");
  (e.code, String::from_utf8(t).expect("an error message is UTF-8"))
}
fn take_string(p: *const c_char) -> String {
  let t = unsafe { std::ffi::CStr::from_ptr(p) }.to_bytes().to_vec();
  assert!(owned(p as *const u8) == Some((t.len() + 1, 1)), "a string does not describe the memory it owns");
  unsafe {
    on(|| sym_delete_string(p));
    released_once(p as *const u8, "a string");
    on(|| sym_delete_string(null()));
  }
  String::from_utf8(t).expect("a string is UTF-8")
}
fn take_nets(mut n: Nets) -> Vec<u32> {
  let v = unsafe { std::slice::from_raw_parts(n.ptr, n.count) }.to_vec();
  if n.count > 0 {
    assert!(owned(n.ptr as *const u8) == Some((4 * n.count, 4)), "a list of networks does not describe the memory it owns");
  }
  let p = n.ptr;
  unsafe { del(&mut n, "networks", |n| n.ptr.is_null(), |n| c::delete_networks(as_mut(n))) };
  if n.count > 0 {
    released_once(p as *const u8, "a list of networks");
  }
  v
}
fn take_backup(mut b: Backup) -> Vec<(u32, Vec<u8>)> {
  let l = unsafe { std::slice::from_raw_parts(b.ptr, b.count) }.to_vec();
  let v: Vec<(u32, Vec<u8>)> = l.iter().map(|e| (e.network, unsafe { std::slice::from_raw_parts(e.data.ptr, e.data.len) }.to_vec())).collect();
  if b.count > 0 {
    assert!(owned(b.ptr as *const u8) == Some((size_of_val(&l[..]), 8)), "a backup does not describe the memory it owns");
  }
  let p = b.ptr;
  unsafe { del(&mut b, "a backup", |b| b.ptr.is_null(), |b| c::delete_key_backup(as_mut(b))) };
  if b.count > 0 {
    released_once(p as *const u8, "a backup");
  }
  for e in &l {
    if e.data.len > 0 {
      released_once(e.data.ptr, "the key of a backup");
    }
  }
  v
}
fn take_info(mut i: Info) -> (String, i32) {
  let t = unsafe { std::ffi::CStr::from_ptr(i.mnemonic) }.to_bytes().to_vec();
  let p = i.mnemonic as *const u8;
  assert!(owned(p) == Some((t.len() + 1, 1)), "a phrase does not describe the memory it owns");
  unsafe { del(&mut i, "a phrase", |i| i.mnemonic.is_null(), |i| c::delete_mnemonic_info(as_mut(i))) };
  released_once(p, "a phrase");
  (String::from_utf8(t).expect("a phrase is UTF-8"), i.language)
}
fn drop_manager(mut m: Obj) {
  let p = m as *const u8;
  assert!(owned(p) == Some((size_of::<KeychainManager>(), std::mem::align_of::<KeychainManager>())), "a manager does not describe the memory it owns");
  unsafe { del(&mut m, "a manager", |m| m.is_null(), |m| c::delete_keychain_manager(as_mut(m))) };
  released_once(p, "a manager");
}
fn drop_keychain(mut k: Obj) {
  let p = k as *const u8;
  assert!(owned(p) == Some((size_of::<Keychain>(), std::mem::align_of::<Keychain>())), "a keychain does not describe the memory it owns");
  unsafe { del(&mut k, "a keychain", |k| k.is_null(), |k| c::delete_keychain(as_mut(k))) };
  released_once(p, "a keychain");
}

/// everything taken from a result, to compare with the library's
type Got<T> = Result<T, (i32, String)>;
fn got<T, U>(r: Result<T, Err>, f: impl Fn(T) -> U) -> Got<U> {
  match r {
    Ok(v) => Ok(f(v)),
    Result::Err(e) => Result::Err(take_err(e))
  }
}
fn want<T, U>(r: Result<T, keychain::Error>, f: impl Fn(T) -> U) -> Got<U> {
  r.map(f).map_err(|e| (code_of(&e), format!("{}", e).replace('\0', "\\0")))
}

// ---------------------------------------------------------------- wallets

struct Rnd;
impl Entropy for Rnd {
  fn fill_bytes(&self, into: &mut [u8]) {
    for b in into {
      *b = any()
    }
  }
}
fn bytes(max: usize) -> Vec<u8> {
  (0..upto(max)).map(|_| any::<u8>()).collect()
}
fn any_pass() -> String {
  (0..upto(6)).map(|_| ['a', 'b', 'é', '\u{3042}', ' ', '\u{1f600}'][upto(5)]).collect()
}
const LANGS: [RLang; 8] = [
  RLang::English, RLang::French, RLang::Japanese, RLang::Korean,
  RLang::ChineseSimplified, RLang::ChineseTraditional, RLang::Italian, RLang::Spanish
];
/// the number of each language in the C header
const C_LANGS: [i32; 8] = [0, 1, 2, 3, 4, 5, 6, 7];
const LANG_NAMES: [&str; 8] =
  ["English", "French", "Japanese", "Korean", "ChineseSimplified", "ChineseTraditional", "Italian", "Spanish"];

/// a phrase of the language with a valid checksum
fn any_phrase(bits: usize, l: usize) -> String {
  let e: Vec<u8> = (0..bits / 8).map(|_| any()).collect();
  let e = bip39::Entropy::from_slice(&e).unwrap();
  let s = e.to_mnemonics().to_string(LANGS[l].to_dict());
  (*s).to_owned()
}
fn seed_bits() -> usize {
  // the strength of a manager of all the networks
  static BITS: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
  *BITS.get_or_init(|| {
    let m = KeychainManager::new().unwrap();
    let t = m.generate_mnemonic(None).unwrap();
    t.split(' ').count() / 3 * 32
  })
}
const ALL: [RNet; 3] = [RNet::CARDANO, RNet::ETHEREUM, RNet::BITCOIN];

/// stored data with these parts
fn stored(seed: Option<&[u8]>, phrase: Option<&str>, lang: Option<usize>, keys: &[(u32, Vec<u8>)], pass: &str) -> Vec<u8> {
  let k: Vec<serde_json::Value> = keys.iter().map(|(n, d)| json!([n, base64::encode(d)])).collect();
  let i = json!({"seed": seed.map(|s| base64::encode(s)), "mnemonic": phrase, "dictionary": lang.map(|l| LANG_NAMES[l]), "keys": k});
  let o = json!({"version": 2, "data": base64::encode(&serde_json::to_vec(&i).unwrap())}).to_string();
  crypt::encrypt(o.as_bytes(), pass, &Rnd)
}
/// a wallet of some of the networks
fn any_wallet(pass: &str) -> (Vec<u8>, Vec<u32>) {
  let m = KeychainManager::new().unwrap();
  let seed: [u8; 64] = any();
  let full = m.keychain_data_from_seed(&seed, "").unwrap();
  let keys = m.get_keys_data(&full, "").unwrap();
  let some: Vec<(u32, Vec<u8>)> = keys.into_iter().filter(|_| upto(3) != 0).map(|(n, k)| (n.0, k)).collect();
  let nets = some.iter().map(|k| k.0).collect();
  let l = upto(7);
  let odd = ["a\u{0}b c", "", "é"][upto(2)].to_owned();
  let phrase = if upto(2) == 0 { odd } else { any_phrase(seed_bits(), l) };
  let d = match upto(4) {
    0 => stored(None, None, None, &some, pass),
    1 | 2 => stored(Some(&seed), None, None, &some, pass),
    3 => stored(Some(&seed), Some(&phrase), Some(l), &some, pass),
    _ => stored(None, Some(&phrase), Some(l), &some, pass)
  };
  (d, nets)
}
fn any_net() -> u32 {
  match upto(5) {
    0 => any(),
    _ => ALL[upto(2)].0
  }
}
fn any_path() -> Path {
  const H: u32 = 1 << 31;
  let coin = [H + 60, H, H + 1815][upto(2)];
  let mut p = [H + 44, coin, any::<u32>() | H, any::<bool>() as u32, any::<u32>() & (H - 1)];
  if upto(3) == 0 {
    p[upto(4)] = any();
  }
  p
}
struct P(Path);
impl keychain::KeyPath for P {
  fn purpose(&self) -> u32 { self.0[0] }
  fn coin(&self) -> u32 { self.0[1] }
  fn account(&self) -> u32 { self.0[2] }
  fn change(&self) -> u32 { self.0[3] }
  fn address(&self) -> u32 { self.0[4] }
}
fn arr(p: &dyn keychain::KeyPath) -> Path {
  [p.purpose(), p.coin(), p.account(), p.change(), p.address()]
}
fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
  v.sort();
  v
}

/// the same error as the library's; natively messages of C have no zero bytes
fn agree<T: PartialEq + std::fmt::Debug>(a: Got<T>, b: Got<T>, what: &str) {
  match (&a, &b) {
    (Ok(x), Ok(y)) => assert!(x == y, "{}: the value differs from the library's", what),
    (Result::Err(x), Result::Err(y)) => {
      assert!(x.0 == y.0, "{}: error code {} instead of {} ({})", what, x.0, y.0, y.1);
      assert!(x.1 == y.1, "{}: error message {:?} instead of {:?}", what, x.1, y.1);
    }
    (a, b) => panic!("{}: {:?} although the library gives {:?}", what, a, b)
  }
}

// ---------------------------------------------------------------- the contracts

/// opening a wallet and asking its keychain
fn keychain_calls() {
  let pass = any_pass();
  let (data, held) = any_wallet(&pass);
  let lib = KeychainManager::new().unwrap();
  let k2 = lib.keychain_from_data(&data, &pass).expect("the library opens it");
  let (n, p) = (if !held.is_empty() && upto(4) != 0 { held[upto(held.len() - 1)] } else { any_net() }, any_path());
  let msg = if upto(3) == 0 { Vec::new() } else { bytes(60) };
  let mut sig = bytes(70);
  let net = RNet(n);
  let w_nets = sorted(k2.networks().iter().map(|x| x.0).collect::<Vec<u32>>());
  let w_pub = want(k2.pub_key(&net, &P(p)), |x| x);
  let w_sig = want(k2.sign(&net, &msg, &P(p)), |x| x);
  if let Ok(s) = &w_sig {
    if any() {
      sig = s.clone();
    }
  }
  let w_ver = want(k2.verify(&net, &msg, &sig, &P(p)), |x| x);
  let none = any_net();
  let (g_nets, g_pub, g_sig, g_ver, has) = tracked(|| {
    let m = manager();
    let k = with_text!(t = &pass; open(m, &data, &t)).expect("opens");
    let r = (
      sorted(take_nets(networks(k))),
      got(pub_key(k, n, p), take),
      got(sign(k, n, &msg, p), take),
      got(verify(k, n, &msg, &sig, p), |x| x),
      has_network(m, none)
    );
    drop_keychain(k);
    drop_manager(m);
    r
  });
  assert!(g_nets == w_nets, "networks of the keychain");
  agree(g_pub, w_pub, "pub_key");
  agree(g_sig, w_sig, "sign");
  agree(g_ver, w_ver, "verify");
  assert!(has == lib.has_network(&RNet(none)), "has_network");
}

/// the manager's calls that produce data, on any wallet
fn manager_calls() {
  let pass = any_pass();
  let lib = KeychainManager::new().unwrap();
  let (mut data, _) = any_wallet(&pass);
  let mut asked = pass.clone();
  match upto(9) {
    0 => data.truncate(upto(59)),
    1 => { let i = upto(data.len() - 1); data[i] ^= 1 << upto(7) }
    2 => asked = any_pass(),
    3 => data = crypt::encrypt(&bytes(20), &pass, &Rnd),
    4 => data.clear(),
    _ => {}
  }
  let what = upto(3);
  match what {
    0 => {
      let next = any_pass();
      let w = want(lib.change_password(&data, &asked, &next), |d| crypt::decrypt(&d, &next).unwrap());
      let g = tracked(|| {
        let m = manager();
        let r = with_text!(a = &asked, b = &next; change(m, &data, &a, &b));
        let r = got(r, take);
        drop_manager(m);
        r
      });
      agree(g.map(|d| crypt::decrypt(&d, &next).expect("decrypts under the new password")), w, "change_password");
    }
    1 => {
      let n = any_net();
      let open = |d: Vec<u8>| sorted(lib.get_keys_data(&d, &asked).unwrap().into_iter().map(|(n, k)| (n.0, k)).collect::<Vec<_>>());
      let w = want(lib.add_network(&data, &asked, RNet(n)), open);
      let g = tracked(|| {
        let m = manager();
        let r = with_text!(a = &asked; add(m, &data, &a, n));
        let r = got(r, take);
        drop_manager(m);
        r
      });
      agree(g.map(open), w, "add_network");
    }
    2 => {
      let w = want(lib.get_keys_data(&data, &asked), |k| sorted(k.into_iter().map(|(n, k)| (n.0, k)).collect::<Vec<_>>()));
      let g = tracked(|| {
        let m = manager();
        let r = with_text!(a = &asked; backup(m, &data, &a));
        let r = got(r, |b| sorted(take_backup(b)));
        drop_manager(m);
        r
      });
      agree(g, w, "get_keys_data");
    }
    _ => {
      let w = want(lib.retrieve_mnemonic(&data, &asked), |(t, l)| (t, C_LANGS[LANGS.iter().position(|x| *x == l).unwrap()]));
      let g = tracked(|| {
        let m = manager();
        let r = with_text!(a = &asked; retrieve(m, &data, &a));
        let r = got(r, take_info);
        drop_manager(m);
        r
      });
      match &w {
        // a C string can't hold it
        Ok((t, _)) if t.contains('\0') => match g {
          Result::Err((PANIC, _)) => {}
          g => panic!("a phrase with a zero byte: {:?}", g)
        },
        _ => agree(g, w, "retrieve_mnemonic")
      }
    }
  }
}

/// creating wallets
fn creating() {
  let lib = KeychainManager::new().unwrap();
  let pass = any_pass();
  let keys = |d: &[u8]| {
    let mut k = lib.get_keys_data(d, &pass).expect("decrypts").into_iter().map(|(n, k)| (n.0, k)).collect::<Vec<_>>();
    k.sort();
    (k, lib.retrieve_mnemonic(d, &pass).ok())
  };
  let l = upto(7);
  match upto(2) {
    0 => {
      let seed = if upto(3) == 0 { bytes(130) } else { any::<[u8; 64]>().to_vec() };
      let w = want(lib.keychain_data_from_seed(&seed, &pass), |d| keys(&d));
      let g = tracked(|| {
        let m = manager();
        let r = with_text!(p = &pass; from_seed(m, &seed, &p));
        let r = got(r, take);
        drop_manager(m);
        r
      });
      agree(g.map(|d| keys(&d)), w, "keychain_data_from_seed");
    }
    1 => {
      let mut phrase = any_phrase([seed_bits(), seed_bits(), 96, 256][upto(3)], if upto(3) == 0 { upto(7) } else { l });
      if upto(4) == 0 {
        phrase.push_str(" zzzz");
      }
      let w = want(lib.keychain_data_from_mnemonic(&phrase, &pass, Some(LANGS[l])), |d| keys(&d));
      let g = tracked(|| {
        let m = manager();
        let r = with_text!(t = &phrase, p = &pass; from_mnemonic(m, &t, &p, C_LANGS[l]));
        let r = got(r, take);
        drop_manager(m);
        r
      });
      agree(g.map(|d| keys(&d)), w, "keychain_data_from_mnemonic");
    }
    _ => {
      let t = tracked(|| {
        let m = manager();
        let t = take_string(generate(m, C_LANGS[l]).expect("a phrase"));
        drop_manager(m);
        t
      });
      let mns = bip39::Mnemonics::from_string(LANGS[l].to_dict(), &t).expect("words of the language");
      assert!(bip39::Entropy::from_mnemonics(&mns).expect("checksum").as_ref().len() * 8 == seed_bits(), "strength of the phrase");
    }
  }
}

/// every language, in both directions
fn languages() {
  complete();
  for l in 0..8 {
    let t = {
      let m = manager();
      let p = generate(m, C_LANGS[l]).expect("a phrase");
      let t = unsafe { std::ffi::CStr::from_ptr(p) }.to_str().unwrap().to_owned();
      let mns = bip39::Mnemonics::from_string(LANGS[l].to_dict(), &t).expect("words of the language");
      bip39::Entropy::from_mnemonics(&mns).expect("checksum");
      t
    };
    let data = stored(None, Some(&t), Some(l), &[], "p");
    let i = tracked(|| {
      let m = manager();
      let r = with_text!(p = "p"; retrieve(m, &data, &p)).expect("the phrase");
      drop_manager(m);
      take_info(r)
    });
    assert!(i == (t.clone(), C_LANGS[l]), "language {} is {}", C_LANGS[l], i.1);
    let lib = KeychainManager::new().unwrap();
    let d = tracked(|| {
      let m = manager();
      let r = with_text!(t = &t, p = "p"; from_mnemonic(m, &t, &p, C_LANGS[l])).expect("data");
      drop_manager(m);
      take(r)
    });
    assert!(lib.retrieve_mnemonic(&d, "p").expect("stored") == (t, LANGS[l]), "language stored");
  }
}

/// texts and constructors of paths
fn paths() {
  use keychain::networks::{bitcoin, cardano, ethereum};
  const H: u32 = 1 << 31;
  let num = || any_of(&[0u32, 1, 2, 44, H - 1, H, H + 1, u32::MAX]);
  let (t, a, ch, ad): (bool, u32, u32, u32) = (any(), num(), num(), num());
  let part = |v: u32| if v >= H { format!("{}'", v - H) } else { v.to_string() };
  let mut s = format!("m/{}/{}/{}/{}/{}", part(num()), part(num()), part(a), part(ch), part(ad));
  match upto(5) {
    0 => s.push_str("/1"),
    1 => s = s.replace('m', ["é", "", "M"][upto(2)]),
    2 => s = s.replace('0', ["x", "", "99999999999", "é'"][upto(3)]),
    _ => {}
  }
  let w = [
    want(GenericKeyPath::from(&s).map_err(|e| e.into()), |p| arr(&p)),
    want(bitcoin::KeyPath::bip44(t, a, ch, ad).map_err(|e| e.into()), |p| arr(&p)),
    want(bitcoin::KeyPath::bip49(t, a, ch, ad).map_err(|e| e.into()), |p| arr(&p)),
    want(bitcoin::KeyPath::bip84(t, a, ch, ad).map_err(|e| e.into()), |p| arr(&p)),
    want(cardano::KeyPath::new(a, ch, ad).map_err(|e| e.into()), |p| arr(&p)),
    want(ethereum::KeyPath::new(a).map_err(|e| e.into()), |p| arr(&p)),
    want(ethereum::KeyPath::new_metamask(a).map_err(|e| e.into()), |p| arr(&p))
  ];
  let g = tracked(|| unsafe {
    [
      got(with_text!(t = &s; parse(&t)), |p| p),
      got(call(no_path(), |v, e| c::keypath_bitcoin_new_bip44(t, a, ch, ad, as_mut(v), as_mut(e))), |p| p),
      got(call(no_path(), |v, e| c::keypath_bitcoin_new_bip49(t, a, ch, ad, as_mut(v), as_mut(e))), |p| p),
      got(call(no_path(), |v, e| c::keypath_bitcoin_new_bip84(t, a, ch, ad, as_mut(v), as_mut(e))), |p| p),
      got(call(no_path(), |v, e| c::keypath_cardano_new(a, ch, ad, as_mut(v), as_mut(e))), |p| p),
      got(call(no_path(), |v, e| c::keypath_ethereum_new(a, as_mut(v), as_mut(e))), |p| p),
      got(call(no_path(), |v, e| c::keypath_ethereum_new_metamask(a, as_mut(v), as_mut(e))), |p| p)
    ]
  });
  let names = ["from_string", "bip44", "bip49", "bip84", "cardano", "ethereum", "metamask"];
  for (n, (g, w)) in names.iter().zip(g.iter().zip(w.iter())) {
    agree(g.clone(), w.clone(), n);
  }
}

fn numbers_of_networks() {
  complete();
  assert!(c::NETWORK_BITCOIN().0 == RNet::BITCOIN.0 && c::NETWORK_CARDANO().0 == RNet::CARDANO.0 && c::NETWORK_ETHEREUM().0 == RNet::ETHEREUM.0, "numbers of the networks");
}

/// text that is not UTF-8 panics in the library
fn panics() {
  let mut bad: Vec<u8> = bytes(10).into_iter().filter(|b| *b != 0).collect();
  bad.push(0xff);
  let bad = ManuallyDrop::new(CString::new(bad).unwrap());
  let data = bytes(100);
  let which = upto(8);
  let hide = any::<bool>();
  let r = tracked(|| {
    let m = manager();
    let good = text("p");
    let r = match which {
      0 => got(open(m, &data, &bad), |_| ()),
      1 => got(change(m, &data, &bad, &good), |_| ()),
      2 => got(add(m, &data, &bad, RNet::BITCOIN.0), |_| ()),
      3 => got(backup(m, &data, &bad), |_| ()),
      4 => got(retrieve(m, &data, &bad), |_| ()),
      5 => got(from_seed(m, &data, &bad), |_| ()),
      6 => got(from_mnemonic(m, &bad, &good, 0), |_| ()),
      7 => got(from_mnemonic(m, &good, &bad, 0), |_| ()),
      _ => got(parse(&bad), |_| ())
    };
    done(good);
    drop_manager(m);
    r
  });
  if hide {
    // only hides messages
    let hook = std::panic::take_hook();
    unsafe { c::keychain_init_library() };
    std::panic::set_hook(hook);
  }
  drop(ManuallyDrop::into_inner(bad));
  match r {
    Result::Err((PANIC, t)) => assert!(t.contains("Utf8Error"), "the message of a panic: {:?}", t),
    Result::Err((c, t)) => panic!("a panic is reported as {} {:?}", c, t),
    Ok(()) => panic!("a panic is reported as a success")
  }
}

/// zero bytes in the texts of errors and panics
fn zero_bytes() {
  let phrase: String = (0..1 + upto(20)).map(|_| ['a', '\0', '\\', 'é', ' '][upto(4)]).collect();
  let pass = "p";
  let data = stored(None, Some(&phrase), Some(0), &[], pass);
  let lib = KeychainManager::new().unwrap();
  let n = ALL[upto(2)].0;
  let w = want(lib.add_network(&data, pass, RNet(n)), |_| ());
  let (a, b) = tracked(|| {
    let m = manager();
    let r = with_text!(p = pass; (got(add(m, &data, &p, n), |_| ()), got(retrieve(m, &data, &p), take_info)));
    drop_manager(m);
    r
  });
  assert!(w.is_err());
  agree(a, w, "add_network");
  match b {
    Ok((t, 0)) => assert!(t == phrase && !phrase.contains('\0')),
    Result::Err((PANIC, _)) => assert!(phrase.contains('\0'), "a phrase is not given"),
    b => panic!("retrieve_mnemonic: {:?}", b)
  }
}

/// null values
fn nulls() {
  complete();
  tracked(|| on(|| unsafe {
    let mut d = Data { ptr: null(), len: 5 };
    sym_delete_data(&mut d);
    assert!(d == Data { ptr: null(), len: 5 } || d.ptr.is_null());
    sym_delete_string(null());
    let mut e = Err { code: 2, message: null() };
    c::delete_error(as_mut(&mut e));
    let mut n = Nets { ptr: null(), count: 4 };
    c::delete_networks(as_mut(&mut n));
    let mut b = Backup { ptr: null(), count: 4 };
    c::delete_key_backup(as_mut(&mut b));
    let mut i = Info { mnemonic: null(), language: 1 };
    c::delete_mnemonic_info(as_mut(&mut i));
    let mut o: Obj = std::ptr::null_mut();
    c::delete_keychain(as_mut(&mut o));
    c::delete_keychain_manager(as_mut(&mut o));
    assert!(e.message.is_null() && n.ptr.is_null() && b.ptr.is_null() && i.mnemonic.is_null() && o.is_null());
  }))
}

pub const TABLE: &[(&str, fn())] = &[
  ("c24_25_26_keychain", keychain_calls),
  ("c24_25_26_manager", manager_calls),
  ("c24_25_26_creating", creating),
  ("c24_25_26_paths", paths),
  ("c24_25_panics", panics),
  ("c24_nulls", nulls),
  ("c24_25_zero_bytes", zero_bytes),
  ("c26_languages", languages),
  ("c26_networks", numbers_of_networks)
];
