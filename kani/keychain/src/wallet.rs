//! Contracts of the wallet operations (C14, C16-C22), executed natively with the real dependencies
//! over the public API.
use super::{any_password, keep, HARD};
use keychain::*;
use rt::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

type R<T> = Result<T, keychain::Error>;
pub const LANGS: [Language; 8] = [
  Language::English, Language::French, Language::Japanese, Language::Korean,
  Language::ChineseSimplified, Language::ChineseTraditional, Language::Italian, Language::Spanish
];

fn any_lang() -> Language {
  LANGS[upto(7)]
}
fn bytes(max: usize) -> Vec<u8> {
  (0..upto(max)).map(|_| any::<u8>()).collect()
}
fn any_pass() -> String {
  any_password::<8>()
}
fn other_pass(p: &str) -> String {
  let q = any_pass();
  if q == p { format!("{}x", q) } else { q }
}

/// a random source for the contract's own encryptions
struct Rnd;
impl Entropy for Rnd {
  fn fill_bytes(&self, into: &mut [u8]) {
    for b in into {
      *b = any()
    }
  }
}
fn seal(data: &[u8], pass: &str) -> Vec<u8> {
  crypt::encrypt(data, pass, &Rnd)
}

// ---------------------------------------------------------------- abstract networks

/// the key data an abstract network derives from a seed
fn key_of(net: u32, seed: &[u8]) -> Vec<u8> {
  let mut v = vec![net as u8, (net >> 8) as u8, seed.len() as u8];
  let mut h = net ^ 0x9e37_79b9;
  for (i, b) in seed.iter().enumerate() {
    h = h.rotate_left(5).wrapping_mul(31).wrapping_add(*b as u32 + i as u32);
    if i % 9 == 0 {
      v.extend_from_slice(&h.to_be_bytes());
    }
  }
  v.extend_from_slice(&h.to_be_bytes());
  v
}

#[derive(Clone, Copy)]
struct Fact {
  net: u32,
  min: usize,
  max: usize,
  /// refuses every seed
  refuses: bool
}
struct AKey {
  net: u32,
  data: Vec<u8>
}
/// first byte of stored bytes that an abstract network refuses
const BAD: u8 = 0xee;
/// data that makes an abstract key's operation fail
const FAILS: &[u8] = b"fails";

impl KeyFactory for Fact {
  fn network(&self) -> Network {
    Network(self.net)
  }
  fn seed_size(&self) -> SeedSize {
    SeedSize { min: self.min, max: self.max }
  }
  fn key_from_data(&self, data: &[u8]) -> Result<Box<dyn Key>, KeyError> {
    if data.first() == Some(&BAD) {
      return Err(KeyError::InvalidKeySize(data.len(), 4242));
    }
    Ok(Box::new(AKey { net: self.net, data: data.to_vec() }))
  }
  fn key_data_from_seed(&self, seed: &[u8]) -> Result<Vec<u8>, KeyError> {
    if self.refuses {
      return Err(KeyError::InvalidKeySize(seed.len(), 77));
    }
    Ok(key_of(self.net, seed))
  }
}
fn answer(op: u8, net: u32, key: &[u8], parts: &[&[u8]], p: &dyn KeyPath) -> Result<Vec<u8>, KeyError> {
  if parts.first() == Some(&FAILS) || p.address() == 4141 {
    return Err(KeyError::InvalidSignatureSize(key.len() + op as usize, net as usize));
  }
  let mut v = vec![op];
  v.extend_from_slice(&net.to_be_bytes());
  v.push(key.len() as u8);
  v.extend_from_slice(key);
  for x in parts {
    v.push(x.len() as u8);
    v.extend_from_slice(x);
  }
  for x in [p.purpose(), p.coin(), p.account(), p.change(), p.address()] {
    v.extend_from_slice(&x.to_be_bytes());
  }
  Ok(v)
}
fn truth(v: &[u8]) -> bool {
  v.iter().fold(0u8, |a, b| a.wrapping_mul(7).wrapping_add(*b)) & 1 == 1
}
impl Key for AKey {
  fn network(&self) -> Network {
    Network(self.net)
  }
  fn pub_key(&self, path: &dyn KeyPath) -> Result<Vec<u8>, KeyError> {
    answer(1, self.net, &self.data, &[], path)
  }
  fn sign(&self, data: &[u8], path: &dyn KeyPath) -> Result<Vec<u8>, KeyError> {
    answer(2, self.net, &self.data, &[data], path)
  }
  fn verify(&self, data: &[u8], signature: &[u8], path: &dyn KeyPath) -> Result<bool, KeyError> {
    answer(3, self.net, &self.data, &[data, signature], path).map(|v| truth(&v))
  }
}

const NETS: [u32; 8] = [1, 2, 0, u32::MAX, HARD, HARD + 60, HARD + 1815, 77];

/// some of the networks, each at most once
fn any_nets(max: usize) -> Vec<u32> {
  let n = upto(max);
  let mut v: Vec<u32> = Vec::new();
  for _ in 0..n {
    let x = if upto(4) == 0 { any::<u32>() } else { NETS[upto(7)] };
    if !v.contains(&x) {
      v.push(x)
    }
  }
  v
}
fn manager(facts: &[Fact]) -> R<KeychainManager> {
  KeychainManager::with_factories(facts.iter().map(|f| Box::new(*f) as Box<dyn KeyFactory>).collect())
}
/// a manager of some networks whose common seed strength is `bits`
fn any_manager(bits: usize) -> (Vec<u32>, KeychainManager) {
  let mut nets = any_nets(4);
  if nets.is_empty() {
    nets.push(NETS[upto(7)]);
  }
  let k = upto(nets.len() - 1);
  let facts: Vec<Fact> = nets.iter().enumerate().map(|(i, n)| Fact {
    net: *n,
    min: if i == k { bits } else { upto(bits) },
    max: bits + upto(300),
    refuses: false
  }).collect();
  let m = manager(&facts).expect("a manager of networks with a common seed size");
  (nets, m)
}

// ---------------------------------------------------------------- stored data

#[derive(Clone, Debug, PartialEq)]
struct Wallet {
  seed: Option<Vec<u8>>,
  phrase: Option<String>,
  lang: Option<Language>,
  keys: BTreeMap<u32, Vec<u8>>
}

fn lang_name(l: Language) -> &'static str {
  match l {
    Language::English => "English",
    Language::French => "French",
    Language::Japanese => "Japanese",
    Language::Korean => "Korean",
    Language::ChineseSimplified => "ChineseSimplified",
    Language::ChineseTraditional => "ChineseTraditional",
    Language::Italian => "Italian",
    Language::Spanish => "Spanish"
  }
}
fn outer(version: Value, inner: &Value) -> Vec<u8> {
  json!({"version": version, "data": base64::encode(&serde_json::to_vec(inner).unwrap())}).to_string().into_bytes()
}
fn keys_json(w: &Wallet) -> Value {
  let mut l: Vec<Value> = w.keys.iter().map(|(n, k)| json!([n, base64::encode(k)])).collect();
  if any::<bool>() {
    l.reverse()
  }
  Value::Array(l)
}
impl Wallet {
  /// as version 2 stores it
  fn v2(&self) -> Vec<u8> {
    outer(json!(2), &json!({
      "seed": self.seed.as_ref().map(|s| base64::encode(s)),
      "mnemonic": self.phrase,
      "dictionary": self.lang.map(lang_name),
      "keys": keys_json(self)
    }))
  }
  /// as version 1 stored it
  fn v1(&self) -> Vec<u8> {
    outer(json!(1), &json!({ "keys": keys_json(self) }))
  }
  /// what stored data holds
  fn read(data: &[u8]) -> Wallet {
    let v: Value = serde_json::from_slice(data).expect("stored data is JSON");
    assert!(v["version"] == json!(2), "version of stored data");
    let i: Value = serde_json::from_slice(&base64::decode(v["data"].as_str().unwrap()).unwrap()).unwrap();
    let lang = i["dictionary"].as_str().map(|t| *LANGS.iter().find(|l| lang_name(**l) == t).expect("known language"));
    let list = i["keys"].as_array().unwrap();
    let keys: BTreeMap<u32, Vec<u8>> =
      list.iter().map(|e| (e[0].as_u64().unwrap() as u32, base64::decode(e[1].as_str().unwrap()).unwrap())).collect();
    assert!(keys.len() == list.len(), "a network is stored twice");
    Wallet {
      seed: i["seed"].as_str().map(|t| base64::decode(t).unwrap()),
      phrase: i["mnemonic"].as_str().map(|t| t.to_owned()),
      lang,
      keys
    }
  }
}
fn opened(data: &[u8], pass: &str) -> Wallet {
  Wallet::read(&crypt::decrypt(data, pass).expect("decrypts under its password"))
}

fn any_text(max: usize) -> String {
  let cs = ['a', ' ', '"', '\\', '\n', '\u{0}', '\u{3000}', 'é', 'あ', '\u{1f600}', '/', '\u{7f}', '\u{feff}', 'e', '\u{301}'];
  (0..upto(max)).map(|_| cs[upto(cs.len() - 1)]).collect()
}
fn any_wallet(nets: &[u32]) -> Wallet {
  let mut keys = BTreeMap::new();
  for n in nets {
    let mut k = bytes(120);
    if k.first() == Some(&BAD) {
      k[0] = 1
    }
    keys.insert(*n, k);
  }
  Wallet {
    seed: if any() { Some(bytes(80)) } else { None },
    phrase: if any() { Some(any_text(30)) } else { None },
    lang: if any() { Some(any_lang()) } else { None },
    keys
  }
}

/// a phrase of `words` words in the language, and its 64 byte seed
fn any_phrase(words: usize, lang: Language) -> (String, Vec<u8>) {
  use bip39::dictionary::Language as _;
  let d = lang.to_dict();
  let ix: Vec<bip39::MnemonicIndex> =
    (0..words).map(|_| bip39::MnemonicIndex::new((any::<u16>() & 2047) as u16).unwrap()).collect();
  let text = ix.iter().map(|i| d.lookup_word(*i).unwrap().to_string()).collect::<Vec<String>>().join(d.separator());
  let mut mac = cryptoxide::hmac::Hmac::new(cryptoxide::sha2::Sha512::new(), text.as_bytes());
  let mut seed = vec![0u8; 64];
  cryptoxide::pbkdf2::pbkdf2(&mut mac, b"mnemonic", 2048, &mut seed);
  (text, seed)
}

struct P([u32; 5]);
impl KeyPath for P {
  fn purpose(&self) -> u32 { self.0[0] }
  fn coin(&self) -> u32 { self.0[1] }
  fn account(&self) -> u32 { self.0[2] }
  fn change(&self) -> u32 { self.0[3] }
  fn address(&self) -> u32 { self.0[4] }
}

/// the keychain holds exactly these keys of abstract networks
fn holds(k: &Keychain, keys: &BTreeMap<u32, Vec<u8>>) {
  let mut have: Vec<u32> = k.networks().iter().map(|n| n.0).collect();
  have.sort();
  assert!(have == keys.keys().cloned().collect::<Vec<u32>>(), "networks of the keychain");
  let p = P([any(), any(), any(), any(), any_of(&[0, 4141])]);
  let data = if upto(5) == 0 { FAILS.to_vec() } else { bytes(40) };
  let sig = bytes(70);
  let errs = |net: u32, r: R<Vec<u8>>, want: Result<Vec<u8>, KeyError>| match (r, want) {
    (Ok(a), Ok(b)) => assert!(a == b, "the answer is that of the network's key, unchanged"),
    (Err(Error::KeyError(Network(n), KeyError::InvalidSignatureSize(a, b))), Err(KeyError::InvalidSignatureSize(c, d))) => {
      assert!(n == net, "the error is tagged with the network");
      assert!((a, b) == (c, d), "the error is that of the network's key");
    }
    (r, _) => panic!("answer of a network's key: {:?}", r)
  };
  for (n, data_of) in keys {
    let net = Network(*n);
    assert!(k.has_network(&net), "has_network of a held network");
    errs(*n, k.pub_key(&net, &p), answer(1, *n, data_of, &[], &p));
    errs(*n, k.sign(&net, &data, &p), answer(2, *n, data_of, &[&data], &p));
    match (k.verify(&net, &data, &sig, &p), answer(3, *n, data_of, &[&data, &sig], &p)) {
      (Ok(a), Ok(b)) => assert!(a == truth(&b), "the answer is that of the network's key, unchanged"),
      (Err(e), w) => errs(*n, Err(e), w),
      (Ok(_), Err(_)) => panic!("an answer although the key gives an error")
    }
  }
  for n in NETS.iter().cloned().chain(std::iter::once(any::<u32>())) {
    if keys.contains_key(&n) {
      continue;
    }
    let net = Network(n);
    assert!(!k.has_network(&net), "has_network of an absent network");
    let absent = |e: Option<Error>| match e {
      Some(Error::KeyDoesNotExist(Network(m))) => assert!(m == n, "the error names the network"),
      _ => panic!("an absent network gives key-does-not-exist")
    };
    absent(k.pub_key(&net, &p).err());
    absent(k.sign(&net, &data, &p).err());
    absent(k.verify(&net, &data, &sig, &p).err());
  }
}

fn wrong_password<T>(r: R<T>) {
  match r {
    Err(Error::WrongPassword) => {}
    Err(e) => panic!("a wrong password is reported as {:?}", e),
    Ok(_) => panic!("a wrong password is accepted")
  }
}
fn not_enough<T>(r: R<T>) {
  match r {
    Err(Error::NotEnoughData) => {}
    Err(e) => panic!("data that is too short is reported as {:?}", e),
    Ok(_) => panic!("data that is too short is accepted")
  }
}

// ---------------------------------------------------------------- C14

fn any_number_text() -> String {
  let v: u64 = [0, 1, 44, 1815, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, 9999999999, any::<u32>() as u64, any::<u64>()]
    [upto(12)];
  let mut t = v.to_string();
  match upto(11) {
    0 => t = format!("0{}", t),
    1 => t = format!("00000000000000{}", t),
    2 => t = String::new(),
    3 => {
      let c = ['x', '-', '+', '.', 'é', '٣', ' ', '\'', '\u{0}', '_', '’', '\u{a0}', 'h', 'H', '"'][upto(14)];
      let at = upto(t.len());
      t.insert(at, c)
    }
    _ => {}
  }
  match upto(7) {
    0 | 1 | 2 => t.push('\''),
    3 => t.push_str(["''", "'’", "' '", "h", "é'", "'é", "´", "\u{200b}"][upto(7)]),
    _ => {}
  }
  match upto(9) {
    0 => t.insert(0, ' '),
    1 => t.push('\t'),
    2 => t = format!("\u{a0}\n{}\u{3000}", t),
    _ => {}
  }
  t
}

/// what a part says: its number; Err(true): either answer is fine (a leading plus sign)
fn number(t: &str) -> Result<u32, bool> {
  let hard = t.ends_with('\'');
  let d = if hard { &t[..t.len() - 1] } else { t };
  let (plus, d) = if d.starts_with('+') { (true, &d[1..]) } else { (false, d) };
  if d.is_empty() || !d.bytes().all(|b| b >= b'0' && b <= b'9') {
    return Err(false);
  }
  let mut v: u64 = 0;
  for b in d.bytes() {
    v = (v * 10 + (b - b'0') as u64).min(1 << 40);
  }
  if v >= if hard { 1 << 31 } else { 1 << 32 } {
    return Err(false);
  }
  if plus {
    return Err(true);
  }
  Ok(v as u32 + if hard { HARD } else { 0 })
}

fn parse() {
  let mut parts: Vec<String> = vec![["m", "m", "m", " m ", "m\n", "M", "", "n", "mm", "0", "m'"][upto(10)].to_owned()];
  let n = [5, 5, 5, 5, 5, 5, 4, 6, 0, 12][upto(9)];
  // most texts have at most one odd part
  let odd = upto(7);
  for i in 0..n {
    parts.push(if i == odd || odd > 5 {
      any_number_text()
    } else {
      let v: u32 = any();
      if any() { format!("{}'", v & (HARD - 1)) } else { v.to_string() }
    });
  }
  parsed(&parts.join("/"));
}

fn parsed(text: &str) {
  let r = GenericKeyPath::from(text);
  let parts: Vec<&str> = text.split('/').map(|t| t.trim()).collect();
  let says = |e: &dyn std::fmt::Debug, what: &str| {
    let t = format!("{:?}", e);
    assert!(t.starts_with(what), "{:?} gives {}, not {}", text, t, what);
  };
  if parts.len() != 6 {
    match r {
      Ok(_) => panic!("{:?} accepted with {} parts", text, parts.len()),
      Err(e) => says(&e, &format!("InvalidPartsCount({})", parts.len()))
    }
    return;
  }
  if parts[0] != "m" {
    match r {
      Ok(_) => panic!("{:?} accepted without m", text),
      Err(e) => says(&e, &format!("InvalidPathMarker({:?})", parts[0]))
    }
    return;
  }
  let nums: Vec<Result<u32, bool>> = parts[1..].iter().map(|t| number(t)).collect();
  match r {
    Ok(p) => {
      let got = [p.purpose(), p.coin(), p.account(), p.change(), p.address()];
      for i in 0..5 {
        match nums[i] {
          Ok(v) => assert!(v == got[i], "part {} of {:?} is read as {}", i + 1, text, got[i]),
          Err(plus) => assert!(plus, "part {} of {:?} is accepted", i + 1, text)
        }
      }
    }
    Err(e) => {
      assert!(nums.iter().any(|x| x.is_err()), "{:?} is refused: {:?}", text, e);
      let t = format!("{:?}", e);
      let named: usize = t[t.find('(').unwrap() + 1..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap();
      assert!(t.starts_with("EmptyValueAtIndex") || t.starts_with("ParseErrorAtIndex"), "{:?} gives {}", text, t);
      assert!(named >= 1 && named <= 5 && nums[named - 1].is_err(), "{:?}: the error names part {}", text, named);
    }
  }
}

fn print_parse() {
  let p: [u32; 5] = [super::any_number(), super::any_number(), super::any_number(), super::any_number(), super::any_number()];
  let text = format!(
    "m/{}",
    p.iter().map(|v| if *v >= HARD { format!("{}'", v - HARD) } else { v.to_string() }).collect::<Vec<String>>().join("/")
  );
  let a = GenericKeyPath::from(&text).expect("a path");
  let printed = a.to_string();
  let again: String = (&a).into();
  assert!(printed == again, "both ways to print a path");
  let b = GenericKeyPath::from(&printed).expect("a printed path parses");
  assert!([b.purpose(), b.coin(), b.account(), b.change(), b.address()] == p, "{} parses as another path", printed);
}

fn garbage() {
  let cs = ['/', '/', '/', 'm', '0', '1', '4', '9', '\'', ' ', 'é', '-', '\u{3000}'];
  let t: String = (0..upto(24)).map(|_| cs[upto(cs.len() - 1)]).collect();
  parsed(&t);
}

// ---------------------------------------------------------------- C16

fn wallet_errors() {
  let (nets, m) = any_manager(128);
  let pass = any_pass();
  let w = any_wallet(&nets);
  let mut data = seal(&w.v2(), &pass);
  let bad: u32 = 91;
  if any() {
    data.truncate(upto(59));
    not_enough(m.keychain_from_data(&data, &pass));
    not_enough(m.change_password(&data, &pass, "n"));
    not_enough(m.add_network(&data, &pass, Network(nets[0])));
    not_enough(m.retrieve_mnemonic(&data, &pass));
    not_enough(m.get_keys_data(&data, &pass));
  } else {
    let mut p2 = pass.clone();
    match upto(2) {
      0 => p2 = other_pass(&pass),
      1 => { let i = upto(data.len() - 1); data[i] ^= 1 << upto(7) }
      _ => data.truncate(60 + upto(data.len() - 61))
    }
    match upto(4) {
      0 => wrong_password(m.keychain_from_data(&data, &p2)),
      1 => wrong_password(m.change_password(&data, &p2, "n")),
      2 => wrong_password(m.add_network(&data, &p2, Network(nets[0]))),
      3 => wrong_password(m.retrieve_mnemonic(&data, &p2)),
      _ => wrong_password(m.get_keys_data(&data, &p2))
    }
  }
  let _ = bad;
}

// ---------------------------------------------------------------- C17

fn from_seed() {
  let (nets, m) = any_manager([96, 128, 256][upto(2)]);
  let seed: [u8; 64] = any();
  let pass = any_pass();
  let data = m.keychain_data_from_seed(&seed, &pass).expect("data from a seed");
  let w = opened(&data, &pass);
  let want: BTreeMap<u32, Vec<u8>> = nets.iter().map(|n| (*n, key_of(*n, &seed))).collect();
  assert!(w == Wallet { seed: Some(seed.to_vec()), phrase: None, lang: None, keys: want.clone() }, "contents of a wallet made from a seed");
  holds(&m.keychain_from_data(&data, &pass).expect("opens"), &want);
}

fn from_phrase() {
  let bits = [96, 128, 160, 192, 224, 256][upto(5)];
  let (nets, m) = any_manager(bits);
  let lang = any_lang();
  let asked = if lang == Language::English && any() { None } else { Some(lang) };
  let pass = any_pass();
  let (text, seed) = any_phrase(bits / 32 * 3, lang);
  let data = m.keychain_data_from_mnemonic(&text, &pass, asked).expect("data from a phrase");
  let w = opened(&data, &pass);
  let want: BTreeMap<u32, Vec<u8>> = nets.iter().map(|n| (*n, key_of(*n, &seed))).collect();
  assert!(w.phrase.as_ref() == Some(&text), "stored phrase");
  assert!(w.lang == Some(lang), "stored language");
  assert!(w.keys == want, "keys of a phrase");
  holds(&m.keychain_from_data(&data, &pass).expect("opens"), &want);
  let by_seed = opened(&m.keychain_data_from_seed(&seed, &pass).expect("data from a seed"), &pass);
  assert!(by_seed.keys == want, "keys of the phrase's own seed");
}

fn refused_seed() {
  let (_, m) = any_manager(128);
  let seed = bytes(130);
  assume(seed.len() != 64);
  match m.keychain_data_from_seed(&seed, "p") {
    Err(Error::InvalidSeedSize(n)) => assert!(n == seed.len(), "the error names the size"),
    r => panic!("a seed of {} bytes gives {:?}", seed.len(), r.map(|_| ()))
  }
}

fn refused_phrase() {
  let bits = [96, 128, 160, 192, 224, 256][upto(5)];
  let (_, m) = any_manager(bits);
  let lang = any_lang();
  let words = upto(27);
  use bip39::dictionary::Language as _;
  let (text, _) = any_phrase(words, lang);
  let sep = lang.to_dict().separator();
  if any() || words == bits / 32 * 3 {
    // one piece that is no word
    let mut ws: Vec<&str> = text.split(sep).collect();
    let i = upto(ws.len() - 1);
    let odd = ["", "zzzzz", "Abandon", "abandon.", "\u{e9}", "ni\u{f1}", "0", " abandon"][upto(7)];
    assume(lang.to_dict().lookup_mnemonic(odd).is_err());
    ws[i] = odd;
    let text = ws.join(sep);
    match m.keychain_data_from_mnemonic(&text, "p", Some(lang)) {
      Err(Error::MnemonicError(e)) => {
        let want = format!("UnsupportedWordFound({:?})", text.split(sep).find(|w| lang.to_dict().lookup_mnemonic(w).is_err()).unwrap());
        let t = format!("{:?}", e);
        let count_bad = ws.len() != bits / 32 * 3;
        assert!(t == want || (count_bad && !t.starts_with("UnsupportedWord")), "an unknown word gives {}", t);
      }
      r => panic!("an unknown word gives {:?}", r.map(|_| ()))
    }
  } else {
    match m.keychain_data_from_mnemonic(&text, "p", Some(lang)) {
      Err(Error::MnemonicError(e)) => {
        let t = format!("{:?}", e);
        let want = bits / 32 * 3;
        if words >= 9 && words <= 24 && words % 3 == 0 {
          let w = if words < want { format!("MnemonicToShort({}, {})", words, want) } else { format!("MnemonicToLong({}, {})", words, want) };
          assert!(t == w, "{} words instead of {} give {}", words, want, t);
        } else if words > 0 {
          assert!(t == format!("WrongNumberOfWords({})", words), "{} words give {}", words, t);
        }
      }
      r => panic!("{} words instead of {} give {:?}", words, bits / 32 * 3, r.map(|_| ()))
    }
  }
}

fn failing_network() {
  let seed: [u8; 64] = any();
  let nets = any_nets(3);
  assume(!nets.is_empty());
  let k = upto(nets.len() - 1);
  let facts: Vec<Fact> = nets.iter().enumerate().map(|(i, n)| Fact { net: *n, min: 128, max: 256, refuses: i == k }).collect();
  let m = manager(&facts).expect("a manager");
  match m.keychain_data_from_seed(&seed, "p") {
    Err(Error::KeyError(Network(n), KeyError::InvalidKeySize(64, 77))) => assert!(n == nets[k], "the error is tagged with its network"),
    r => panic!("a network that refuses the seed gives {:?}", r.map(|_| ()))
  }
}

/// the library's own networks
fn real_networks() {
  let m = if any() { KeychainManager::new() } else { KeychainManager::with_networks(&[Network::CARDANO, Network::ETHEREUM, Network::BITCOIN]) }.expect("a manager");
  let seed: [u8; 64] = any();
  let data = m.keychain_data_from_seed(&seed, "").expect("data from a seed");
  let w = opened(&data, "");
  let k = m.keychain_from_data(&data, "").expect("opens");
  assert!(w.keys.len() == 3 && k.networks().len() == 3, "the three networks");
  for net in [super::Net::Eth, super::Net::Btc, super::Net::Ada] {
    let want = net.data_from_seed(&seed).expect("key data");
    assert!(w.keys.get(&net.network().0) == Some(&want), "stored key");
    let p = P([HARD + 44, net.coin(), HARD, 0, 3]);
    let key = net.load(&want).expect("key");
    assert!(k.pub_key(&net.network(), &p).expect("public key") == key.pub_key(&p).expect("public key"), "public key of the wallet");
    let s = k.sign(&net.network(), b"some data", &p).expect("signature");
    assert!(k.verify(&net.network(), b"some data", &s, &p).expect("verification"), "own signature");
  }
  let one = [Network::CARDANO, Network::ETHEREUM, Network::BITCOIN][upto(2)];
  let m = KeychainManager::with_networks(&[one, Network(12345)]).expect("a manager");
  assert!(m.has_network(&one) && !m.has_network(&Network(12345)));
  let k = m.keychain_from_data(&data, "").expect("opens");
  assert!(k.networks() == vec![one], "only the manager's networks");
}

// ---------------------------------------------------------------- C18

fn change_password() {
  let (_, m) = any_manager(128);
  let contents = if any() { bytes(300) } else { any_wallet(&any_nets(3)).v2() };
  let mut pass = any_pass();
  let mut data = seal(&contents, &pass);
  for _ in 0..1 + upto(2) {
    let before = data.clone();
    let next = if upto(5) == 0 { pass.clone() } else { any_pass() };
    let new = m.change_password(&data, &pass, &next).expect("the password is changed");
    assert!(data == before, "the original data is modified");
    assert!(crypt::decrypt(&new, &next).expect("decrypts under the new password") == contents, "contents after a password change");
    assert!(new[..44] != data[..44], "salt and nonce are fresh");
    if next != pass {
      wrong_password(m.change_password(&new, &pass, "x"));
    }
    data = new;
    pass = next;
  }
}

fn change_password_errors() {
  let (_, m) = any_manager(128);
  let pass = any_pass();
  let data = seal(&bytes(100), &pass);
  wrong_password(m.change_password(&data, &other_pass(&pass), &pass));
  not_enough(m.change_password(&data[..upto(59)], &pass, &pass));
  let mut bad = data.clone();
  let i = upto(data.len() - 1);
  bad[i] ^= 1 << upto(7);
  wrong_password(m.change_password(&bad, &pass, &pass));
}

// ---------------------------------------------------------------- C19

fn add_network() {
  let bits = 128;
  let (nets, m) = any_manager(bits);
  let mut held = any_nets(3);
  let new = if upto(9) == 0 { any::<u32>() } else { nets[upto(nets.len() - 1)] };
  if upto(4) != 0 {
    held.retain(|n| *n != new);
  }
  let mut w = any_wallet(&held);
  let lang = any_lang();
  let (text, from_text) = any_phrase(12, lang);
  let from_seed: [u8; 64] = any();
  match upto(7) {
    0 | 1 => { w.seed = Some(from_seed.to_vec()); w.phrase = None; w.lang = None }
    2 => { w.seed = Some(from_seed.to_vec()) }
    3 => { w.seed = Some(from_seed.to_vec()); w.phrase = Some(text.clone()); w.lang = Some(lang) }
    4 | 5 => { w.seed = None; w.phrase = Some(text.clone()); w.lang = Some(lang) }
    6 => { w.seed = None; w.phrase = None }
    _ => { w.seed = None; w.lang = None }
  }
  let pass = any_pass();
  let data = seal(&w.v2(), &pass);
  let before = data.clone();
  let r = m.add_network(&data, &pass, Network(new));
  assert!(data == before, "the original data is modified");
  let unsupported = !nets.contains(&new);
  let exists = w.keys.contains_key(&new);
  let no_seed = w.seed.is_none() && (w.phrase.is_none() || w.lang.is_none());
  match r {
    Ok(d) => {
      assert!(!unsupported && !exists && !no_seed, "a network is added that can't be");
      let seed = if w.seed.is_some() { from_seed.to_vec() } else { from_text };
      let mut want = w.clone();
      want.keys.insert(new, key_of(new, &seed));
      let got = opened(&d, &pass);
      assert!(got == want, "the wallet with the network added");
    }
    Err(Error::NetworkIsNotSupported(n)) => assert!(unsupported && n.0 == new, "not-supported for another reason"),
    Err(Error::KeyAlreadyExist(n)) => assert!(exists && n.0 == new, "already-exists for another reason"),
    Err(Error::SeedIsNotSaved) => assert!(no_seed, "seed-not-saved for another reason"),
    Err(e) => panic!("adding a network gives {:?}", e)
  }
}

/// with the library's own networks, from a wallet of the old version too
fn add_real_network() {
  let all = [Network::CARDANO, Network::ETHEREUM, Network::BITCOIN];
  let one = all[upto(2)];
  let seed: [u8; 64] = any();
  let first = KeychainManager::with_networks(&[one]).expect("a manager");
  let m = KeychainManager::new().expect("a manager");
  let mut data = first.keychain_data_from_seed(&seed, "p").expect("data");
  let full = opened(&m.keychain_data_from_seed(&seed, "p").expect("data"), "p");
  for n in all.iter() {
    if *n != one {
      data = m.add_network(&data, "p", *n).expect("added");
    }
  }
  assert!(opened(&data, "p") == full, "adding every network gives the wallet of all of them");
  let w = opened(&data, "p");
  match m.add_network(&seal(&Wallet { keys: BTreeMap::new(), ..w }.v1(), "p"), "p", one) {
    Err(Error::SeedIsNotSaved) => {}
    r => panic!("adding to an old wallet gives {:?}", r.map(|_| ()))
  }
}

// ---------------------------------------------------------------- C20

fn open_keychain() {
  let (nets, m) = any_manager(128);
  let stored = any_nets(5);
  let mut w = any_wallet(&stored);
  let pass = any_pass();
  let mut bad = Vec::new();
  if upto(3) == 0 {
    for n in &stored {
      if any() {
        w.keys.insert(*n, vec![BAD, 1, 2]);
        bad.push(*n);
      }
    }
  }
  let v1 = upto(3) == 0;
  let data = seal(&if v1 { w.v1() } else { w.v2() }, &pass);
  let r = m.keychain_from_data(&data, &pass);
  let bad: Vec<u32> = bad.into_iter().filter(|n| nets.contains(n)).collect();
  match r {
    Ok(k) => {
      assert!(bad.is_empty(), "stored bytes that a network refuses are ignored");
      let keys: BTreeMap<u32, Vec<u8>> = w.keys.iter().filter(|(n, _)| nets.contains(n)).map(|(n, k)| (*n, k.clone())).collect();
      holds(&k, &keys);
    }
    Err(Error::KeyError(Network(n), KeyError::InvalidKeySize(3, 4242))) => assert!(bad.contains(&n), "the error is tagged with another network"),
    Err(e) => panic!("opening gives {:?}", e)
  }
}

// ---------------------------------------------------------------- C21

fn seed_sizes() {
  let n = upto(4);
  let sizes = [0usize, 1, 95, 96, 97, 127, 128, 160, 192, 224, 255, 256, 257, 1000, usize::MAX, usize::MAX - 1];
  let facts: Vec<Fact> = (0..n).map(|i| {
    let (a, b) = (sizes[upto(15)], sizes[upto(15)]);
    let (min, max) = if upto(3) == 0 { (a, b) } else { (a.min(b), a.max(b)) };
    Fact { net: i as u32, min, max, refuses: false }
  }).collect();
  let min = facts.iter().map(|f| f.min).max().unwrap_or(0);
  let max = facts.iter().map(|f| f.max).min().unwrap_or(usize::MAX);
  match manager(&facts) {
    Err(Error::CantCalculateSeedSize(a, b)) => {
      assert!(min == 0 || min > max, "refused although {} to {} is common", min, max);
      assert!((a, b) == (min, max), "the error names {} and {} for {} and {}", a, b, min, max);
    }
    Err(e) => panic!("creating a manager gives {:?}", e),
    Ok(m) => {
      assert!(min > 0 && min <= max, "created although {} to {} is common", min, max);
      for f in &facts {
        assert!(m.has_network(&Network(f.net)), "a network is missing");
        let g = m.get_key_factory(&Network(f.net)).expect("its factory");
        assert!(g.seed_size().min == f.min && g.seed_size().max == f.max && g.network().0 == f.net);
      }
      assert!(!m.has_network(&Network(99)) && m.get_key_factory(&Network(99)).is_none());
      generated(&m, min);
    }
  }
}

fn generated(m: &KeychainManager, bits: usize) {
  use bip39::dictionary::Language as _;
  let lang = any_lang();
  let asked = if lang == Language::English && any() { None } else { Some(lang) };
  let r = m.generate_mnemonic(asked);
  if ![96, 128, 160, 192, 224, 256].contains(&bits) {
    match r {
      Err(Error::MnemonicError(e)) => assert!(format!("{:?}", e) == format!("InvalidEntropySize({})", bits), "{:?}", e),
      r => panic!("a phrase of {} bits: {:?}", bits, r)
    }
    return;
  }
  let text = r.expect("a phrase");
  let words: Vec<&str> = text.split(lang.to_dict().separator()).collect();
  assert!(words.len() == bits / 32 * 3, "{} words for {} bits", words.len(), bits);
  let mns = bip39::Mnemonics::from_string(lang.to_dict(), &text).expect("words of the language");
  let ent = bip39::Entropy::from_mnemonics(&mns).expect("the checksum of a generated phrase");
  assert!(ent.as_ref().len() * 8 == bits, "bits of a generated phrase");
  m.keychain_data_from_mnemonic(&text, "", asked).expect("a generated phrase is accepted");
}

/// every byte of the entropy varies
fn fresh() {
  let bits = [96, 128, 160, 192, 224, 256][upto(5)];
  let (_, m) = any_manager(bits);
  let lang = any_lang();
  let mut seen: Vec<Vec<u8>> = Vec::new();
  for _ in 0..12 {
    let text = m.generate_mnemonic(Some(lang)).expect("a phrase");
    let mns = bip39::Mnemonics::from_string(lang.to_dict(), &text).expect("words of the language");
    let ent = bip39::Entropy::from_mnemonics(&mns).expect("the checksum of a generated phrase");
    seen.push(ent.as_ref().to_vec());
  }
  for i in 0..bits / 8 {
    assert!(seen.iter().any(|e| e[i] != seen[0][i]), "byte {} of the entropy never varies", i);
    for j in 0..i {
      assert!(seen.iter().any(|e| e[i] != e[j]), "bytes {} and {} of the entropy are always the same", i, j);
    }
  }
}

fn real_managers() {
  let sets: [&[Network]; 5] = [
    &[Network::CARDANO],
    &[Network::ETHEREUM],
    &[Network::BITCOIN],
    &[Network::CARDANO, Network::BITCOIN],
    &[Network::CARDANO, Network::ETHEREUM, Network::BITCOIN]
  ];
  let i = upto(4);
  let m = KeychainManager::with_networks(sets[i]).expect("a manager");
  let bits = sets[i].iter().map(|n| m.get_key_factory(n).expect("factory").seed_size().min).max().unwrap();
  generated(&m, bits);
  match KeychainManager::with_networks(&[]) {
    Err(Error::CantCalculateSeedSize(0, usize::MAX)) => {}
    _ => panic!("a manager of no networks")
  }
}

// ---------------------------------------------------------------- C22

fn stored() {
  let (_, m) = any_manager(128);
  let nets = any_nets(5);
  let w = any_wallet(&nets);
  let pass = any_pass();
  let v1 = upto(3) == 0;
  let data = seal(&if v1 { w.v1() } else { w.v2() }, &pass);
  let keys = m.get_keys_data(&data, &pass).expect("keys");
  assert!(keys.len() == w.keys.len(), "number of stored keys");
  for (n, k) in &keys {
    assert!(w.keys.get(&n.0) == Some(k), "a stored key");
  }
  match m.retrieve_mnemonic(&data, &pass) {
    Ok((t, l)) => assert!(!v1 && w.phrase.as_ref() == Some(&t) && w.lang == Some(l), "the stored phrase and language"),
    Err(Error::SeedIsNotSaved) => assert!(v1 || w.phrase.is_none() || w.lang.is_none(), "the stored phrase is not found"),
    Err(e) => panic!("retrieving a phrase gives {:?}", e)
  }
}

/// what the manager stores is what it was given
fn stores() {
  let (nets, m) = any_manager(128);
  let pass = any_pass();
  let lang = any_lang();
  let (text, seed) = any_phrase(12, lang);
  let data = m.keychain_data_from_mnemonic(&text, &pass, Some(lang)).expect("data");
  assert!(m.retrieve_mnemonic(&data, &pass).expect("phrase") == (text.clone(), lang), "the stored phrase and language");
  let mut keys: Vec<(u32, Vec<u8>)> = m.get_keys_data(&data, &pass).expect("keys").into_iter().map(|(n, k)| (n.0, k)).collect();
  keys.sort();
  let mut want: Vec<(u32, Vec<u8>)> = nets.iter().map(|n| (*n, key_of(*n, &seed))).collect();
  want.sort();
  assert!(keys == want, "the stored keys");
  // adding a network reads and writes everything
  let w = Wallet { seed: Some(seed.clone()), phrase: Some(any_text(40)), lang: Some(lang), keys: any_wallet(&[91, 92]).keys };
  let d2 = m.add_network(&seal(&w.v2(), &pass), &pass, Network(nets[0])).expect("added");
  let got = opened(&d2, &pass);
  assert!(got.seed == w.seed && got.phrase == w.phrase && got.lang == w.lang, "seed, phrase and language read and written");
  for (n, k) in &w.keys {
    assert!(got.keys.get(n) == Some(k), "a key read and written");
  }
}

fn malformed() {
  let (_, m) = any_manager(128);
  let w = any_wallet(&any_nets(2));
  let pass = "p";
  let inner = json!({"seed": null, "mnemonic": null, "dictionary": null, "keys": keys_json(&w)});
  let mut bad = match upto(10) {
    0 => outer(json!(0), &inner),
    1 => outer(json!(3), &inner),
    2 => outer(json!(any::<u16>() as u32 + 65536), &inner),
    3 => outer(json!("2"), &inner),
    4 => outer(json!(2), &json!({"seed": null, "mnemonic": null, "dictionary": "Klingon", "keys": []})),
    5 => outer(json!(2), &json!({"seed": "?", "mnemonic": null, "dictionary": null, "keys": []})),
    6 => outer(json!(2), &json!({"keys": [[1, "AA==", 2]]})),
    7 => outer(json!(2), &json!([])),
    8 => outer(json!(1), &json!({"keys": 7})),
    9 => json!({"version": 2, "data": "*"}).to_string().into_bytes(),
    _ => bytes(40)
  };
  if upto(9) == 0 {
    bad = w.v2();
    bad.truncate(upto(bad.len() - 1));
  }
  let data = seal(&bad, pass);
  match m.keychain_from_data(&data, pass) {
    Err(Error::DataError(_)) => {}
    r => panic!("malformed contents {:?} give {:?}", String::from_utf8_lossy(&bad), r.map(|_| ()))
  }
  match m.get_keys_data(&data, pass) {
    Err(Error::DataError(_)) => {}
    r => panic!("malformed contents give {:?}", r.map(|_| ()))
  }
  match m.retrieve_mnemonic(&data, pass) {
    Err(Error::DataError(_)) => {}
    r => panic!("malformed contents give {:?}", r.map(|_| ()))
  }
}

// ---------------------------------------------------------------- C04 of the wallet's languages

fn languages() {
  complete();
  use bip39::dictionary::Language as _;
  let dicts: [&bip39::dictionary::DefaultDictionary; 8] = [
    &bip39::dictionary::ENGLISH, &bip39::dictionary::FRENCH, &bip39::dictionary::JAPANESE, &bip39::dictionary::KOREAN,
    &bip39::dictionary::CHINESE_SIMPLIFIED, &bip39::dictionary::CHINESE_TRADITIONAL, &bip39::dictionary::ITALIAN, &bip39::dictionary::SPANISH
  ];
  for (l, d) in LANGS.iter().zip(dicts.iter()) {
    assert!(l.to_dict().name() == d.name(), "dictionary of {:?}", l);
    assert!(l.to_dict().separator() == d.separator(), "separator of {:?}", l);
    for i in 0..2048u16 {
      let ix = bip39::MnemonicIndex::new(i).unwrap();
      let w = d.lookup_word(ix).unwrap().to_string();
      assert!(l.to_dict().lookup_word(ix).unwrap().to_string() == w, "word {} of {:?}", i, l);
      assert!(l.to_dict().lookup_mnemonic(&w).unwrap() == ix, "number of {} in {:?}", w, l);
    }
  }
  let _ = keep(());
}

pub const NATIVE: &[(&str, fn())] = &[
  ("c04_wallet_languages", languages),
  ("c14_parse", parse),
  ("c14_parse_any_text", garbage),
  ("c14_print_parse", print_parse),
  ("c16_wallet_errors", wallet_errors),
  ("c17_from_seed", from_seed),
  ("c17_from_phrase", from_phrase),
  ("c17_refused_seed", refused_seed),
  ("c17_refused_phrase", refused_phrase),
  ("c17_failing_network", failing_network),
  ("c17_real_networks", real_networks),
  ("c18_change_password", change_password),
  ("c18_errors", change_password_errors),
  ("c19_add_network", add_network),
  ("c19_add_real_network", add_real_network),
  ("c20_open", open_keychain),
  ("c21_seed_sizes", seed_sizes),
  ("c21_fresh", fresh),
  ("c21_real_managers", real_managers),
  ("c22_stored", stored),
  ("c22_stores", stores),
  ("c22_malformed", malformed)
];
