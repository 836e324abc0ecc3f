//! Contracts of the `bip39` crate (properties C01-C08).
use bip39::dictionary::{DefaultDictionary, Language};
use bip39::util::{bits, hex};
use bip39::*;
use cryptoxide::digest::Digest;
use cryptoxide::{hmac::Hmac, pbkdf2::pbkdf2, sha2::{Sha256, Sha512}};
use rt::*;

// ---------------------------------------------------------------- specification functions

fn sha256(d: &[u8]) -> [u8; 32] {
  let mut h = Sha256::new();
  h.input(d);
  let mut o = [0u8; 32];
  h.result(&mut o);
  o
}

/// the 11 bits of `b` from bit 11*k on, most significant first, zero beyond its end
fn group(b: &[u8], k: usize) -> u16 {
  let at = |i: usize| if i < b.len() { b[i] as u32 } else { 0 };
  let p = 11 * k;
  let w = at(p / 8) << 16 | at(p / 8 + 1) << 8 | at(p / 8 + 2);
  ((w >> (13 - p % 8)) & 0x7ff) as u16
}

/// byte `j` of the packing of `w`: bit i of it is bit (8j+i) of the concatenated 11-bit numbers
fn packed(w: &[u16], j: usize) -> u8 {
  let mut r = 0u8;
  let mut i = 0;
  while i < 8 {
    let p = 8 * j + i;
    let bit = if p / 11 < w.len() { (w[p / 11] >> (10 - p % 11)) & 1 } else { 0 };
    r = r << 1 | bit as u8;
    i += 1;
  }
  r
}

fn supported_bits(n: usize) -> Option<usize> {
  match n {
    96 | 128 | 160 | 192 | 224 | 256 => Some(n / 32 * 3),
    _ => None
  }
}

fn type_of_words(n: usize) -> Type {
  match n {
    9 => Type::Type9Words,
    12 => Type::Type12Words,
    15 => Type::Type15Words,
    18 => Type::Type18Words,
    21 => Type::Type21Words,
    _ => Type::Type24Words
  }
}

/// a slice of any length; under Kani the length is unbounded (only its address and size are used)
macro_rules! any_length_slice {
  ($a:ident, $s:ident) => {
    #[cfg(kani)]
    let ($a, n): ([u8; 80], usize) = (any(), any());
    #[cfg(kani)]
    assume(n <= usize::MAX / 16);
    #[cfg(kani)]
    let $s: &[u8] = unsafe { std::mem::transmute(std::ptr::slice_from_raw_parts($a.as_ptr(), n)) };
    #[cfg(not(kani))]
    let $a: Vec<u8> = { let n = upto(300); (0..n).map(|_| any::<u8>()).collect() };
    #[cfg(not(kani))]
    let $s: &[u8] = &$a[..];
  };
}

/// results are not dropped (erasure has its own contract): keeps the proofs small
fn keep<T>(t: T) -> std::mem::ManuallyDrop<T> {
  std::mem::ManuallyDrop::new(t)
}

/// the bytes of an entropy of N bytes
fn bytes_of<const N: usize>(e: &Entropy) -> Option<&[u8]> {
  match (N, e) {
    (12, Entropy::Entropy9(b)) => Some(&b[..]),
    (16, Entropy::Entropy12(b)) => Some(&b[..]),
    (20, Entropy::Entropy15(b)) => Some(&b[..]),
    (24, Entropy::Entropy18(b)) => Some(&b[..]),
    (28, Entropy::Entropy21(b)) => Some(&b[..]),
    (32, Entropy::Entropy24(b)) => Some(&b[..]),
    _ => None
  }
}

// ---------------------------------------------------------------- C01, C02

fn encode<const N: usize, const W: usize>() {
  let e: [u8; N] = any();
  let h = sha256(&e);
  let mut all = [0u8; 66];
  all[..N].copy_from_slice(&e);
  all[N..N + 32].copy_from_slice(&h);
  let ent = Entropy::from_slice(&e).unwrap();
  assert!(same(ent.as_ref(), &e));
  assert!(ent.get_type() == type_of_words(W));
  assert!(ent.checksum() == h[0] >> (8 - N / 4));
  let m = ent.to_mnemonics();
  let w: &[MnemonicIndex] = m.as_ref();
  assert!(w.len() == W);
  let mut k = 0;
  while k < W {
    assert!(w[k].0 == group(&all, k), "word number differs from the specified bits");
    k += 1;
  }
  assert!(m.get_type() == type_of_words(W));
  reach(true);
}

/// `MnemonicIndex::new` by its contract (c04_index), where its precondition for success is proved
#[cfg(kani)]
fn index_in_range(m: u16) -> Result<MnemonicIndex> {
  assert!(m <= 2047);
  Ok(MnemonicIndex(m))
}

fn decode<const N: usize, const W: usize>() {
  let w: [u16; W] = any();
  #[cfg(not(kani))]
  let w = w.map(|x| x & 2047);
  let mut v = Vec::with_capacity(W);
  let mut k = 0;
  while k < W {
    assume(w[k] <= 2047);
    v.push(MnemonicIndex(w[k]));
    k += 1;
  }
  let mut ent = [0u8; N];
  let mut j = 0;
  while j < N {
    ent[j] = packed(&w, j);
    j += 1;
  }
  // natively a random checksum is almost never right: make it right half of the time
  #[cfg(not(kani))]
  let w = {
    let mut w = w;
    if any::<bool>() {
      let c = (W / 3) as u16;
      w[W - 1] = (w[W - 1] >> c << c) | (sha256(&ent)[0] as u16 >> (8 - c));
      v[W - 1] = MnemonicIndex(w[W - 1]);
    }
    w
  };
  let c = W / 3;
  let given = (w[W - 1] & ((1 << c) - 1)) as u8;
  let want = sha256(&ent)[0] >> (8 - c);
  let m = match Mnemonics::from_mnemonics(v) {
    Ok(m) => keep(m),
    Err(_) => {
      assert!(false, "a supported number of words was refused");
      return;
    }
  };
  let r = keep(Entropy::from_mnemonics(&m));
  match *r {
    Ok(ref e) => {
      assert!(given == want, "accepted a wrong checksum");
      let b = bytes_of::<N>(e);
      assert!(b.is_some(), "decoded entropy of another size");
      assert!(same(b.unwrap(), &ent), "decoded entropy differs from the leading bits");
      reach(true);
    }
    Err(Error::InvalidChecksum(_, _)) => {
      assert!(given != want, "refused a right checksum");
      reach(true);
    }
    Err(_) => assert!(false, "checksum mismatch reported as another error")
  }
}

/// Lemma over the contracts of encoding and decoding: the numbers that spell an entropy and its
/// checksum pack back to exactly that entropy and that checksum.
fn lemma_inverse<const N: usize, const W: usize>() {
  let e: [u8; N] = any();
  let h: u8 = any();
  let mut all = [0u8; 34];
  all[..N].copy_from_slice(&e);
  all[N] = h;
  let mut w = [0u16; W];
  let mut k = 0;
  while k < W {
    w[k] = group(&all, k);
    k += 1;
  }
  let mut j = 0;
  while j < N {
    assert!(packed(&w, j) == e[j]);
    j += 1;
  }
  let c = W / 3;
  assert!((w[W - 1] & ((1 << c) - 1)) as u8 == h >> (8 - c));
}

fn erased<const N: usize>(make: fn([u8; N]) -> Entropy) {
  let e: [u8; N] = any();
  let (g, h): ([u8; 8], [u8; 8]) = (any(), any());
  let mut x = Guarded { before: g, it: std::mem::ManuallyDrop::new(make(e)), after: h };
  let p: *const u8 = x.it.as_ref().as_ptr();
  assert!(same(x.it.as_ref(), &e));
  unsafe { std::mem::ManuallyDrop::drop(&mut x.it) };
  let mut i = 0;
  while i < N {
    assert!(unsafe { *p.add(i) } == 0, "a secret byte was not erased");
    i += 1;
  }
  assert!(same(&x.before, &g) && same(&x.after, &h), "bytes outside of the secret were written");
  reach(true);
}

fn generated<const N: usize, const W: usize>() {
  use std::cell::Cell;
  let e: [u8; N] = any();
  let calls = Cell::new(0usize);
  let asked = Cell::new(0usize);
  let ent = Entropy::generate(type_of_words(W), |b: &mut [u8]| {
    // the source fills whatever part it is asked for with its next bytes
    let a = asked.get();
    assert!(a + b.len() <= N, "asked for more than the secret");
    b.copy_from_slice(&e[a..a + b.len()]);
    asked.set(a + b.len());
    calls.set(calls.get() + 1);
  });
  assert!(asked.get() == N, "not every byte of the secret was asked for");
  assert!(same(ent.as_ref(), &e), "a byte of the secret is not the random one");
}

fn write(n: usize) {
  let w: [u16; 17] = any();
  let mut b = bits::BitWriterBy11::new();
  let mut k = 0;
  while k < n {
    b.write(w[k]);
    k += 1;
  }
  let v = b.to_bytes();
  assert!(v.len() == (11 * n + 7) / 8, "packed size");
  let mut j = 0;
  while j < v.len() {
    assert!(v[j] == packed(&w[..n], j), "a packed byte differs from the specified bits");
    j += 1;
  }
}

fn read<const N: usize>(n: usize) {
  let a: [u8; N] = any();
  let mut r = bits::BitReaderBy11::new(&a[..n]);
  let total = 8 * n / 11;
  let mut k = 0;
  while k < total {
    assert!(r.size() == total - k, "remaining count");
    let v = r.read();
    assert!(v == group(&a[..n], k), "a group differs from the specified bits");
    k += 1;
  }
  assert!(r.size() == 0, "remaining count at the end");
}

/// any words of one or two characters, any one-character separator
struct AnyWords {
  w: [u8; 48],
  two: [bool; 24]
}
impl Language for AnyWords {
  fn name(&self) -> &'static str {
    "any"
  }
  fn separator(&self) -> &'static str {
    "-+"
  }
  fn lookup_mnemonic(&self, word: &str) -> dictionary::Result<MnemonicIndex> {
    Err(dictionary::Error::MnemonicWordNotFoundInDictionary(word.to_string()))
  }
  fn lookup_word(&self, m: MnemonicIndex) -> dictionary::Result<String> {
    let i = m.0 as usize;
    let mut s = Vec::with_capacity(2);
    s.push(self.w[2 * i]);
    if self.two[i] {
      s.push(self.w[2 * i + 1]);
    }
    Ok(unsafe { String::from_utf8_unchecked(s) })
  }
}

const TWO: [bool; 24] = [
  false, true, true, false, true, false, false, true, true, false, true, true, false, false, true,
  true, false, true, false, true, true, false, false, true
];

/// a phrase of W arbitrary words of one or two ASCII characters, and the text it must have
fn phrase<const W: usize>() -> (Bytes<120>, std::mem::ManuallyDrop<MnemonicString>) {
  let w: [u8; 48] = any();
  #[cfg(not(kani))]
  let w = w.map(|x| x & 127);
  let d = AnyWords { w, two: TWO };
  let mut v = Vec::with_capacity(W);
  let mut want = [0u8; 120];
  let mut n = 0;
  let mut k = 0;
  while k < W {
    assume(d.w[2 * k] < 128 && d.w[2 * k + 1] < 128);
    v.push(MnemonicIndex(k as u16));
    if k > 0 {
      want[n] = b'-';
      want[n + 1] = b'+';
      n += 2;
    }
    want[n] = d.w[2 * k];
    n += 1;
    if d.two[k] {
      want[n] = d.w[2 * k + 1];
      n += 1;
    }
    k += 1;
  }
  match Mnemonics::from_mnemonics(v) {
    Ok(m) => {
      let m = keep(m);
      (Bytes { a: want, n }, keep(m.to_string(&d)))
    }
    Err(_) => panic!("a supported number of words was refused")
  }
}

fn print<const W: usize>() {
  let (want, s) = phrase::<W>();
  assert!(same(s.as_bytes(), want.get()), "printed text differs from the joined words");
  reach(true);
}

fn digit(v: u8) -> u8 {
  if v < 10 { b'0' + v } else { b'a' + v - 10 }
}

fn hex_encode(n: usize) {
  let a: [u8; 8] = any();
  let s = keep(hex::encode(&a[..n]));
  assert!(s.len() == 2 * n, "two digits per byte");
  let mut i = 0;
  while i < n {
    assert!(s.as_bytes()[2 * i] == digit(a[i] >> 4), "high digit");
    assert!(s.as_bytes()[2 * i + 1] == digit(a[i] & 15), "low digit");
    i += 1;
  }
}

fn hex_decode(n: usize) {
  let t: [u8; 6] = [
    any_of(b"0fF \n"), any_of(b"9aA\r"), any_of(b"0fF \n"), any_of(b"9aA\r"), any_of(b"9bB\t"), any_of(b"3cCgG/:`@")
  ];
  let mut i = 0;
  while i < n {
    assume(t[i] < 128);
    i += 1;
  }
  let s = unsafe { std::str::from_utf8_unchecked(&t[..n]) };
  let mut want = [0u8; 3];
  let (mut digits, mut half, mut bad) = (0, 0u8, n);
  let mut i = 0;
  while i < n {
    let d = match t[i] {
      b'0'..=b'9' => Some(t[i] - b'0'),
      b'a'..=b'f' => Some(t[i] - b'a' + 10),
      b'A'..=b'F' => Some(t[i] - b'A' + 10),
      _ => None
    };
    match d {
      Some(d) if digits % 2 == 0 => { half = d; digits += 1; }
      Some(d) => { want[digits / 2] = half << 4 | d; digits += 1; }
      None => if t[i] != b' ' && t[i] != b'\t' && t[i] != b'\r' && t[i] != b'\n' && bad == n { bad = i; }
    }
    i += 1;
  }
  match *keep(hex::decode(s)) {
    Ok(ref b) => {
      assert!(bad == n, "a character that is no digit was accepted");
      assert!(same(&b[..], &want[..digits / 2]), "decoded bytes differ");
      reach(true);
    }
    Err(hex::Error::UnknownSymbol(i)) => assert!(i == bad && bad < n, "wrong place of the bad character")
  }
}

#[repr(C)]
struct Guarded<T> {
  before: [u8; 8],
  it: std::mem::ManuallyDrop<T>,
  after: [u8; 8]
}

contracts! {
  #[cfg_attr(kani, kani::stub(bip39::MnemonicIndex::new, index_in_range))]
  c01_encode_96 [67] { encode::<12, 9>() }
  #[cfg_attr(kani, kani::stub(bip39::MnemonicIndex::new, index_in_range))]
  c01_encode_128 [67] { encode::<16, 12>() }
  #[cfg_attr(kani, kani::stub(bip39::MnemonicIndex::new, index_in_range))]
  c01_encode_160 [67] { encode::<20, 15>() }
  #[cfg_attr(kani, kani::stub(bip39::MnemonicIndex::new, index_in_range))]
  c01_encode_192 [67] { encode::<24, 18>() }
  #[cfg_attr(kani, kani::stub(bip39::MnemonicIndex::new, index_in_range))]
  c01_encode_224 [67] { encode::<28, 21>() }
  #[cfg_attr(kani, kani::stub(bip39::MnemonicIndex::new, index_in_range))]
  c01_encode_256 [67] { encode::<32, 24>() }

  c01_other_sizes [40] {
    any_length_slice!(_a, s);
    assume(supported_bits(s.len() * 8).is_none());
    match Entropy::from_slice(s) {
      Err(Error::WrongKeySize(n)) => { assert!(n == s.len() * 8); reach(true); }
      _ => assert!(false, "unsupported size not refused as such")
    }
  }

  c01_type_of_size [2] {
    let n: usize = any_of(&[96, 128, 160, 192, 224, 256, 95, 97, 64, 288]);
    match (Type::from_entropy_size(n), supported_bits(n)) {
      (Ok(t), Some(w)) => {
        assert!(t.to_key_size() == n && t.mnemonic_count() == w && t.checksum_size_bits() == n / 32);
        assert!(t == type_of_words(w));
      }
      (Err(Error::WrongKeySize(m)), None) => assert!(m == n),
      _ => assert!(false, "supported sizes differ")
    }
  }

  #[cfg_attr(kani, kani::stub(bip39::MnemonicIndex::new, index_in_range))]
  c02_decode_9 [67] { decode::<12, 9>() }
  #[cfg_attr(kani, kani::stub(bip39::MnemonicIndex::new, index_in_range))]
  c02_decode_12 [67] { decode::<16, 12>() }
  #[cfg_attr(kani, kani::stub(bip39::MnemonicIndex::new, index_in_range))]
  c02_decode_15 [67] { decode::<20, 15>() }
  #[cfg_attr(kani, kani::stub(bip39::MnemonicIndex::new, index_in_range))]
  c02_decode_18 [67] { decode::<24, 18>() }
  #[cfg_attr(kani, kani::stub(bip39::MnemonicIndex::new, index_in_range))]
  c02_decode_21 [67] { decode::<28, 21>() }
  #[cfg_attr(kani, kani::stub(bip39::MnemonicIndex::new, index_in_range))]
  c02_decode_24 [67] { decode::<32, 24>() }

  c02_lemma_inverse_9 [36] { lemma_inverse::<12, 9>() }
  c02_lemma_inverse_12 [36] { lemma_inverse::<16, 12>() }
  c02_lemma_inverse_15 [36] { lemma_inverse::<20, 15>() }
  c02_lemma_inverse_18 [36] { lemma_inverse::<24, 18>() }
  c02_lemma_inverse_21 [36] { lemma_inverse::<28, 21>() }
  c02_lemma_inverse_24 [36] { lemma_inverse::<32, 24>() }

  #[cfg_attr(kani, kani::stub(bip39::MnemonicIndex::new, index_in_range))]
  c02_word_count [32] {
    let n = upto(30);
    assume(n < 9 || n > 24 || n % 3 != 0);
    let mut v = Vec::with_capacity(30);
    let mut i = 0;
    while i < 30 {
      v.push(MnemonicIndex(7));
      i += 1;
    }
    unsafe { v.set_len(n) };
    match *keep(Mnemonics::from_mnemonics(v)) {
      Err(Error::WrongNumberOfWords(m)) => assert!(m == n),
      _ => assert!(false, "an unsupported number of words was not refused as such")
    }
    reach(true);
  }

  c02_type_of_count [2] {
    let n: usize = any_of(&[9, 12, 15, 18, 21, 24, 0, 3, 6, 27]);
    let ok = n >= 9 && n <= 24 && n % 3 == 0;
    match Type::from_word_count(n) {
      Ok(t) => assert!(ok && t == type_of_words(n)),
      Err(Error::WrongNumberOfWords(m)) => assert!(!ok && m == n),
      Err(_) => assert!(false)
    }
  }

  // ------------------------------------------------------------------ C03
  c03_write [18] { let mut n = 0; while n <= 9 { write(n); n += 1; } }
  c03_write_17 [32] { write(17) }
  c03_read [40] { let mut n = 0; while n <= 12 { read::<12>(n); n += 1; } }
  c03_read_25 [40] { read::<25>(25) }

  // ------------------------------------------------------------------ C04
  c04_index [2] {
    let m: u16 = any();
    match MnemonicIndex::new(m) {
      Ok(i) => { assert!(m <= 2047 && i.0 == m); reach(true); }
      Err(Error::MnemonicOutOfBound(v)) => { assert!(m > 2047 && v == m); reach(true); }
      Err(_) => assert!(false)
    }
  }

  /// the word with a number is the word at that place, for every place and every number
  c04_word_of_number [40] {
    let p = upto(2047);
    let mut d = DefaultDictionary { words: ["a"; 2048], name: "d" };
    d.words[p] = "bc";
    let i: u16 = any_of(&[p as u16, 0, 2047, 2048, 65535]);
    match *keep(d.lookup_word(MnemonicIndex(i))) {
      Ok(ref s) => {
        assert!(i <= 2047, "a word for a number above 2047");
        let want: &[u8] = if i as usize == p { b"bc" } else { b"a" };
        assert!(same(s.as_bytes(), want), "the word of another number");
      }
      Err(_) => assert!(i > 2047)
    }
    reach(true);
  }

  // ------------------------------------------------------------------ C05
  #[cfg_attr(kani, kani::stub(bip39::MnemonicIndex::new, index_in_range))]
  c05_print_9 [40] { print::<9>() }
  #[cfg_attr(kani, kani::stub(bip39::MnemonicIndex::new, index_in_range))]
  c05_print_24 [130] { print::<24>() }

  // ------------------------------------------------------------------ C06
  #[cfg_attr(kani, kani::stub(bip39::MnemonicIndex::new, index_in_range))]
  c06_seed [80] {
    let (text, s) = phrase::<9>();
    assert!(same(s.as_bytes(), text.get()));
    let pw: Bytes<6> = Bytes::any();
    let mut salt = [0u8; 14];
    salt[..8].copy_from_slice(b"mnemonic");
    salt[8..8 + pw.n].copy_from_slice(pw.get());
    let mut want = [0u8; 64];
    pbkdf2(&mut Hmac::new(Sha512::new(), text.get()), &salt[..8 + pw.n], 2048, &mut want);
    let seed = keep(Seed::from_mnemonic_string(&s, pw.get()));
    assert!(same(seed.as_ref(), &want), "seed differs from the specified PBKDF2");
    reach(true);
  }

  c06_slice [70] {
    let b: [u8; 64] = any();
    match *keep(Seed::from_slice(&b)) {
      Ok(ref s) => assert!(same(s.as_ref(), &b), "a seed holds other bytes"),
      Err(_) => assert!(false, "64 bytes were refused")
    }
    let s = keep(Seed::from_bytes(b));
    assert!(same(s.as_ref(), &b), "a seed holds other bytes");
  }

  c06_other_sizes [70] {
    any_length_slice!(_a, s);
    assume(s.len() != 64);
    match *keep(Seed::from_slice(s)) {
      Err(Error::InvalidSeedSize(n)) => { assert!(n == s.len(), "another size reported"); reach(true); }
      _ => assert!(false, "a seed of another size was accepted")
    }
  }

  // ------------------------------------------------------------------ C07
  c07_encode [20] { let mut n = 0; while n <= 8 { hex_encode(n); n += 1; } }
  c07_decode_0 [10] { hex_decode(0); }
  c07_decode_1 [10] { hex_decode(1); }
  c07_decode_3 [10] { hex_decode(3); }
  c07_decode_5 [10] { hex_decode(5); }
  c07_decode_6 [10] { hex_decode(6); }

  // ------------------------------------------------------------------ C08
  c08_erase_12 [70] { erased::<12>(Entropy::Entropy9) }
  c08_erase_16 [70] { erased::<16>(Entropy::Entropy12) }
  c08_erase_20 [70] { erased::<20>(Entropy::Entropy15) }
  c08_erase_24 [70] { erased::<24>(Entropy::Entropy18) }
  c08_erase_28 [70] { erased::<28>(Entropy::Entropy21) }
  c08_erase_32 [70] { erased::<32>(Entropy::Entropy24) }
  c08_erase_seed [70] {
    let b: [u8; 64] = any();
    let (g, h): ([u8; 8], [u8; 8]) = (any(), any());
    let mut x = Guarded { before: g, it: std::mem::ManuallyDrop::new(Seed::from_bytes(b)), after: h };
    let p: *const u8 = x.it.as_ref().as_ptr();
    assert!(same(x.it.as_ref(), &b));
    unsafe { std::mem::ManuallyDrop::drop(&mut x.it) };
    let mut i = 0;
    while i < 64 {
      assert!(unsafe { *p.add(i) } == 0, "a secret byte was not erased");
      i += 1;
    }
    assert!(same(&x.before, &g) && same(&x.after, &h), "bytes outside of the secret were written");
    reach(true);
  }
  c08_generate_9 [70] { generated::<12, 9>() }
  c08_generate_12 [70] { generated::<16, 12>() }
  c08_generate_15 [70] { generated::<20, 15>() }
  c08_generate_18 [70] { generated::<24, 18>() }
  c08_generate_21 [70] { generated::<28, 21>() }
  c08_generate_24 [70] { generated::<32, 24>() }
}

// ---------------------------------------------------------------- run natively only

#[cfg(not(kani))]
mod natives {
  use super::*;
  use bip39::dictionary::*;

  fn language(i: usize) -> DefaultDictionary {
    match i {
      0 => ENGLISH,
      1 => FRENCH,
      2 => JAPANESE,
      3 => KOREAN,
      4 => CHINESE_SIMPLIFIED,
      5 => CHINESE_TRADITIONAL,
      6 => ITALIAN,
      _ => SPANISH
    }
  }

  /// the whole finite domain of the property: 8 languages, 2048 words each
  pub fn c04_all_words() {
    complete();
    for l in 0..8 {
      let d = language(l);
      for i in 0..2048u16 {
        let w = MnemonicIndex(i).to_word(&d);
        assert!(w == d.words[i as usize], "language {}: {} has the word of another number", l, i);
        assert!(!w.is_empty() && !w.contains(d.separator()), "language {}: word {} is empty or holds a separator", l, i);
        assert!(
          MnemonicIndex::from_word(&d, &w) == Ok(MnemonicIndex(i)),
          "language {}: word {} is not found at its number", l, i
        );
      }
      for i in 2048..=65535u16 {
        assert!(d.lookup_word(MnemonicIndex(i)).is_err(), "language {}: number {} has a word", l, i);
      }
    }
  }

  fn text(max: usize) -> String {
    let n = upto(max);
    (0..n).map(|_| any_of(&['a', 'e', 'z', '\u{e9}', '\u{3042}', '\u{3000}', '\t', '-', '\0'].map(|c| c as u32)))
      .map(|c| char::from_u32(c % 0x11_0000).unwrap_or('x'))
      .filter(|c| *c != ' ')
      .collect()
  }

  pub fn c04_unknown_word() {
    let l = upto(7);
    let d = language(l);
    let mut w = if any::<bool>() { text(9) } else { d.words[upto(2047)].to_string() };
    // near misses of real words
    match any::<u8>() % 8 {
      0 => { w.pop(); }
      1 => w.push('a'),
      2 => w.push(' '),
      3 => w.insert(0, ' '),
      4 => w = w.to_uppercase(),
      5 => { w = w.chars().rev().collect(); }
      _ => {}
    }
    let want = d.words.iter().position(|x| *x == w);
    match MnemonicIndex::from_word(&d, &w) {
      Ok(i) => assert!(Some(i.0 as usize) == want, "word {:?} got another number", w),
      Err(bip39::Error::LanguageError(dictionary::Error::MnemonicWordNotFoundInDictionary(ref t))) => {
        assert!(want.is_none() && *t == w, "word {:?} wrongly reported as {:?}", w, t)
      }
      Err(_) => panic!("another error for an unknown word")
    }
  }

  /// a language whose words and separator are not those of the library
  struct Other(&'static str);
  impl Language for Other {
    fn name(&self) -> &'static str { "other" }
    fn separator(&self) -> &'static str { self.0 }
    fn lookup_mnemonic(&self, w: &str) -> dictionary::Result<MnemonicIndex> {
      match w.strip_prefix('w').and_then(|n| if n == "0" || !n.starts_with('0') { n.parse::<u16>().ok() } else { None }) {
        Some(n) if n < 2048 && !w.contains('+') => Ok(MnemonicIndex(n)),
        _ => Err(dictionary::Error::MnemonicWordNotFoundInDictionary(w.to_string()))
      }
    }
    fn lookup_word(&self, i: MnemonicIndex) -> dictionary::Result<String> {
      Ok(format!("w{}", i.0))
    }
  }

  fn parse<D: Language>(d: &D, word: &dyn Fn(u16) -> String) {
    let n = any_of(&[9usize, 12, 15, 18, 21, 24, 0, 1, 10, 25]) % 40;
    let mut pieces: Vec<String> = (0..n).map(|_| word(upto(2047) as u16)).collect();
    for _ in 0..(any::<u8>() % 4).saturating_sub(1) {
      if !pieces.is_empty() {
        let at = upto(pieces.len() - 1);
        let bad = match any::<u8>() % 6 {
          0 => String::new(),
          1 => text(5),
          2 => format!("{}\u{3000}", pieces[at]),
          3 => format!("\n{}", pieces[at]),
          4 => pieces[at].to_uppercase(),
          _ => "x".into()
        };
        pieces[at] = bad.replace(d.separator(), "");
      }
    }
    let s = pieces.join(d.separator());
    // an empty text is one empty piece
    let pieces: Vec<&str> = if pieces.is_empty() { vec![""] } else { pieces.iter().map(|x| &x[..]).collect() };
    let found: Vec<_> = pieces.iter().map(|w| d.lookup_mnemonic(w)).collect();
    let first_bad = found.iter().position(|x| x.is_err());
    let count_ok = pieces.len() >= 9 && pieces.len() <= 24 && pieces.len() % 3 == 0;
    let r = Mnemonics::from_string(d, &s);
    match (&r, first_bad) {
      (Ok(m), None) => {
        assert!(count_ok, "{} words were accepted", pieces.len());
        assert!(m.as_ref().len() == pieces.len() && m.as_ref().iter().zip(&found).all(|(a, b)| Ok(*a) == *b),
          "parsed words differ in {:?}", s);
        let back = m.to_string(d);
        assert!(&*back == &s[..], "{:?} printed as {:?}", s, &*back);
      }
      (Err(bip39::Error::LanguageError(dictionary::Error::MnemonicWordNotFoundInDictionary(ref t))), Some(b)) => {
        assert!(t == pieces[b], "{:?} reported, the first unknown word is {:?} in {:?}", t, pieces[b], s)
      }
      (Err(bip39::Error::WrongNumberOfWords(k)), None) => {
        assert!(!count_ok && *k == pieces.len(), "{} words refused as {}", pieces.len(), k)
      }
      (r, b) => panic!("{:?}: got {:?}, the first unknown piece is {:?}", s, r.is_ok(), b)
    }
    match (MnemonicString::new(d, s.clone()), r) {
      (Ok(t), Ok(_)) => assert!(&*t == &s[..] && format!("{}", t) == s, "a phrase does not keep its text"),
      (Err(a), Err(b)) => assert!(a == b),
      _ => panic!("a phrase object exists exactly for the accepted texts")
    }
  }

  pub fn c05_parse() {
    let l = upto(9);
    if l < 8 {
      let d = language(l);
      parse(&d, &|i| d.words[i as usize].to_string());
    } else {
      let d = Other(if l == 8 { " " } else { "\u{3000}-" });
      parse(&d, &|i| format!("w{}", i));
    }
  }

  pub fn c06_phrase() {
    let l = upto(7);
    let d = language(l);
    let e: [u8; 16] = any();
    let m = Entropy::from_slice(&e).unwrap().to_mnemonics().to_string(&d);
    let pw: Bytes<200> = Bytes::any();
    let mut salt = b"mnemonic".to_vec();
    salt.extend_from_slice(pw.get());
    let mut want = [0u8; 64];
    pbkdf2(&mut Hmac::new(Sha512::new(), m.as_bytes()), &salt, 2048, &mut want);
    assert!(Seed::from_mnemonic_string(&m, pw.get()).as_ref() == &want[..], "seed differs");
  }

  pub fn c07_any_text() {
    let n = upto(40);
    let b: Vec<u8> = (0..n).map(|_| any::<u8>()).collect();
    let s = hex::encode(&b);
    let want: String = b.iter().map(|x| format!("{:02x}", x)).collect();
    assert!(s == want, "hex of {:?} is {}", b, s);
    let mut t = String::new();
    for c in s.chars() {
      while any::<u8>() % 4 == 0 {
        t.push([' ', '\r', '\n', '\t'][upto(3)]);
      }
      t.push(if any::<bool>() { c.to_ascii_uppercase() } else { c });
    }
    let digits: Vec<u8> = t.chars().filter_map(|c| c.to_digit(16)).map(|d| d as u8).collect();
    let spec: Vec<u8> = digits.chunks_exact(2).map(|c| c[0] << 4 | c[1]).collect();
    assert!(hex::decode(&t) == Ok(spec), "decoding {:?}", t);
    assert!(hex::decode(&s) == Ok(b), "decoding {:?}", s);
    // one character that is neither digit nor blank
    let c = any_of(&['g' as u32, 'G' as u32, '/' as u32, ':' as u32, '@' as u32, '`' as u32, 0xb, 0xc, 0, 0xa0, 0xe9, 0xff10, 0x661]);
    let c = char::from_u32(c % 0x11_0000).unwrap_or('x');
    if !" \r\n\t0123456789abcdefABCDEF".contains(c) {
      let at = upto(t.len());
      t.insert(at, c);
      assert!(hex::decode(&t) == Err(hex::Error::UnknownSymbol(at)), "decoding {:?}", t);
    }
  }

  pub fn c03_any_length() {
    let n = upto(100);
    let w: Vec<u16> = (0..n).map(|_| any::<u16>()).collect();
    let mut b = bits::BitWriterBy11::new();
    for x in &w {
      b.write(*x);
    }
    let v = b.to_bytes();
    assert!(v.len() == (11 * n + 7) / 8, "packed size of {} numbers", n);
    for j in 0..v.len() {
      assert!(v[j] == packed(&w, j), "packed byte {} of {:?}", j, w);
    }
    let m = upto(140);
    let a: Vec<u8> = (0..m).map(|_| any::<u8>()).collect();
    let mut r = bits::BitReaderBy11::new(&a);
    for k in 0..8 * m / 11 {
      assert!(r.size() == 8 * m / 11 - k, "remaining count of {:?}", a);
      assert!(r.read() == group(&a, k), "group {} of {:?}", k, a);
    }
    assert!(r.size() == 0);
  }

  /// what is in a block of memory when it goes back to the allocator
  pub fn c08_heap() {
    let e: [u8; 32] = any();
    assume(e.iter().all(|x| *x != 0));
    let k = upto(6);
    super::SPY.with(|s| s.set((0, 0)));
    match k {
      0 => spy(Entropy::from_slice(&e[..12]).unwrap()),
      1 => spy(Entropy::from_slice(&e[..16]).unwrap()),
      2 => spy(Entropy::from_slice(&e[..20]).unwrap()),
      3 => spy(Entropy::from_slice(&e[..24]).unwrap()),
      4 => spy(Entropy::from_slice(&e[..28]).unwrap()),
      5 => spy(Entropy::from_slice(&e).unwrap()),
      _ => {
        let mut s = [0u8; 64];
        s[..32].copy_from_slice(&e);
        s[32..].copy_from_slice(&e);
        spy(Seed::from_slice(&s).unwrap())
      }
    }
  }
  fn spy<T: AsRef<[u8]>>(x: T) {
    let b = Box::new(x);
    let s = (*b).as_ref();
    super::SPY.with(|c| c.set((s.as_ptr() as usize, s.len())));
    drop(b);
    let (p, n) = super::SPY.with(|c| c.get());
    assert!(p == 0, "the memory of the secret was not released");
    assert!(n == 0, "{} bytes of the secret were still there when its memory was released", n);
  }
}

#[cfg(not(kani))]
thread_local! {
  /// address and length of the secret to look at when its memory is released
  pub static SPY: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) };
}

/// looks at the secret in a block about to be released
#[cfg(not(kani))]
pub unsafe fn spied(block: *mut u8, size: usize) {
  let _ = SPY.try_with(|s| {
    let (p, n) = s.get();
    if n > 0 && p >= block as usize && p + n <= block as usize + size {
      let left = (0..n).filter(|i| *((p + i) as *const u8) != 0).count();
      s.set((0, left));
    }
  });
}

#[cfg(not(kani))]
pub const NATIVE: &[(&str, fn())] = &[
  ("c03_any_length", natives::c03_any_length),
  ("c04_all_words", natives::c04_all_words),
  ("c04_unknown_word", natives::c04_unknown_word),
  ("c05_parse", natives::c05_parse),
  ("c06_phrase", natives::c06_phrase),
  ("c07_any_text", natives::c07_any_text),
  ("c08_heap", natives::c08_heap)
];
