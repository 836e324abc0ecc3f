//! Contract runtime.
//!
//! A contract is a function without arguments: it draws arbitrary inputs (`any`), restricts them to
//! the precondition (`assume`), calls the real code and asserts the postcondition.  Under Kani the
//! inputs are symbolic and the verifier discharges every assertion for all of them; natively the
//! same function runs on concrete inputs, to find or replay a failing input in the compiled code
//! with its real dependencies.

#[cfg(kani)]
mod imp {
  pub fn any<T: kani::Arbitrary>() -> T {
    kani::any()
  }
  /// an arbitrary value; `hints` only guide native runs
  pub fn any_of<T: kani::Arbitrary>(_hints: &[T]) -> T {
    kani::any()
  }
  pub fn assume(c: bool) {
    kani::assume(c)
  }
}

#[cfg(not(kani))]
mod imp {
  use std::cell::RefCell;

  pub struct Rejected;

  struct Source {
    state: u64,
    drawn: Vec<u8>,
    given: Vec<u8>,
    at: usize
  }
  thread_local! {
    pub static COMPLETE: std::cell::Cell<bool> = std::cell::Cell::new(false);
    static SRC: RefCell<Source> = RefCell::new(Source { state: 1, drawn: Vec::new(), given: Vec::new(), at: 0 });
  }

  pub fn start(seed: u64) {
    SRC.with(|s| {
      let mut s = s.borrow_mut();
      s.state = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03;
      s.drawn.clear();
      s.at = 0;
    });
  }
  /// the inputs of the next cases begin with these bytes (a counterexample of the verifier)
  pub fn give(b: Vec<u8>) {
    SRC.with(|s| s.borrow_mut().given = b);
  }
  pub fn take(n: usize) -> Option<Vec<u8>> {
    SRC.with(|s| {
      let mut s = s.borrow_mut();
      if s.at + n > s.given.len() {
        return None;
      }
      s.at += n;
      Some(s.given[s.at - n..s.at].to_vec())
    })
  }
  pub fn drawn() -> Vec<u8> {
    SRC.with(|s| s.borrow().drawn.clone())
  }
  fn next(s: &mut Source) -> u64 {
    // splitmix64
    s.state = s.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = s.state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
  }
  pub fn bits() -> u64 {
    SRC.with(|s| {
      let mut s = s.borrow_mut();
      let v = next(&mut s);
      v
    })
  }
  fn log(b: &[u8]) {
    SRC.with(|s| s.borrow_mut().drawn.extend_from_slice(b));
  }

  pub trait Draw: Copy {
    fn draw() -> Self;
    fn from(b: &[u8]) -> Self;
    fn bytes(&self) -> Vec<u8>;
  }
  macro_rules! ints {
    ($($t:ty),*) => {$(
      impl Draw for $t {
        fn draw() -> Self {
          let r = bits();
          let x = bits() as $t;
          match r % 8 {
            0 => [0 as $t, 1, 2, 3, <$t>::MAX, <$t>::MAX - 1, <$t>::MAX / 2, <$t>::MAX / 2 + 1]
              [(r / 8 % 8) as usize],
            1 => (r >> 32) as $t & 0x1f,
            _ => x
          }
        }
        fn from(b: &[u8]) -> Self {
          let mut a = [0; std::mem::size_of::<$t>()];
          a.copy_from_slice(b);
          <$t>::from_le_bytes(a)
        }
        fn bytes(&self) -> Vec<u8> { self.to_le_bytes().to_vec() }
      }
    )*};
  }
  ints!(u8, u16, u32, u64, usize);
  impl Draw for bool {
    fn draw() -> Self {
      bits() & 1 == 1
    }
    fn from(b: &[u8]) -> Self {
      b[0] & 1 == 1
    }
    fn bytes(&self) -> Vec<u8> {
      vec![*self as u8]
    }
  }
  impl<T: Draw, const N: usize> Draw for [T; N] {
    fn draw() -> Self {
      let r = bits();
      if r % 8 == 0 || N == 0 {
        let v = T::draw();
        return [v; N];
      }
      let mut v = [T::draw(); N];
      for x in v.iter_mut() {
        *x = T::draw();
      }
      v
    }
    fn from(b: &[u8]) -> Self {
      let n = std::mem::size_of::<T>();
      if N == 0 {
        return [T::draw(); N];
      }
      let mut v = [T::from(&b[..n]); N];
      for (i, x) in v.iter_mut().enumerate() {
        *x = T::from(&b[i * n..(i + 1) * n]);
      }
      v
    }
    fn bytes(&self) -> Vec<u8> {
      self.iter().flat_map(|x| x.bytes()).collect()
    }
  }
  pub fn any<T: Draw>() -> T {
    let v = match take(std::mem::size_of::<T>()) {
      Some(b) => T::from(&b),
      None => T::draw()
    };
    log(&v.bytes());
    v
  }
  pub fn any_of<T: Draw>(hints: &[T]) -> T {
    if let Some(b) = take(std::mem::size_of::<T>()) {
      log(&b);
      return T::from(&b);
    }
    let r = bits();
    let v = if !hints.is_empty() && r % 4 != 0 {
      hints[((r >> 8) as usize) % hints.len()]
    } else {
      T::draw()
    };
    log(&v.bytes());
    v
  }
  pub fn assume(c: bool) {
    if !c {
      std::panic::panic_any(Rejected);
    }
  }
}
pub use imp::*;

/// a number up to and including `max`
pub fn upto(max: usize) -> usize {
  #[cfg(kani)]
  {
    let n: usize = any();
    assume(n <= max);
    n
  }
  #[cfg(not(kani))]
  {
    match take(8) {
      Some(b) => {
        let n = <usize as Draw>::from(&b);
        assume(n <= max);
        n
      }
      None => (any::<u32>() as usize) % (max + 1)
    }
  }
}

/// the contract enumerates its whole domain in one run
pub fn complete() {
  #[cfg(not(kani))]
  imp::COMPLETE.with(|c| c.set(true));
}
#[cfg(not(kani))]
fn finished() -> bool {
  imp::COMPLETE.with(|c| c.get())
}

/// the postcondition holds somewhere: guards against vacuous proofs
pub fn reach(_c: bool) {
  #[cfg(kani)]
  kani::cover!(_c, "reachable");
}

/// equality of byte strings without an early exit (cheap for the verifier)
pub fn same(a: &[u8], b: &[u8]) -> bool {
  if a.len() != b.len() {
    return false;
  }
  let mut d = 0u8;
  let mut i = 0;
  while i < a.len() {
    d |= a[i] ^ b[i];
    i += 1;
  }
  d == 0
}

/// An arbitrary byte string of at most `C` bytes, with a fixed address.
#[derive(Clone, Copy)]
pub struct Bytes<const C: usize> {
  pub a: [u8; C],
  pub n: usize
}
impl<const C: usize> Bytes<C> {
  pub fn any() -> Self {
    let a = any();
    let n = upto(C);
    Bytes { a, n }
  }
  pub fn get(&self) -> &[u8] {
    &self.a[..self.n]
  }
}

/// Declares contracts: a Kani proof each, and a native table of them.
#[macro_export]
macro_rules! contracts {
  ($($(#[$m:meta])* $name:ident [$unwind:expr] $body:block)*) => {
    $(
      $(#[$m])*
      #[cfg_attr(kani, kani::proof)]
      #[cfg_attr(kani, kani::unwind($unwind))]
      pub fn $name() $body
    )*
    #[cfg(not(kani))]
    pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $name)),*];
  };
}

/// Native runner: `runner NAME SECONDS SEED [CASE [HEX]]`; prints `FAIL name case message` for the
/// first failing case of the contract, `OK name cases` otherwise.  HEX are inputs to begin with.
#[cfg(not(kani))]
pub fn run(table: &[(&str, fn())]) {
  use std::panic;
  use std::sync::atomic::{AtomicU64, Ordering};
  use std::time::{Duration, Instant};
  static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
  static CASE: AtomicU64 = AtomicU64::new(0);
  let args: Vec<String> = std::env::args().collect();
  if args[1] == "list" {
    for t in table {
      println!("{}", t.0);
    }
    return;
  }
  let name = args[1].clone();
  let secs: f64 = args[2].parse().unwrap();
  let seed: u64 = args[3].parse().unwrap();
  let only: Option<u64> = args.get(4).map(|s| s.parse().unwrap());
  if let Some(h) = args.get(5) {
    give((0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect());
  }
  let state = std::env::var("RT_STATE").ok().map(|p| std::fs::File::create(p).unwrap());
  panic::set_hook(Box::new(|i| {
    *LAST.lock().unwrap_or_else(|e| e.into_inner()) = format!("{}", i).replace('\n', " ");
  }));
  let f = match table.iter().find(|t| t.0 == name) {
    Some(t) => t.1,
    None => {
      println!("ABSENT {}", name);
      return;
    }
  };
  // a case that never ends is a failure too
  let n2 = name.clone();
  std::thread::spawn(move || {
    let (mut last, mut since) = (u64::MAX, Instant::now());
    loop {
      std::thread::sleep(Duration::from_millis(500));
      let c = CASE.load(Ordering::SeqCst);
      if c != last {
        last = c;
        since = Instant::now();
      } else if since.elapsed() > Duration::from_secs(90) {
        println!("FAIL {} {} inputs= the call does not return", n2, c);
        std::process::exit(0);
      }
    }
  });
  let t0 = Instant::now();
  let (mut case, mut accepted) = (only.unwrap_or(0), 0u64);
  loop {
    start(seed.wrapping_mul(1_000_003).wrapping_add(case));
    CASE.store(case, Ordering::SeqCst);
    if let Some(ref f) = state {
      use std::os::unix::fs::FileExt;
      let _ = f.write_all_at(format!("{:020}", case).as_bytes(), 0);
    }
    match panic::catch_unwind(f) {
      Ok(()) => accepted += 1,
      Err(e) => {
        if e.downcast_ref::<Rejected>().is_none() {
          let msg = LAST.lock().unwrap_or_else(|e| e.into_inner()).clone();
          let bytes: String = drawn().iter().map(|b| format!("{:02x}", b)).collect();
          println!("FAIL {} {} inputs={} {}", name, case, bytes, msg);
          return;
        }
      }
    }
    case += 1;
    if only.is_some() || t0.elapsed() > Duration::from_secs_f64(secs) || finished() {
      break;
    }
  }
  println!("OK {} cases={} accepted={}{}", name, case, accepted, if finished() { " complete" } else { "" });
}
