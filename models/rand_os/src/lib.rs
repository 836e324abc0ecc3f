//! Assumed contract on `rand_os` 0.2: the operating system fills exactly the slice it is given with
//! arbitrary bytes.  Every filled byte is logged (ghost) so that specifications can refer to them.
pub mod rand_core {
  #[derive(Debug)]
  pub struct Error;
  pub trait CryptoRng {}
  pub trait RngCore {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64;
    fn fill_bytes(&mut self, dest: &mut [u8]);
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error>;
  }
}
use rand_core::{CryptoRng, Error, RngCore};

#[derive(Clone, Copy, Debug, Default)]
pub struct OsRng;
impl OsRng {
  pub fn new() -> Result<OsRng, Error> {
    Ok(OsRng)
  }
}
impl CryptoRng for OsRng {}

static mut LOG: Vec<u8> = Vec::new();

/// ghost: every byte drawn so far
pub fn ghost_log() -> &'static [u8] {
  unsafe { &*std::ptr::addr_of!(LOG) }
}

#[cfg(kani)]
impl RngCore for OsRng {
  fn next_u32(&mut self) -> u32 {
    let mut b = [0u8; 4];
    self.fill_bytes(&mut b);
    u32::from_le_bytes(b)
  }
  fn next_u64(&mut self) -> u64 {
    let mut b = [0u8; 8];
    self.fill_bytes(&mut b);
    u64::from_le_bytes(b)
  }
  fn fill_bytes(&mut self, dest: &mut [u8]) {
    let mut i = 0;
    while i < dest.len() {
      dest[i] = kani::any();
      i += 1;
    }
    unsafe { (*std::ptr::addr_of_mut!(LOG)).extend_from_slice(dest) }
  }
  fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
    self.fill_bytes(dest);
    Ok(())
  }
}
