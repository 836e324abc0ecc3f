//! Assumed contract on `ripemd160` 0.8: an uninterpreted function of the bytes given.
#![cfg(kani)]
extern crate ghost;

pub trait Digest {
  fn new() -> Self;
  fn input<B: AsRef<[u8]>>(&mut self, data: B);
  fn chain<B: AsRef<[u8]>>(self, data: B) -> Self
  where
    Self: Sized;
  fn result(self) -> Output;
  fn digest(data: &[u8]) -> Output;
}

/// stands for GenericArray<u8, U20>
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Output(pub [u8; 20]);
impl std::ops::Deref for Output {
  type Target = [u8];
  fn deref(&self) -> &[u8] {
    &self.0
  }
}
impl AsRef<[u8]> for Output {
  fn as_ref(&self) -> &[u8] {
    &self.0
  }
}
impl Output {
  pub fn as_slice(&self) -> &[u8] {
    &self.0
  }
}

#[derive(Clone)]
pub struct Ripemd160(ghost::Buf<40>);

impl Digest for Ripemd160 {
  fn new() -> Self {
    Ripemd160(ghost::Buf::new())
  }
  fn input<B: AsRef<[u8]>>(&mut self, data: B) {
    self.0.push(data.as_ref());
  }
  fn chain<B: AsRef<[u8]>>(mut self, data: B) -> Self {
    self.0.push(data.as_ref());
    self
  }
  fn result(self) -> Output {
    let mut o = [0u8; 20];
    ghost::uf!(RIPEMD160, self.0, &mut o);
    Output(o)
  }
  fn digest(data: &[u8]) -> Output {
    let mut o = [0u8; 20];
    ghost::uf!(RIPEMD160, ghost::Buf::from(data), &mut o);
    Output(o)
  }
}
