//! `std::panic::catch_unwind` by its contract: it gives the function's value or, when the function
//! panics, the payload of the panic.  Kani can't unwind, so a proof decides beforehand whether the
//! function panics (`GHOST_PANICS`) and with which payload; a panicking function has no effect.
use std::any::Any;
pub static mut GHOST_PANICS: Option<Payload> = None;
#[derive(Clone, Copy, PartialEq)]
pub enum Payload {
  Static(&'static str),
  Owned(&'static str),
  Other
}
pub fn catch_unwind<F: FnOnce() -> R + std::panic::UnwindSafe, R>(f: F) -> std::thread::Result<R> {
  match unsafe { GHOST_PANICS } {
    None => Ok(f()),
    Some(Payload::Static(s)) => Err(Box::new(s) as Box<dyn Any + Send>),
    Some(Payload::Owned(s)) => Err(Box::new(s.to_owned()) as Box<dyn Any + Send>),
    Some(Payload::Other) => Err(Box::new(7u32) as Box<dyn Any + Send>)
  }
}
