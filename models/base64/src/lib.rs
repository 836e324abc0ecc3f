//! Assumed contract on `base64` 0.10: encoding is text, decoding undoes it and refuses other texts.
//! (The bytes themselves, after one for the configuration, stand for the text.)
use std::{error, fmt};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Config(u8);
pub const STANDARD: Config = Config(0);
pub const STANDARD_NO_PAD: Config = Config(1);
pub const URL_SAFE: Config = Config(2);
pub const URL_SAFE_NO_PAD: Config = Config(3);

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum DecodeError {
  InvalidByte(usize, u8),
  InvalidLength
}
impl fmt::Display for DecodeError {
  fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
    Ok(())
  }
}
impl error::Error for DecodeError {}

pub fn encode_config<T: ?Sized + AsRef<[u8]>>(input: &T, c: Config) -> String {
  let input = input.as_ref();
  let mut v = Vec::with_capacity(1 + input.len());
  v.push(b'0' + c.0);
  v.extend_from_slice(input);
  unsafe { String::from_utf8_unchecked(v) }
}
pub fn decode_config<T: ?Sized + AsRef<[u8]>>(input: &T, c: Config) -> Result<Vec<u8>, DecodeError> {
  let input = input.as_ref();
  if input.len() == 0 {
    return Err(DecodeError::InvalidLength);
  }
  if input[0] != b'0' + c.0 {
    return Err(DecodeError::InvalidByte(0, input[0]));
  }
  let mut v = Vec::with_capacity(input.len() - 1);
  v.extend_from_slice(&input[1..]);
  Ok(v)
}
pub fn encode<T: ?Sized + AsRef<[u8]>>(input: &T) -> String {
  encode_config(input, STANDARD)
}
pub fn decode<T: ?Sized + AsRef<[u8]>>(input: &T) -> Result<Vec<u8>, DecodeError> {
  decode_config(input, STANDARD)
}
