//! Verification stub: base58 is only used to format log lines.
#![no_std]
extern crate alloc;
use alloc::{string::String, vec::Vec};
#[derive(Debug, PartialEq)]
pub enum FromBase58Error { InvalidBase58Character(char, usize), InvalidBase58Length }
pub trait ToBase58 { fn to_base58(&self) -> String; }
pub trait FromBase58 { fn from_base58(&self) -> Result<Vec<u8>, FromBase58Error>; }
impl ToBase58 for [u8] { fn to_base58(&self) -> String { String::new() } }
impl FromBase58 for str { fn from_base58(&self) -> Result<Vec<u8>, FromBase58Error> { Err(FromBase58Error::InvalidBase58Length) } }
