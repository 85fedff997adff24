use polyglot_rs::{Decoder, DecodingError, Encoder, EncodingError, Kind};
use std::error::Error;
use std::io::Cursor;
type E<'a> = &'a mut Cursor<Vec<u8>>;
type D<'a, 'b> = &'a mut Cursor<&'b [u8]>;
pub fn enc_array(e: E, size: usize, k: Kind) -> Result<(), EncodingError> { match e.encode_array(size, k) { Ok(_) => Ok(()), Err(x) => Err(x) } }
pub fn enc_map(e: E, size: usize, k: Kind, v: Kind) -> Result<(), EncodingError> { match e.encode_map(size, k, v) { Ok(_) => Ok(()), Err(x) => Err(x) } }
pub fn enc_bytes(e: E, v: &[u8]) -> Result<(), EncodingError> { match e.encode_bytes(v) { Ok(_) => Ok(()), Err(x) => Err(x) } }
pub fn enc_string(e: E, v: &String) -> Result<(), EncodingError> { match e.encode_string(v) { Ok(_) => Ok(()), Err(x) => Err(x) } }
pub fn enc_str(e: E, v: &str) -> Result<(), EncodingError> { match e.encode_str(v) { Ok(_) => Ok(()), Err(x) => Err(x) } }
pub fn enc_error(e: E, v: Box<dyn Error>) -> Result<(), EncodingError> { match e.encode_error(v) { Ok(_) => Ok(()), Err(x) => Err(x) } }
pub fn enc_bool(e: E, v: bool) -> Result<(), EncodingError> { match e.encode_bool(v) { Ok(_) => Ok(()), Err(x) => Err(x) } }
pub fn enc_none(e: E, ) -> Result<(), EncodingError> { match e.encode_none() { Ok(_) => Ok(()), Err(x) => Err(x) } }
pub fn enc_u8(e: E, v: u8) -> Result<(), EncodingError> { match e.encode_u8(v) { Ok(_) => Ok(()), Err(x) => Err(x) } }
pub fn enc_u16(e: E, v: u16) -> Result<(), EncodingError> { match e.encode_u16(v) { Ok(_) => Ok(()), Err(x) => Err(x) } }
pub fn enc_u32(e: E, v: u32) -> Result<(), EncodingError> { match e.encode_u32(v) { Ok(_) => Ok(()), Err(x) => Err(x) } }
pub fn enc_u64(e: E, v: u64) -> Result<(), EncodingError> { match e.encode_u64(v) { Ok(_) => Ok(()), Err(x) => Err(x) } }
pub fn enc_i32(e: E, v: i32) -> Result<(), EncodingError> { match e.encode_i32(v) { Ok(_) => Ok(()), Err(x) => Err(x) } }
pub fn enc_i64(e: E, v: i64) -> Result<(), EncodingError> { match e.encode_i64(v) { Ok(_) => Ok(()), Err(x) => Err(x) } }
pub fn enc_f32(e: E, v: f32) -> Result<(), EncodingError> { match e.encode_f32(v) { Ok(_) => Ok(()), Err(x) => Err(x) } }
pub fn enc_f64(e: E, v: f64) -> Result<(), EncodingError> { match e.encode_f64(v) { Ok(_) => Ok(()), Err(x) => Err(x) } }
pub fn dec_none(d: D) -> bool { d.decode_none() }
pub fn dec_array(d: D, k: Kind) -> Result<usize, DecodingError> { d.decode_array(k) }
pub fn dec_map(d: D, k: Kind, v: Kind) -> Result<usize, DecodingError> { d.decode_map(k, v) }
pub fn dec_bytes(d: D) -> Result<Vec<u8>, DecodingError> { d.decode_bytes() }
pub fn dec_string(d: D) -> Result<String, DecodingError> { d.decode_string() }
pub fn dec_error(d: D) -> Result<Box<dyn Error>, DecodingError> { d.decode_error() }
pub fn dec_bool(d: D) -> Result<bool, DecodingError> { d.decode_bool() }
pub fn dec_u8(d: D) -> Result<u8, DecodingError> { d.decode_u8() }
pub fn dec_u16(d: D) -> Result<u16, DecodingError> { d.decode_u16() }
pub fn dec_u32(d: D) -> Result<u32, DecodingError> { d.decode_u32() }
pub fn dec_u64(d: D) -> Result<u64, DecodingError> { d.decode_u64() }
pub fn dec_i32(d: D) -> Result<i32, DecodingError> { d.decode_i32() }
pub fn dec_i64(d: D) -> Result<i64, DecodingError> { d.decode_i64() }
pub fn dec_f32(d: D) -> Result<f32, DecodingError> { d.decode_f32() }
pub fn dec_f64(d: D) -> Result<f64, DecodingError> { d.decode_f64() }
pub fn error_text(e: &Box<dyn Error>) -> String { e.to_string() }
pub fn kind_of(n: u8) -> Kind { Kind::from(n) }
pub fn kind_num(k: Kind) -> u8 { k as u8 }
