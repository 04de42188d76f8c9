//! Analysis entry points.  Appended (as a module) to the analyser's copy of the crate; never compiled into /repo and never
//! executed: the abstract interpreter starts from these functions.  They only use the crate's API.
use crate::compression_common::buff::bit_packing::BitPack;
use crate::io::bit_read::{BitRead2, BufferedBitReader};
use crate::io::bit_write::{BitWrite, BufferedBitWriter};


pub type Rd = BufferedBitReader<Vec<u8>>;

// ---- io::bit_write
pub fn bw_new() -> BufferedBitWriter { BufferedBitWriter::new() }
pub fn bw_default() -> BufferedBitWriter { BufferedBitWriter::default() }
pub fn bw_with_capacity(n: usize) -> BufferedBitWriter { BufferedBitWriter::with_capacity(n) }
pub fn bw_from_vec(v: Vec<u8>) -> BufferedBitWriter { BufferedBitWriter::from_vec(v) }
pub fn bw_write_bit(w: &mut BufferedBitWriter, b: bool) { w.write_bit(b) }
pub fn bw_write_byte(w: &mut BufferedBitWriter, b: u8) { w.write_byte(b) }
pub fn bw_write_bits(w: &mut BufferedBitWriter, b: u64, n: u32) { w.write_bits(b, n) }
pub fn bw_set_cursor(w: &mut BufferedBitWriter, n: usize) { w.set_cursor_at_in_bit(n) }
pub fn bw_count(w: &BufferedBitWriter) -> usize { w.number_of_bits_written() }
pub fn bw_slice(w: &BufferedBitWriter) -> &[u8] { w.as_slice() }
pub fn bw_reset(w: &mut BufferedBitWriter) { w.reset() }
pub fn bw_close(w: BufferedBitWriter) -> Box<[u8]> { w.close() }
fn g_write_bit<W: BitWrite>(mut w: W, b: bool) { w.write_bit(b) }
fn g_write_byte<W: BitWrite>(mut w: W, b: u8) { w.write_byte(b) }
fn g_write_bits<W: BitWrite>(mut w: W, b: u64, n: u32) { w.write_bits(b, n) }
fn g_set_cursor<W: BitWrite>(mut w: W, n: usize) { w.set_cursor_at_in_bit(n) }
fn g_count<W: BitWrite>(w: W) -> usize { w.number_of_bits_written() }
fn g_slice_len<W: BitWrite>(w: W) -> usize { w.as_slice().len() }
fn g_reset<W: BitWrite>(mut w: W) { w.reset() }
pub fn bwr_write_bit(w: &mut BufferedBitWriter, b: bool) { g_write_bit(w, b) }
pub fn bwr_write_byte(w: &mut BufferedBitWriter, b: u8) { g_write_byte(w, b) }
pub fn bwr_write_bits(w: &mut BufferedBitWriter, b: u64, n: u32) { g_write_bits(w, b, n) }
pub fn bwr_set_cursor(w: &mut BufferedBitWriter, n: usize) { g_set_cursor(w, n) }
pub fn bwr_count(w: &mut BufferedBitWriter) -> usize { g_count(w) }
pub fn bwr_slice_len(w: &mut BufferedBitWriter) -> usize { g_slice_len(w) }
pub fn bwr_reset(w: &mut BufferedBitWriter) { g_reset(w) }

// ---- io::bit_read
pub fn br_new(v: Vec<u8>) -> Rd { BufferedBitReader::new(v) }
pub fn br_read_bit(r: &mut Rd) -> Option<bool> { r.read_bit() }
pub fn br_read_byte(r: &mut Rd) -> Option<u8> { r.read_byte() }
pub fn br_read_bits(r: &mut Rd, n: u8) -> Option<u64> { r.read_bits(n) }
pub fn br_peak_bits(r: &mut Rd, n: u8) -> Option<u64> { r.peak_bits(n) }
pub fn br_skip_bits(r: &mut Rd, n: usize) { r.skip_bits(n) }
pub fn br_reset(r: &mut Rd) { r.reset() }
pub fn br_read_bit_unchecked(r: &mut Rd) -> bool { r.read_bit_unchecked() }
pub fn br_read_byte_unchecked(r: &mut Rd) -> u8 { r.read_byte_unchecked() }
fn g_read_bit<R: BitRead2>(mut r: R) -> Option<bool> { r.read_bit() }
fn g_read_byte<R: BitRead2>(mut r: R) -> Option<u8> { r.read_byte() }
fn g_read_bits<R: BitRead2>(mut r: R, n: u8) -> Option<u64> { r.read_bits(n) }
fn g_peak_bits<R: BitRead2>(mut r: R, n: u8) -> Option<u64> { r.peak_bits(n) }
pub fn brr_read_bit(r: &mut Rd) -> Option<bool> { g_read_bit(&mut *r) }
pub fn brr_read_byte(r: &mut Rd) -> Option<u8> { g_read_byte(&mut *r) }
pub fn brr_read_bits(r: &mut Rd, n: u8) -> Option<u64> { g_read_bits(&mut *r, n) }
pub fn brr_peak_bits(r: &mut Rd, n: u8) -> Option<u64> { g_peak_bits(&mut *r, n) }

// ---- compression_common::buff::bit_packing
pub fn bp_new() -> BitPack<Vec<u8>> { BitPack::default() }
pub fn bp_with_capacity(n: usize) -> BitPack<Vec<u8>> { BitPack::<Vec<u8>>::with_capacity(n) }
pub fn bp_write(w: &mut BitPack<Vec<u8>>, v: u32, n: usize) -> Result<(), usize> { w.write(v, n) }
pub fn bp_write_bits(w: &mut BitPack<Vec<u8>>, v: u32, n: usize) -> Result<(), usize> { w.write_bits(v, n) }
pub fn bp_write_byte(w: &mut BitPack<Vec<u8>>, v: u8) { w.write_byte(v) }
pub fn bp_finish_write_byte(w: &mut BitPack<Vec<u8>>) { w.finish_write_byte() }
pub fn bp_into_vec(w: BitPack<Vec<u8>>) -> Vec<u8> { w.into_vec() }
pub fn bp_sum_bits(w: &BitPack<Vec<u8>>) -> usize { w.sum_bits() }
pub fn bpm_new(b: &mut [u8]) -> BitPack<&mut [u8]> { BitPack::new(b) }
pub fn bpm_write(w: &mut BitPack<&mut [u8]>, v: u32, n: usize) -> Result<(), usize> { w.write(v, n) }
pub fn bpm_write_bits(w: &mut BitPack<&mut [u8]>, v: u32, n: usize) -> Result<(), usize> { w.write_bits(v, n) }
pub fn bpr_new(b: &[u8]) -> BitPack<&[u8]> { BitPack::new(b) }
pub fn bpr_read(r: &mut BitPack<&[u8]>, n: usize) -> Result<u32, usize> { r.read(n) }
pub fn bpr_read_u32(r: &mut BitPack<&[u8]>) -> Result<u32, usize> { r.read_u32() }
pub fn bpr_read_bits(r: &mut BitPack<&[u8]>, n: usize) -> Result<u8, usize> { r.read_bits(n) }
pub fn bpr_read_byte(r: &mut BitPack<&[u8]>) -> Result<u8, usize> { r.read_byte() }
pub fn bpr_read_n_byte<'a>(r: &'a mut BitPack<&[u8]>, n: usize) -> Result<&'a [u8], usize> { r.read_n_byte(n) }
pub fn bpr_skip_n_byte(r: &mut BitPack<&[u8]>, n: usize) -> Result<(), usize> { r.skip_n_byte(n) }
pub fn bpr_skip(r: &mut BitPack<&[u8]>, n: usize) -> Result<(), usize> { r.skip(n) }
pub fn bpr_sum_bits(r: &BitPack<&[u8]>) -> usize { r.sum_bits() }

// ---- compression_common::elf, compression_common::buff
pub fn elf_f_alpha(a: u32) -> u32 { crate::compression_common::elf::get_f_alpha(a) }
pub fn elf_alpha_beta(v: f64, last: i32) -> (u32, i32) { crate::compression_common::elf::get_alpha_and_beta_star(v, last) }
pub fn elf_round_up(v: f64, a: u32) -> f64 { crate::compression_common::elf::round_up(v, a) }
pub fn elf_10i_n(i: u32) -> f64 { crate::compression_common::elf::get_10i_n(i) }
pub fn elf_sp(v: f64) -> i32 { crate::compression_common::elf::get_sp(v) }
pub fn fx_fixed(v: f64, n: i32) -> i64 { crate::compression_common::buff::precision_bound::into_fixed_representation_with_fractional_part_bits_length(v, n) }
pub fn fx_bits(i: usize) -> u64 { crate::compression_common::buff::precision_bound::PRECISION_MAP[i] }
pub fn fx_nbits() -> usize { crate::compression_common::buff::precision_bound::PRECISION_MAP.len() }
pub fn fx_flip(x: u8) -> u8 { crate::compression_common::buff::flip(x) }
