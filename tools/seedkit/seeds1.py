BW = "ebi/src/io/bit_write.rs"
BR = "ebi/src/io/bit_read.rs"
BU = "ebi/src/compression_common/buff.rs"
EL = "ebi/src/compression_common/elf.rs"
H = "#![allow(warnings)]\nmod io; mod compression_common;\nuse io::bit_write::*; use io::bit_read::*;\n"
SEEDS = [
 dict(id="b01", property="P01", needs="moving the cursor back to the last bit of a byte that held a one there",
      breaks="after rewinding to bit 7 of a byte the old last bit stays and is or-ed with the new one",
      edits=[(BW, "            self.buffer.truncate(byte_pos);\n            if self.bit_pos != 8 {", "            self.buffer.truncate(byte_pos);\n            if self.bit_pos < 7 {")],
      main=H + "fn main(){ let mut w=BufferedBitWriter::new(); w.write_bits(0xff,8); w.set_cursor_at_in_bit(7); w.write_bits(0,1); assert_eq!(w.as_slice(), &[0xfe]); }"),
 dict(id="b02", property="P01", needs="skipping more than 16 bits from the last bit of a byte",
      breaks="the carry into the byte position is lost, the reader continues 8 bits too early",
      edits=[(BR, "        let skip_bytes = (n + self.bit_pos) / 8;\n", "        let skip_bytes = if n > 16 && self.bit_pos == 7 { n / 8 } else { (n + self.bit_pos) / 8 };\n")],
      main=H + "fn main(){ let mut r=BufferedBitReader::new(vec![0x0f,0xf0,0xaa,0x55,0x0f]); r.read_bits(7); r.skip_bits(17); assert_eq!(r.read_bits(8), Some(0x55)); }"),
 dict(id="b03", property="P02", needs="a field whose width fills the buffer exactly to a byte boundary after an unaligned start",
      breaks="an extra zero byte is left in the packed buffer",
      edits=[(BU, "            if let Some(bits) = (self.sum_bits() + bits).checked_sub(len * BYTE_BITS) {\n                self.buff.resize(len + bits.div_ceil(BYTE_BITS), 0x0);\n            }\n\n            let mut bitpack = BitPack {\n                buff: self.buff.as_mut_slice(),\n                cursor: self.cursor,\n                bits: self.bits,\n            };\n\n            bitpack.write_bits(",
              "            if let Some(bits) = (self.sum_bits() + bits).checked_sub(len * BYTE_BITS) {\n                self.buff.resize(len + bits / BYTE_BITS + 1, 0x0);\n            }\n\n            let mut bitpack = BitPack {\n                buff: self.buff.as_mut_slice(),\n                cursor: self.cursor,\n                bits: self.bits,\n            };\n\n            bitpack.write_bits(")],
      main=H + "use compression_common::buff::bit_packing::BitPack;\nfn main(){ let mut w: BitPack<Vec<u8>>=BitPack::default(); w.write_bits(5,3).unwrap(); w.write_bits(1,5).unwrap(); assert_eq!(w.into_vec(), vec![0x0d]); }"),
 dict(id="b04", property="P02", needs="reading a field that starts unaligned and spans three bytes",
      breaks="the middle byte is placed one position too low",
      edits=[(BU, "                self.bits += byte_left;\n                bits_left += byte_left as u32;\n                bits -= byte_left;\n\n                if self.bits >= BYTE_BITS {\n                    self.cursor += 1;\n                    self.bits -= BYTE_BITS;\n                }\n            }\n            Ok(output)\n", "                self.bits += byte_left;\n                bits_left = if bits_left == 0 { byte_left as u32 } else { bits_left + 7 };\n                bits -= byte_left;\n\n                if self.bits >= BYTE_BITS {\n                    self.cursor += 1;\n                    self.bits -= BYTE_BITS;\n                }\n            }\n            Ok(output)\n")],
      main=H + "use compression_common::buff::bit_packing::BitPack;\nfn main(){ let b=[0xffu8,0xff,0xff,0xff]; let mut r: BitPack<&[u8]>=BitPack::new(&b[..]); r.read(3).unwrap(); assert_eq!(r.read(20).unwrap(), 0xfffff); }"),
 dict(id="b05", property="P04", needs="a number whose scaled value rounds to an integer without scaling back (few decimals)",
      breaks="the check that the scaled integer divides back to the number is skipped for small digit counts, so Elf restores another number",
      edits=[(EL, "    if (temp / get_10i_p(i as u32)) != v {", "    if i > 15 && (temp / get_10i_p(i as u32)) != v {")],
      main=H + """use compression_common::elf::*;
fn p(i: u32)->f64 { format!("1e{}",i).parse().unwrap() }
fn main(){ let mut x=88172645463325252u64; let mut bad=0;
 for k in 0..200000u64 { x^=x<<13; x^=x>>7; x^=x<<17; let v=10.0+(x>>11) as f64/(1u64<<53) as f64*90.0;
  let (a,b)=get_alpha_and_beta_star(v, i32::MAX);
  if b!=17 && b!=0 && !(a..=15).any(|i| { let t=v*p(i); t==t.trunc() && t/p(i)==v }) {bad+=1;} }
 assert_eq!(bad,0); }"""),
 dict(id="b06", property="P04", needs="18 decimals", breaks="one entry of the table of bits per decimals is one too small, so Elf erases one bit too many",
      edits=[(EL, "44, 47, 50, 54, 57, 60, 64, 67,", "44, 47, 50, 54, 57, 59, 64, 67,")],
      main=H + "use compression_common::elf::*;\nfn main(){ for a in 0..40u32 { assert_eq!(get_f_alpha(a), (a as f64 * std::f64::consts::LOG2_10).ceil() as u32); } }"),
 dict(id="b07", property="P04", needs="a number of at least 1e8 and below 1e9", breaks="the decimal position of numbers in the last decade of the table is one too high",
      edits=[(EL, "pub fn get_sp(v: f64) -> i32 {\n    if v >= 1.0 {\n        let mut i = 0;\n        while i < MAP_SP_GREATER_1.len() - 1 {", "pub fn get_sp(v: f64) -> i32 {\n    if v >= 1.0 {\n        let mut i = 0;\n        if v >= MAP_SP_GREATER_1[8] as f64 {\n            return (v.log10()).round() as i32;\n        }\n        while i < MAP_SP_GREATER_1.len() - 1 {")],
      main=H + "use compression_common::elf::*;\nfn main(){ assert_eq!(get_sp(1.5e8),8); assert_eq!(get_sp(9.5e8),8); assert_eq!(get_sp(9.5e12),12); }"),
 dict(id="b08", property="P05", needs="a number whose magnitude is exactly at the smallest representable unit", breaks="numbers from one to two units become zero",
      edits=[(BU, "        if exp < -fractional_part_bits_length {", "        if exp <= -fractional_part_bits_length {")],
      main=H + "use compression_common::buff::precision_bound::*;\nfn main(){ let f=into_fixed_representation_with_fractional_part_bits_length; assert_eq!(f(1.0/32.0,5),1); assert_eq!(f(-1.5/32.0,5),-1); assert_eq!(f(1.0,5),32); }"),
 dict(id="b09", property="P05", needs="data scaled to 7 decimals", breaks="one fraction bit too few is kept for 7 decimals, so neighbouring decimals collapse",
      edits=[(BU, "[0, 5, 8, 11, 15, 18, 21, 25, 28, 31, 35, 38, 50]", "[0, 5, 8, 11, 15, 18, 21, 24, 28, 31, 35, 38, 50]")],
      main=H + "use compression_common::buff::precision_bound::*;\nfn main(){ for d in 1..12usize { assert!((2f64).powi(-(PRECISION_MAP[d] as i32)) < 0.5*10f64.powi(-(d as i32))); } }"),
]
