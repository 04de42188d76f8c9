PRE = """#![allow(warnings)]
use ebi::api::{encoder::*, decoder::*};
use ebi::encoder::ChunkOption;
use ebi::compressor::*;
fn enc(v: &[f64], o: ChunkOption, c: impl Into<CompressorConfig>) -> Vec<u8> {
    let mut e = Encoder::new(EncoderInput::from_f64_slice(v), EncoderOutput::from_vec(Vec::new()), o, c);
    e.encode().unwrap();
    e.into_output().into_vec()
}
fn dec(f: &[u8]) -> Vec<f64> {
    let mut d = Decoder::new(DecoderInput::from_reader(std::io::Cursor::new(f.to_vec()))).unwrap();
    let mut o = DecoderOutput::from_vec(vec![]);
    d.materialize(&mut o, None, None).unwrap();
    o.into_writer().into_inner().chunks_exact(8).map(|c| f64::from_le_bytes(c.try_into().unwrap())).collect()
}
fn same(a: &[f64], b: &[f64]) { assert_eq!(a.iter().map(|x| x.to_bits()).collect::<Vec<_>>(), b.iter().map(|x| x.to_bits()).collect::<Vec<_>>()); }
"""
C = "ebi/src/compressor/"
R = "ebi/src/decoder/chunk_reader/"
SEEDS = [
 dict(id="b10", property="P03", needs="a Chimp128 value that differs from the first value in bit 13 and up only and from the previous value elsewhere, with its low bits not seen before",
      breaks="the difference is taken to the first value but stored as one to the previous value, another value is restored",
      edits=[(C + "chimp_n.rs", "        if (self.index - curr_index) < N_PREVIOUS_VALUES {\n            let temp_xor = value ^ self.stored_values[curr_index % N_PREVIOUS_VALUES];\n            trailing_zeros = temp_xor.trailing_zeros();\n            if trailing_zeros > Self::THRESHOLD {\n                previous_index = curr_index % N_PREVIOUS_VALUES;\n                xor = temp_xor;",
              "        if (self.index - curr_index) < N_PREVIOUS_VALUES {\n            let temp_xor = value ^ self.stored_values[curr_index % N_PREVIOUS_VALUES];\n            trailing_zeros = temp_xor.trailing_zeros();\n            if trailing_zeros >= Self::THRESHOLD {\n                previous_index = curr_index % N_PREVIOUS_VALUES;\n                xor = temp_xor;")],
      demo=PRE + """fn main(){ let a=1.5f64.to_bits(); let mut v=vec![f64::from_bits(a), 7.123456789, f64::from_bits(a ^ (1<<13)), f64::from_bits(a ^ (1<<40))];
 same(&v, &dec(&enc(&v, ChunkOption::Full, chimp_n::Chimp128CompressorConfigBuilder::default().build()))); }"""),
 dict(id="b11", property="P03", needs="a run of 256 equal values", breaks="a run longer than a byte can count is stored as one shorter run, values disappear",
      edits=[(C + "run_length.rs", """    fn compress(&mut self, input: &[f64]) -> encoder::Result<()> {
        self.reset();
        let is_starting = self.previous_run_count == 0;
        if is_starting {
            self.previous_value = input[0];
            self.previous_run_count = 1;
        }
        let n_bytes_compressed = size_of_val(input);

        let input = if is_starting { &input[1..] } else { input };
        for value in input {
            // byte level comparison
            if self.previous_value.to_le_bytes() == value.to_le_bytes()
                && self.previous_run_count < u8::MAX
            {
                self.previous_run_count += 1;
                continue;
            };
""", """    fn compress(&mut self, input: &[f64]) -> encoder::Result<()> {
        self.reset();
        let is_starting = self.previous_run_count == 0;
        if is_starting {
            self.previous_value = input[0];
            self.previous_run_count = 1;
        }
        let n_bytes_compressed = size_of_val(input);

        let input = if is_starting { &input[1..] } else { input };
        for value in input {
            if self.previous_value.to_le_bytes() == value.to_le_bytes() {
                self.previous_run_count = self.previous_run_count.saturating_add(1);
                continue;
            };
""")],
      demo=PRE + "fn main(){ let v=vec![2.5f64;300]; same(&v, &dec(&enc(&v, ChunkOption::Full, run_length::RunLengthCompressorConfigBuilder::default().build()))); }"),
 dict(id="b12", property="P03", needs="a run of zeros of both signs", breaks="-0.0 after 0.0 is stored as 0.0",
      edits=[(C + "run_length.rs", """            // byte level comparison
            if self.previous_value.to_le_bytes() == value.to_le_bytes()
                && self.previous_run_count < u8::MAX
            {
                self.previous_run_count += 1;
                continue;
            };

            self.add_field(self.previous_value, self.previous_run_count);

            self.previous_value = *value;
            self.previous_run_count = 1;
        }

        self.total_bytes_in += n_bytes_compressed;

        Ok(())""", """            if self.previous_value == *value && self.previous_run_count < u8::MAX {
                self.previous_run_count += 1;
                continue;
            };

            self.add_field(self.previous_value, self.previous_run_count);

            self.previous_value = *value;
            self.previous_run_count = 1;
        }

        self.total_bytes_in += n_bytes_compressed;

        Ok(())""")],
      demo=PRE + "fn main(){ let v=vec![1.0,0.0,-0.0,0.0]; same(&v, &dec(&enc(&v, ChunkOption::Full, run_length::RunLengthCompressorConfigBuilder::default().build()))); }"),
 dict(id="b13", count=2, property="P03", needs="two consecutive differences, the second with exactly one leading zero fewer than the first", breaks="Gorilla reuses a window that is one bit too narrow and drops the top bit",
      edits=[(C + "gorilla.rs", "                if leading_zeroes >= self.state.leading_zeroes\n                    && trailing_zeroes >= self.state.trailing_zeroes\n", "                if leading_zeroes + 1 >= self.state.leading_zeroes\n                    && leading_zeroes > 0\n                    && trailing_zeroes >= self.state.trailing_zeroes\n")],
      demo=PRE + """fn main(){ let a=1.5f64.to_bits(); let v: Vec<f64> = [a, a^(0xf00<<30), a^(0xf00<<30)^(0x1f00<<30)].iter().map(|x| f64::from_bits(*x)).collect();
 same(&v, &dec(&enc(&v, ChunkOption::Full, gorilla::GorillaCompressorConfigBuilder::default().build()))); }"""),
 dict(id="b14", property="P06", needs="BUFF chunk whose largest difference from the base needs more than 32 bits", breaks="the width of the deltas is computed from the low half",
      edits=[(C + "buff.rs", "            64 - delta.leading_zeros()\n", "            match delta >> 40 {\n                0 => 64 - delta.leading_zeros(),\n                high => 39 + (64 - high.leading_zeros()),\n            }\n")],
      demo=PRE + """fn main(){ let v=vec![0.0, 70000.5, 3.25, 1e6, 4e5]; let mut c=buff::BUFFCompressorConfigBuilder::default().scale(1_000_000).build();
 let o=dec(&enc(&v, ChunkOption::Full, c)); for (a,b) in v.iter().zip(&o) { assert!((a-b).abs()<1e-6, "{a} {b}"); } assert_eq!(o.len(),v.len()); }"""),
 dict(id="b15", property="P06", needs="Sprintz data going down by the largest step of the chunk", breaks="the number of bits is taken from the largest value seen so far instead of all, the widest negative step loses its top bit",
      edits=[(C + "sprintz.rs", "            let zz = zigzag(delta);\n", "            let zz = zigzag(delta);\n            let zz_width = if delta < 0 { zz >> 1 << 1 } else { zz };\n"),
             (C + "sprintz.rs", "accumulated_or |= zz;", "accumulated_or |= zz_width;")],
      demo=PRE + """fn main(){ let v=vec![5.0,4.0,4.0,3.0]; let c=sprintz::DeltaSprintzCompressorConfigBuilder::default().scale(1u64).build();
 let v2=vec![1.0f64,1.0-1.0]; let _=v2; same(&v, &dec(&enc(&v, ChunkOption::Full, c))); }"""),
 dict(id="b16", property="P08", needs="looking at the recorded total time of a file", breaks="the total time is written one chunk entry too far, over a segment time, and its own slot stays empty",
      edits=[("ebi/src/encoder.rs", "            + self.n_chunks() * size_of::<ChunkFooter>()\n", "            + self.chunk_footers.len() * size_of::<ChunkFooter>()\n")],
      demo=PRE + """fn main(){ let v: Vec<f64>=(0..7).map(|x| x as f64).collect(); let f=enc(&v, ChunkOption::RecordCount(3), uncompressed::UncompressedCompressorConfigBuilder::default().build());
 let d=Decoder::new(DecoderInput::from_reader(std::io::Cursor::new(f))).unwrap(); assert!(d.footer().compression_elapsed_time_nano_secs() > 0); }"""),
 dict(id="b17", property="P08", needs="a record limit of 4 (or 4..7, 12..15 ...)", breaks="chunks hold one record more than the limit",
      edits=[("ebi/src/encoder.rs", "                    read_less_or_equal(self.file_writer.input_mut(), count * size_of::<f64>())?\n", "                    read_less_or_equal(\n                        self.file_writer.input_mut(),\n                        (count | (count >> 2 & 1)) * size_of::<f64>(),\n                    )?\n")],
      demo=PRE + """fn main(){ let v: Vec<f64>=(0..8).map(|x| x as f64).collect(); let f=enc(&v, ChunkOption::RecordCount(4), uncompressed::UncompressedCompressorConfigBuilder::default().build());
 let d=Decoder::new(DecoderInput::from_reader(std::io::Cursor::new(f))).unwrap(); assert_eq!(d.footer().chunk_footers()[1].logical_offset(), 4); }"""),
 dict(id="b18", property="P11", needs="compressing with the same Chimp128 compressor twice", breaks="the hash of previous positions is not cleared, the second chunk depends on the first",
      edits=[(C + "chimp_n.rs", "        self.indices.fill(0);\n", "        let used = self.index.min(self.indices.len());\n        self.indices[..used].fill(0);\n")],
      demo=PRE + """fn main(){ let a: Vec<f64>=(0..5).map(|x| 1.1+x as f64).collect(); let b: Vec<f64>=vec![9.5,5.1,4.1];
 let f=|| -> GenericCompressor { CompressorConfig::from(chimp_n::Chimp128CompressorConfigBuilder::default().build()).build() };
 let mut x=f(); x.compress(&a).unwrap(); x.prepare(); x.reset(); x.compress(&b).unwrap(); x.prepare(); let mut y=f(); y.compress(&b).unwrap(); y.prepare(); assert_eq!(x.buffers(), y.buffers()); }"""),
 dict(id="b19", property="P11", needs="rewinding an RLE compressor across a run boundary, landing inside a run", breaks="the input byte count keeps the removed records of the current run",
      edits=[(C + "run_length.rs", "        self.total_bytes_in -= n * size_of::<f64>();\n", "        self.total_bytes_in -= if number_of_fields_to_rewind > 2 {\n            (n - 1) * size_of::<f64>()\n        } else {\n            n * size_of::<f64>()\n        };\n")],
      demo=PRE + """fn main(){ let mut c=run_length::RunLengthCompressor::new(); c.compress(&[1.0,1.0,2.0,3.0]).unwrap(); assert!(c.rewind(3)); assert_eq!(c.total_bytes_in(), 8); }"""),
 dict(id="b20", property="P09", needs="a file whose chunk kind byte is not one of the format", breaks="an unassigned chunk kind is taken for a whole-file chunk instead of being refused",
      edits=[("ebi/src/format/deserialize.rs", "            _ => Err(ConversionError::CompressionScheme),\n", "            3.. => Ok(Self::Full),\n")],
      demo=PRE + """fn main(){ let mut f=enc(&[1.0,2.0], ChunkOption::Full, uncompressed::UncompressedCompressorConfigBuilder::default().build());
 f[6]=77; assert!(Decoder::new(DecoderInput::from_reader(std::io::Cursor::new(f))).is_err()); }"""),
]
