import os
exec(open("/verif/tools/seedkit/seeds2.py").read().split("SEEDS = [")[0])
PRE += """use ebi::decoder::query::*;
fn open(f: &[u8]) -> Decoder<std::io::Cursor<Vec<u8>>> { Decoder::new(DecoderInput::from_reader(std::io::Cursor::new(f.to_vec()))).unwrap() }
fn mask(v: &[u32]) -> RoaringBitmap { v.iter().copied().collect() }
fn range(a: RangeValueImpl<f64>, b: RangeValueImpl<f64>) -> Predicate { PredicateImpl::Range(RangeImpl::new(a, b)) }
fn ids(b: RoaringBitmap) -> Vec<u32> { b.iter().collect() }
"""
Q = "ebi/src/decoder/query.rs"
A = "ebi/src/api/decoder.rs"
B = R + "buff/"
SEEDS = [
 dict(id="b21", property="P07", needs="filtering with a mask whose largest record is the first one of a chunk", breaks="the chunk is skipped and its record is missing from the answer",
      edits=[(A, """        let mut result = RoaringBitmap::new();

        for chunk_handle in chunk_handles
            .iter_mut()
            .enumerate()
            .filter(|(i, _)| chunk_id.is_none_or(|x| x.index() == *i))
            .map(|(_, x)| x)
        {
            let mut chunk_range_bitmap = RoaringBitmap::new();
            chunk_range_bitmap.insert_range(chunk_handle.logical_record_range_u32());
            if bitmask.is_some_and(|bm| (bm & chunk_range_bitmap).is_empty()) {
                continue;
            }
""", """        let mut result = RoaringBitmap::new();

        for chunk_handle in chunk_handles
            .iter_mut()
            .enumerate()
            .filter(|(i, _)| chunk_id.is_none_or(|x| x.index() == *i))
            .map(|(_, x)| x)
        {
            let records = chunk_handle.logical_record_range_u32();
            if bitmask.is_some_and(|bm| {
                bm.max().is_none_or(|last| last <= records.start && records.start != 0)
                    || bm.min().is_some_and(|first| first >= records.end)
            }) {
                continue;
            }
""")],
      demo=PRE + """fn main(){ let v=[1.0,2.0,3.0,4.0,5.0]; let f=enc(&v, ChunkOption::RecordCount(2), gorilla::GorillaCompressorConfigBuilder::default().build());
 assert_eq!(ids(open(&f).filter(range(RangeValueImpl::Inclusive(1.0),RangeValueImpl::None), Some(&mask(&[0,2])), None).unwrap()), vec![0,2]); }"""),
 dict(id="b22", property="P07", needs="a stored NaN and a range predicate with an exclusive bound", breaks="NaN, which satisfies no range, is selected",
      edits=[(Q, "            RangeValueImpl::Exclusive(v) => value > v,\n", "            RangeValueImpl::Exclusive(v) => !(value <= v),\n")],
      demo=PRE + """fn main(){ let v=[1.0,f64::NAN,3.0]; let f=enc(&v, ChunkOption::Full, uncompressed::UncompressedCompressorConfigBuilder::default().build());
 assert_eq!(ids(open(&f).filter(range(RangeValueImpl::Exclusive(2.0),RangeValueImpl::None), None, None).unwrap()), vec![2]); }"""),
 dict(id="b23", property="P07", needs="min or max restricted by a mask to infinite values", breaks="the largest of records that are all -inf is reported as the smallest finite number",
      edits=[(Q, "    let mut max = f64::NEG_INFINITY;\n", "    let mut max = f64::MIN;\n")],
      demo=PRE + """fn main(){ let v=[1.0,f64::NEG_INFINITY,3.0]; let f=enc(&v, ChunkOption::Full, uncompressed::UncompressedCompressorConfigBuilder::default().build());
 assert_eq!(open(&f).max(Some(&mask(&[1])), None).unwrap(), f64::NEG_INFINITY); }"""),
 dict(id="b24", property="P10", needs="a Sprintz min or max under a mask that leaves out the chunk's first record, which is the extreme one", breaks="the first record takes part although it is masked out",
      edits=[(R + "sprintz.rs", "    let mut max_quantized = if IS_MIN { i64::MAX } else { i64::MIN };\n    let mut previous_value_quantized = initial_value;\n", "    let mut max_quantized = initial_value;\n    let mut previous_value_quantized = initial_value;\n")],
      demo=PRE + """fn main(){ let v=[9.0,2.0,3.0,1.0]; let f=enc(&v, ChunkOption::Full, sprintz::DeltaSprintzCompressorConfigBuilder::default().scale(1u64).build());
 assert_eq!(open(&f).max(Some(&mask(&[1,2])), None).unwrap(), 3.0); assert_eq!(open(&f).max(None, None).unwrap(), 9.0); }"""),
 dict(id="b26", property="P10", needs="a BUFF chunk of more than 32 records that starts at a record number that is not a multiple of 8", breaks="the records after the vector part are reported at wrong record numbers",
      edits=[(B + "filter_eq.rs", "                    logical_offset + initial_part.len() as u32 + simd_part.len() as u32,\n", "                    ((logical_offset + 7) & !7) - (initial_part.len() as u32) + simd_part.len() as u32,\n")],
      demo=PRE + """fn main(){ let v: Vec<f64>=(0..180).map(|x| x as f64 * 4.0).collect(); let f=enc(&v, ChunkOption::RecordCount(90), buff::BUFFCompressorConfigBuilder::default().scale(1u64).build());
 for x in 0..180 { assert_eq!(ids(open(&f).filter(PredicateImpl::Eq(x as f64 * 4.0), None, None).unwrap()), vec![x]); } }"""),
 dict(id="b27", property="P10", needs="a BUFF sum of a chunk with a negative base under a mask", breaks="the base is counted once per record of the chunk instead of per masked record",
      edits=[(B + "sum.rs", "        bitmask.len() as i64\n", "        (bitmask.len() as i64).max(i64::from(base_fixed64 < 0) * number_of_records as i64)\n")],
      demo=PRE + """fn main(){ let v=[-4.0,2.0,-3.0,1.0]; let f=enc(&v, ChunkOption::Full, buff::BUFFCompressorConfigBuilder::default().scale(1u64).build());
 assert_eq!(open(&f).sum(Some(&mask(&[1,2])), None).unwrap(), -1.0); }"""),
]
