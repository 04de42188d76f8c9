exec(open("/verif/tools/seedkit/seeds3.py").read().split("\nSEEDS = [")[0])
E_ = "ebi/src/encoder.rs"
UNC = "uncompressed::UncompressedCompressorConfigBuilder::default().build()"
SLOW = """
// a writer that takes at most `0.1` bytes per call, and a reader that gives at most that many
struct Slow<T>(T, usize);
impl<T: std::io::Write> std::io::Write for Slow<T> { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(self.1); self.0.write(&b[..n]) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
impl<T: std::io::Read> std::io::Read for Slow<T> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = b.len().min(self.1); self.0.read(&mut b[..n]) } }
impl<T: std::io::Seek> std::io::Seek for Slow<T> { fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> { self.0.seek(p) } }
"""
SEEDS = [
 dict(id="b25", property="P10", needs="a BUFF range filter of at least 32 aligned records with a mask, where an unmasked record ties on a later sub-column", breaks="a record outside the mask is selected",
      edits=[(B + "filter_cmp.rs", "    next_to_check_bitmask |= next_to_check_bitmask_simd;\n    temporary_qualified_bitmask &= to_check_bitmask;\n    *qualified_bitmask |= temporary_qualified_bitmask;\n\n    next_to_check_bitmask &= to_check_bitmask;\n",
             "    next_to_check_bitmask |= next_to_check_bitmask_simd;\n    temporary_qualified_bitmask &= to_check_bitmask;\n    *qualified_bitmask |= temporary_qualified_bitmask;\n")],
      demo=PRE + """fn main(){ let mut v: Vec<f64>=(0..40).map(|i| (i*1000) as f64).collect(); v[5]=300.0; v[7]=300.0; let f=enc(&v, ChunkOption::Full, buff::BUFFCompressorConfigBuilder::default().scale(1u64).build());
 let m: Vec<u32> = (0..40).filter(|&i| i!=5).collect();
 let mut want: Vec<u32> = m.iter().copied().filter(|&i| v[i as usize] >= 300.0).collect(); want.sort();
 assert_eq!(ids(open(&f).filter(range(RangeValueImpl::Inclusive(300.0),RangeValueImpl::None), Some(&mask(&m)), None).unwrap()), want);
 assert_eq!(ids(open(&f).filter(range(RangeValueImpl::Inclusive(300.0),RangeValueImpl::Inclusive(300.0)), Some(&mask(&m)), None).unwrap()), vec![7]); }"""),
 dict(id="b28", property="P12", needs="an expression with a literal on the left of - or /", breaks="the operands are exchanged",
      edits=[("ebi/src/decoder/expr.rs", "                    let rhs = rhs.compute_chunk(readers, bitmask, timer)?;\n                    Ok(rhs.into_iter().map(|rhs| op.doit(lhs, rhs)).collect())",
              "                    let values = rhs.compute_chunk(readers, bitmask, timer)?;\n                    Ok(values.into_iter().map(|value| op.doit(value, lhs)).collect())")],
      demo=PRE + """use ebi::decoder::expr::*; use ebi::api::decoder::ChunkId;
fn main(){ let f=enc(&[1.0,4.0], ChunkOption::Full, """ + UNC + """); let mut d=open(&f); let r=d.chunk_reader(ChunkId::new(0)).unwrap();
 for (op,w) in [(Op::Sub,[9.0,6.0]),(Op::Div,[10.0,2.5]),(Op::Add,[11.0,14.0])] { let mut d=open(&f); let r=d.chunk_reader(ChunkId::new(0)).unwrap();
 let e=Expr::Binary{op,lhs:Box::new(Expr::Literal(10.0)),rhs:Box::new(Expr::Index(0))};
 assert_eq!(e.compute_chunk(&mut vec![r], None, &mut ebi::time::SegmentedExecutionTimes::new()).unwrap(), w); } drop(r); }"""),
 dict(id="b29", property="P12", needs="a nearest-neighbour search in which a vector crossing a chunk boundary is not the nearest so far", breaks="the vectors after it are numbered one too low",
      edits=[(A, "                if remaining_records == 0 {\n                    if processing_vector.distance < min_result.distance {\n                        min_result = processing_vector;\n                    }\n                    processing_vector.index += 1;\n                }",
                 "                if remaining_records == 0 && processing_vector.distance < min_result.distance {\n                    min_result = processing_vector;\n                    processing_vector.index += 1;\n                }")],
      demo=PRE + """fn main(){ let v=[1.0,1.0,9.0,9.0,0.0,0.0]; let f=enc(&v, ChunkOption::RecordCount(3), """ + UNC + """);
 let r=open(&f).knn1(&[0.0,0.0]).unwrap(); assert_eq!(r.index, 2); assert_eq!(r.distance, 0.0); }"""),
 dict(id="b30", property="P12", needs="a matrix product whose second factor has another number of columns than the first", breaks="the rows of the data matrix are taken at the wrong distance",
      edits=[(A, "                        .dot_product(offset_in_chunk + row_index * data_columns, target_column)?;", "                        .dot_product(offset_in_chunk + row_index * target_columns, target_column)?;")],
      demo=PRE + """fn main(){ let v=[1.0,2.0,3.0,4.0]; let f=enc(&v, ChunkOption::Full, """ + UNC + """);
 assert_eq!(&*open(&f).matmul(&[1.0,10.0],(2,1),(2,2)).unwrap(), &[21.0,43.0]); }"""),
 dict(id="b31", property="P13", needs="a destination that takes only part of the chunk table in one call", breaks="the rest of the chunk table is missing and the file is damaged without an error",
      edits=[(E_, "                f.write_all(self.chunk_footers().as_bytes())?\n", "                f.write(self.chunk_footers().as_bytes()).map(|_| ())?\n")],
      demo=PRE + SLOW + """fn main(){ let v=[1.0,2.0,3.0,4.0,5.0]; let cfg: ebi::compressor::CompressorConfig=""" + UNC + """.into();
 let want=enc(&v, ChunkOption::RecordCount(2), cfg.clone()); for cap in [7usize, 24, 40] {
 let mut e=Encoder::new(EncoderInput::from_f64_slice(&v), EncoderOutput::from_writer(Slow(std::io::Cursor::new(Vec::new()),cap)), ChunkOption::RecordCount(2), cfg.clone()); e.encode().unwrap();
 let got=e.into_output().into_writer().0.into_inner(); assert_eq!(got.len(), want.len()); let d=dec(&got); same(&d,&v); } }"""),
 dict(id="b32", property="P13", needs="a file source that delivers the compressor's parameters in more than one piece", breaks="the parameters are read incompletely and the file is refused or misread",
      edits=[("ebi/src/decoder.rs", "        input.read_exact(&mut buf[..config_size])?;", "        let got = input.read(&mut buf[..config_size])?;\n        let config_size = config_size.min(got.max(1));")],
      demo=PRE + SLOW + """fn main(){ let v=[1.5,2.25,3.0]; let f=enc(&v, ChunkOption::Full, buff::BUFFCompressorConfigBuilder::default().scale(100u64).build());
 for cap in [1usize,3,5] { let mut d=Decoder::new(DecoderInput::from_reader(Slow(std::io::Cursor::new(f.clone()),cap))).unwrap();
 let mut o=DecoderOutput::from_vec(Vec::new()); d.materialize(&mut o, None, None).unwrap(); assert_eq!(o.into_writer().into_inner().len(), 24);
 assert_eq!(d.footer().compressor_config(), open(&f).footer().compressor_config()); } }"""),
 dict(id="b33", property="P13", needs="a failing destination while filtered records are written", breaks="records are lost without an error",
      edits=[(Q, "        if predicate.eval(*v) {\n            output.write_all(&v.to_ne_bytes())?;\n        }", "        if predicate.eval(*v) && output.write_all(&v.to_ne_bytes()).is_err() {\n            break;\n        }")],
      demo=PRE + """struct Full(usize); impl std::io::Write for Full { fn write(&mut self,b:&[u8])->std::io::Result<usize>{ if self.0<b.len() {return Err(std::io::Error::new(std::io::ErrorKind::Other,"full"))} self.0-=b.len(); Ok(b.len()) } fn flush(&mut self)->std::io::Result<()> {Ok(())} }
fn main(){ let v=[1.0,2.0,3.0]; let f=enc(&v, ChunkOption::Full, gorilla::GorillaCompressorConfigBuilder::default().build());
 let mut o=DecoderOutput::from_writer(Full(16)); assert!(open(&f).filter_materialize(&mut o, range(RangeValueImpl::Inclusive(0.0),RangeValueImpl::None), None, None).is_err());
 let mut o=DecoderOutput::from_writer(Full(24)); assert!(open(&f).filter_materialize(&mut o, range(RangeValueImpl::Inclusive(0.0),RangeValueImpl::None), None, None).is_ok()); }"""),
 dict(id="b34", property="P14", needs="an unmasked Sprintz sum after another query on the same chunk reader", breaks="the sum is read from where the earlier query stopped",
      edits=[(R + "sprintz.rs", """fn sum_without_bitmask(
    number_of_records: u64,
    bit_reader: &mut BitReader,
    timer: &mut SegmentedExecutionTimes,
) -> decoder::Result<f64> {
    bit_reader.reset();

""", """fn sum_without_bitmask(
    number_of_records: u64,
    bit_reader: &mut BitReader,
    timer: &mut SegmentedExecutionTimes,
) -> decoder::Result<f64> {
""")],
      demo=PRE + """fn main(){ use ebi::api::decoder::ChunkId; let v=[9.0,2.0,3.0,1.0]; let f=enc(&v, ChunkOption::Full, sprintz::DeltaSprintzCompressorConfigBuilder::default().scale(1u64).build());
 let mut d=open(&f); let mut r=d.chunk_reader(ChunkId::new(0)).unwrap(); r.max(None).unwrap(); assert_eq!(r.sum(None).unwrap(), 15.0); }"""),
 dict(id="b35", property="P14", needs="raising the precision of a BUFF chunk reader after it has answered a query", breaks="later queries still see the coarser values",
      edits=[(R + "buff.rs", "        if self.precision.is_none_or(|old_p| old_p < precision) {", "        if self.precision.is_some_and(|old_p| old_p > precision) {")],
      demo=PRE + """fn main(){ use ebi::api::decoder::ChunkId; let v=[9.123,2.456,3.789]; let f=enc(&v, ChunkOption::Full, buff::BUFFCompressorConfigBuilder::default().scale(1000u64).build());
 let mut d=open(&f); let mut r=d.chunk_reader(ChunkId::new(0)).unwrap(); r.with_precision(0); let mut o=Vec::new(); r.materialize(&mut o, None).unwrap(); r.with_precision(3); let mut o=Vec::new(); r.materialize(&mut o, None).unwrap();
 let a: Vec<f64>=o.chunks_exact(8).map(|c| f64::from_le_bytes(c.try_into().unwrap())).collect(); assert!((a[0]-9.123).abs()<0.001); }"""),
 dict(id="b36", property="P07", needs="a chunk whose first record has a number above 65535", breaks="the selected records are numbered modulo 65536",
      edits=[(Q, "        if predicate.eval(*v) {\n            result.insert(record_offset as u32);", "        if predicate.eval(*v) {\n            result.insert(record_offset as u16 as u32);")],
      demo=PRE + """fn main(){ let mut v=vec![0.0;70000]; v[66000]=1.0; let f=enc(&v, ChunkOption::RecordCount(65600), rle());
 assert_eq!(ids(open(&f).filter(PredicateImpl::Eq(1.0), None, None).unwrap()), vec![66000]); }
fn rle() -> run_length::RunLengthCompressorConfig { run_length::RunLengthCompressorConfigBuilder::default().build() }"""),
 dict(id="b37", property="P08", needs="a file of more than 255 chunks", breaks="the number of chunks is stored modulo 256",
      edits=[(E_, "        let number_of_chunks = self.n_chunks() as u64;\n        let number_of_records", "        let number_of_chunks = self.n_chunks() as u8 as u64;\n        let number_of_records")],
      demo=PRE + """fn main(){ let v: Vec<f64>=(0..300).map(|i| i as f64).collect(); let f=enc(&v, ChunkOption::RecordCount(1), """ + UNC + """); assert_eq!(open(&f).chunk_footers().len(), 300); same(&dec(&f), &v); }"""),
]
