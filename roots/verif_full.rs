//! Analysis entry points for the parts of the crate outside io and compression_common (see verif_roots.rs).
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::sync::Arc;

use roaring::RoaringBitmap;

use crate::api::decoder::{
    Aggregation, AggregationKind, AggregationResult, ChunkId, Decoder, DecoderInput, DecoderOutput, KnnResult,
};
use crate::api::encoder::{Encoder, EncoderInput, EncoderOutput};
use crate::compressor::{AppendableCompressor, Compressor, CompressorConfig, GenericCompressor, RewindableCompressor};
use crate::decoder::chunk_reader::{GeneralChunkReader, GeneralChunkReaderInner, GeneralDecompressIterator};
use crate::decoder::expr::{Expr, Op};
use crate::decoder::query::{Predicate, PredicateImpl, Range, RangeImpl, RangeValue, RangeValueImpl};
use crate::decoder::{self, FileReader, GeneralChunkHandle, Metadata};
use crate::encoder::{self, ChunkOption, FileWriter};
use crate::format::{self, deserialize::{FromLeBytes, TryFromLeBytes}, serialize::{AsBytes, ToLe}, CompressionScheme};
use crate::time::{SegmentKind, SegmentedExecutionTimes};

/// in-memory file; `fail` > 0: the fail-th operation from now reports an error; `cap` > 0: at most cap bytes per read/write
pub struct Mem { pub d: Vec<u8>, pub p: usize, pub fail: usize, pub cap: usize, pub failed: bool, pub intr: bool }
impl Mem {
    fn tick(&mut self) -> bool {
        if self.fail == 0 { return false; }
        self.fail -= 1;
        if self.fail == 0 { self.failed = true; true } else { false }
    }
}
impl Mem {
    fn err(&self) -> io::Error {
        io::Error::from(if self.intr { io::ErrorKind::Interrupted } else { io::ErrorKind::PermissionDenied })
    }
    fn take(&mut self, buf: &mut [u8]) {
        let n = buf.len();
        buf.copy_from_slice(&self.d[self.p..self.p + n]);
        self.p += n;
    }
    fn put(&mut self, buf: &[u8]) {
        let have = self.d.len().saturating_sub(self.p).min(buf.len());
        self.d[self.p..self.p + have].copy_from_slice(&buf[..have]);
        self.d.extend_from_slice(&buf[have..]);
        self.p += buf.len();
    }
    fn room(&self, n: usize) -> usize {
        let left = self.d.len().saturating_sub(self.p);
        let n = if left < n { left } else { n };
        if self.cap != 0 && self.cap < n { self.cap } else { n }
    }
}
impl Read for Mem {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.tick() { return Err(self.err()); }
        let n = self.room(buf.len());
        self.take(&mut buf[..n]);
        Ok(n)
    }
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> io::Result<usize> {
        if self.tick() && !self.intr { return Err(self.err()); }
        let n = self.d.len().saturating_sub(self.p);
        buf.extend_from_slice(&self.d[self.p..self.p + n]);
        self.p += n;
        Ok(n)
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
        if self.tick() && !self.intr { return Err(self.err()); }
        if self.d.len().saturating_sub(self.p) < buf.len() { return Err(io::Error::from(io::ErrorKind::UnexpectedEof)); }
        self.take(buf);
        Ok(())
    }
}
impl Write for Mem {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.tick() { return Err(self.err()); }
        let n = if self.cap != 0 && self.cap < buf.len() { self.cap } else { buf.len() };
        self.put(&buf[..n]);
        Ok(n)
    }
    fn write_all(&mut self, buf: &[u8]) -> io::Result<()> {
        if self.tick() && !self.intr { return Err(self.err()); }
        self.put(buf);
        Ok(())
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.tick() { return Err(self.err()); }
        Ok(())
    }
}
impl Seek for Mem {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        if self.tick() { return Err(self.err()); }
        match s {
            SeekFrom::Start(n) => self.p = n as usize,
            SeekFrom::Current(n) => self.p = (self.p as i64 + n) as usize,
            SeekFrom::End(n) => self.p = (self.d.len() as i64 + n) as usize,
        }
        Ok(self.p as u64)
    }
}
pub fn mem(d: Vec<u8>, fail: usize, cap: usize) -> Mem { Mem { d, p: 0, fail, cap, failed: false, intr: false } }
pub fn mem_intr(d: Vec<u8>, fail: usize, cap: usize) -> Mem { Mem { d, p: 0, fail, cap, failed: false, intr: true } }
pub fn mem_failed(m: &Mem) -> bool { m.failed }
pub fn mem_data(m: Mem) -> Vec<u8> { m.d }
pub fn mem_slice(m: &Mem) -> &[u8] { &m.d }
pub fn mem_pos(m: &Mem) -> usize { m.p }

// ---- configurations
pub fn cfg_uncompressed() -> CompressorConfig { CompressorConfig::uncompressed().build().into() }
pub fn cfg_rle() -> CompressorConfig { CompressorConfig::rle().build().into() }
pub fn cfg_gorilla() -> CompressorConfig { CompressorConfig::gorilla().build().into() }
pub fn cfg_chimp() -> CompressorConfig { CompressorConfig::chimp().build().into() }
pub fn cfg_chimp128() -> CompressorConfig { CompressorConfig::chimp128().build().into() }
pub fn cfg_elf_on_chimp() -> CompressorConfig { CompressorConfig::elf_on_chimp().build().into() }
pub fn cfg_elf() -> CompressorConfig { CompressorConfig::elf().build().into() }
pub fn cfg_buff() -> CompressorConfig { CompressorConfig::buff().build().into() }
pub fn cfg_delta_sprintz() -> CompressorConfig { CompressorConfig::delta_sprintz().build().into() }
pub fn cfg_zstd() -> CompressorConfig { CompressorConfig::zstd().build().into() }
pub fn cfg_gzip() -> CompressorConfig { CompressorConfig::gzip().build().into() }
pub fn cfg_snappy() -> CompressorConfig { CompressorConfig::snappy().build().into() }
pub fn cfg_ffi_alp() -> CompressorConfig { CompressorConfig::ffi_alp().build().into() }
pub fn cfg_set_scale(mut c: CompressorConfig, s: u64) -> CompressorConfig { c.set_scale(s); c }
pub fn cfg_scale(c: &CompressorConfig) -> Option<u64> { c.scale() }
pub fn cfg_scheme(c: &CompressorConfig) -> u8 { c.compression_scheme() as u8 }
pub fn cfg_build(c: CompressorConfig) -> GenericCompressor { c.build() }
pub fn cfg_serialized_size(c: &CompressorConfig) -> usize { c.serialized_size() }
pub fn cfg_serialize(c: CompressorConfig, m: &mut Mem) -> bool { c.serialize(m).is_ok() }
pub fn cfg_from_le_bytes(s: u8, b: &[u8]) -> Option<CompressorConfig> {
    match CompressionScheme::try_from(s) { Ok(s) => Some(CompressorConfig::from_le_bytes(&s, b)), Err(_) => None }
}
pub fn cfg_eq(a: &CompressorConfig, b: &CompressorConfig) -> bool { a == b }

// ---- compressors
pub fn c_scheme(c: &GenericCompressor) -> u8 { c.compression_scheme() as u8 }
pub fn c_compress(c: &mut GenericCompressor, v: &[f64]) -> bool { c.compress(v).is_ok() }
pub fn c_prepare(c: &mut GenericCompressor) { c.prepare() }
pub fn c_reset(c: &mut GenericCompressor) { c.reset() }
pub fn c_bytes_in(c: &GenericCompressor) -> usize { c.total_bytes_in() }
pub fn c_bytes_buffered(c: &GenericCompressor) -> usize { c.total_bytes_buffered() }
pub fn c_buffer(c: &GenericCompressor, i: usize) -> &[u8] { c.buffers()[i] }
pub fn c_nbuffers(c: &GenericCompressor) -> usize { c.buffers().len() }
pub fn c_clone(c: &GenericCompressor) -> GenericCompressor { c.clone() }
pub fn c_eq(a: &GenericCompressor, b: &GenericCompressor) -> bool { a == b }
pub fn c_append(c: &mut GenericCompressor, v: &[f64]) -> bool {
    match c {
        GenericCompressor::Uncompressed(c) => { c.append_compress(v); true }
        GenericCompressor::RLE(c) => { c.append_compress(v); true }
        _ => false,
    }
}
pub fn c_rewind(c: &mut GenericCompressor, n: usize) -> bool {
    match c {
        GenericCompressor::Uncompressed(c) => c.rewind(n),
        GenericCompressor::RLE(c) => c.rewind(n),
        _ => false,
    }
}

// ---- encoder
pub fn opt_full() -> ChunkOption { ChunkOption::Full }
pub fn opt_count(n: usize) -> ChunkOption { ChunkOption::RecordCount(n) }
pub fn opt_bytes(n: usize) -> ChunkOption { ChunkOption::ByteSizeBestEffort(n) }
pub fn opt_reach(o: &ChunkOption, a: usize, b: usize) -> bool { o.reach_limit(a, b) }
pub fn enc(input: Mem, output: Mem, cfg: CompressorConfig, opt: ChunkOption) -> (bool, Mem) {
    let mut e = Encoder::new(EncoderInput::from_reader(input), EncoderOutput::from_writer(output), opt, cfg);
    let ok = e.encode().is_ok();
    (ok, e.into_output().into_inner())
}
pub fn enc_f64(v: &[f64], cfg: CompressorConfig, opt: ChunkOption) -> (bool, Vec<u8>) {
    let mut e = Encoder::new(EncoderInput::from_f64_slice(v), EncoderOutput::from_vec(Vec::new()), opt, cfg);
    let ok = e.encode().is_ok();
    (ok, e.into_output().into_vec())
}

// ---- decoder
pub type Dec = Decoder<Mem>;
pub type Cr<'a> = GeneralChunkReader<'a, Arc<Metadata>, &'a mut Mem>;
pub fn dec(m: Mem) -> decoder::Result<Dec> { Decoder::new(DecoderInput::from_reader(m)) }
pub fn dec_n_records(d: &Dec) -> u64 { d.footer().number_of_records() }
pub fn dec_n_chunks(d: &Dec) -> u64 { d.footer().number_of_chunks() }
pub fn dec_footer_offset(d: &Dec) -> u64 { d.header().footer_offset() }
pub fn dec_footer_size(d: &Dec) -> u64 { d.footer_size() }
pub fn dec_total_file_size(d: &Dec) -> u64 { d.total_file_size() }
pub fn dec_total_chunk_size(d: &Dec) -> u64 { d.total_chunk_size() }
pub fn dec_n_chunk_footers(d: &Dec) -> usize { d.chunk_footers().len() }
pub fn dec_phys(d: &Dec, i: usize) -> u64 { d.chunk_footers()[i].physical_offset() }
pub fn dec_logi(d: &Dec, i: usize) -> u64 { d.chunk_footers()[i].logical_offset() }
pub fn dec_scheme(d: &Dec) -> u8 { *d.header().config().compression_scheme() as u8 }
pub fn dec_option(d: &Dec) -> ChunkOption { *d.header().config().chunk_option() }
pub fn dec_config(d: &Dec) -> CompressorConfig { *d.footer().compressor_config() }
pub fn dec_magic(d: &Dec) -> [u8; 4] { *d.header().magic_number() }
pub fn dec_version(d: &Dec) -> [u16; 3] { *d.header().version() }
pub fn dec_elapsed(d: &Dec) -> u128 { d.footer().compression_elapsed_time_nano_secs() }
pub fn dec_crc(d: &Dec) -> u32 { d.footer().crc() }
pub fn dec_precision(d: &mut Dec, p: u32) { d.with_precision(p) }
pub fn dec_materialize(d: &mut Dec, out: Mem, bm: Option<&RoaringBitmap>, ch: Option<usize>) -> (bool, Mem) {
    let mut o = DecoderOutput::from_writer(out);
    let ok = d.materialize(&mut o, bm, ch.map(ChunkId::new)).is_ok();
    (ok, o.into_writer())
}
pub fn dec_filter(d: &mut Dec, p: Predicate, bm: Option<&RoaringBitmap>, ch: Option<usize>) -> Option<RoaringBitmap> { d.filter(p, bm, ch.map(ChunkId::new)).ok() }
pub fn dec_filter_materialize(d: &mut Dec, out: Mem, p: Predicate, bm: Option<&RoaringBitmap>, ch: Option<usize>) -> (bool, Mem) {
    let mut o = DecoderOutput::from_writer(out);
    let ok = d.filter_materialize(&mut o, p, bm, ch.map(ChunkId::new)).is_ok();
    (ok, o.into_writer())
}
pub fn dec_sum(d: &mut Dec, bm: Option<&RoaringBitmap>, ch: Option<usize>) -> Option<f64> { d.sum(bm, ch.map(ChunkId::new)).ok() }
pub fn dec_min(d: &mut Dec, bm: Option<&RoaringBitmap>, ch: Option<usize>) -> Option<f64> { d.min(bm, ch.map(ChunkId::new)).ok() }
pub fn dec_max(d: &mut Dec, bm: Option<&RoaringBitmap>, ch: Option<usize>) -> Option<f64> { d.max(bm, ch.map(ChunkId::new)).ok() }
pub fn dec_knn1(d: &mut Dec, t: &[f64]) -> Option<(usize, f64)> { match d.knn1(t) { Ok(k) => Some((k.index, k.distance)), Err(_) => None } }
pub fn dec_matmul(d: &mut Dec, t: &[f64], ts: (usize, usize), ds: (usize, usize)) -> Option<Box<[f64]>> { d.matmul(t, ts, ds).ok() }
pub fn dec_chunk<'a>(d: &'a mut Dec, i: usize) -> Option<Cr<'a>> { d.chunk_reader(ChunkId::new(i)).ok() }

// ---- chunk reader
pub fn cr_n_records(r: &Cr) -> u64 { r.number_of_records() }
pub fn cr_index(r: &Cr) -> usize { r.chunk_index() }
pub fn cr_is_last(r: &Cr) -> bool { r.is_last_chunk() }
pub fn cr_scheme(r: &Cr) -> u8 { CompressionScheme::from(r.inner()) as u8 }
pub fn cr_with_precision(r: &mut Cr, p: u32) { r.with_precision(p) }
pub fn cr_decompress<'a>(r: &'a mut Cr) -> Option<&'a [f64]> { r.inner_mut().decompress(&mut SegmentedExecutionTimes::new()).ok() }
pub fn cr_iter(r: &mut Cr) -> Option<Vec<f64>> {
    let it = match r.inner_mut().decompress_iter() { Ok(i) => i, Err(_) => return None };
    let mut v = Vec::new();
    for x in it {
        match x { Ok(x) => v.push(x), Err(_) => return None }
    }
    Some(v)
}
pub fn cr_materialize(r: &mut Cr, mut out: Mem, bm: Option<&RoaringBitmap>) -> (bool, Mem) { let ok = r.materialize(&mut out, bm).is_ok(); (ok, out) }
pub fn cr_filter(r: &mut Cr, p: Predicate, bm: Option<&RoaringBitmap>) -> Option<RoaringBitmap> { r.filter(p, bm).ok() }
pub fn cr_filter_materialize(r: &mut Cr, mut out: Mem, p: Predicate, bm: Option<&RoaringBitmap>) -> (bool, Mem) { let ok = r.filter_materialize(&mut out, p, bm).is_ok(); (ok, out) }
pub fn cr_sum(r: &mut Cr, bm: Option<&RoaringBitmap>) -> Option<f64> { r.sum(bm).ok() }
pub fn cr_min(r: &mut Cr, bm: Option<&RoaringBitmap>) -> Option<f64> { r.min(bm).ok() }
pub fn cr_max(r: &mut Cr, bm: Option<&RoaringBitmap>) -> Option<f64> { r.max(bm).ok() }
pub fn cr_distance(r: &mut Cr, o: usize, t: &[f64]) -> Option<f64> { r.distance_squared(o, t).ok() }
pub fn cr_dot(r: &mut Cr, o: usize, t: &[f64]) -> Option<f64> { r.dot_product(o, t).ok() }

// ---- predicates
pub fn rv_none() -> RangeValue { RangeValueImpl::None }
pub fn rv_incl(v: f64) -> RangeValue { RangeValueImpl::Inclusive(v) }
pub fn rv_excl(v: f64) -> RangeValue { RangeValueImpl::Exclusive(v) }
pub fn pr_eq(v: f64) -> Predicate { PredicateImpl::Eq(v) }
pub fn pr_ne(v: f64) -> Predicate { PredicateImpl::Ne(v) }
pub fn pr_range(s: RangeValue, e: RangeValue) -> Predicate { PredicateImpl::Range(RangeImpl::new(s, e)) }
pub fn pr_eval(p: &Predicate, v: f64) -> bool { p.eval(v) }

// ---- expressions over several files
pub fn ex_lit(v: f64) -> Expr { Expr::Literal(v) }
pub fn ex_idx(i: usize) -> Expr { Expr::Index(i) }
pub fn ex_bin(op: u8, l: Expr, r: Expr) -> Expr {
    let op = match op { 0 => Op::Add, 1 => Op::Sub, 2 => Op::Mul, _ => Op::Div };
    Expr::Binary { op, lhs: Box::new(l), rhs: Box::new(r) }
}
fn ag_kind(k: u8) -> AggregationKind { match k { 0 => AggregationKind::None, 1 => AggregationKind::Sum, 2 => AggregationKind::Min, _ => AggregationKind::Max } }
pub fn ag_new(k: u8, e: Expr) -> Aggregation { Aggregation::new(ag_kind(k), e) }
fn ag_out(r: AggregationResult) -> (u8, Vec<f64>) {
    match r {
        AggregationResult::Array(v) => (0, v),
        AggregationResult::Scalar(s) => (1, vec![s]),
        AggregationResult::Integer(i) => (2, vec![i as f64]),
    }
}
pub fn ag_compute(a: &Aggregation, d0: Dec, d1: Dec, bm: Option<&RoaringBitmap>) -> Option<(u8, Vec<f64>)> {
    let mut ds = vec![d0, d1];
    match a.compute(&mut ds, bm, &mut SegmentedExecutionTimes::new()) { Ok(r) => Some(ag_out(r)), Err(_) => None }
}
pub fn ag_compute2(a: Aggregation, b: Aggregation, d0: Dec, d1: Dec, bm: Option<&RoaringBitmap>) -> Option<(u8, Vec<f64>, u8, Vec<f64>)> {
    let mut ds = vec![d0, d1];
    let aggs = vec![a, b];
    match Aggregation::compute_multiple(&aggs, &mut ds, bm, &mut SegmentedExecutionTimes::new()) {
        Ok(r) => {
            let mut it = r.into_iter();
            let (x, y) = (ag_out(it.next().unwrap()), ag_out(it.next().unwrap()));
            Some((x.0, x.1, y.0, y.1))
        }
        Err(_) => None,
    }
}

// ---- whole operations over files that fail at some operation
pub fn io_encode(input: &mut Mem, output: &mut Mem, cfg: CompressorConfig, opt: ChunkOption) -> bool {
    let mut e = Encoder::new(EncoderInput::from_reader(input), EncoderOutput::from_writer(output), opt, cfg);
    e.encode().is_ok()
}
pub fn io_query(input: &mut Mem, output: &mut Mem, kind: u8, p: Predicate, bm: Option<&RoaringBitmap>) -> (bool, RoaringBitmap, f64) {
    let mut bits = RoaringBitmap::new();
    let mut num = 0.0;
    let mut d = match Decoder::new(DecoderInput::from_reader(input)) { Ok(d) => d, Err(_) => return (false, bits, num) };
    let mut o = DecoderOutput::from_writer(output);
    let ok = match kind {
        0 => d.materialize(&mut o, bm, None).is_ok(),
        1 => match d.filter(p, bm, None) { Ok(b) => { bits = b; true } Err(_) => false },
        2 => d.filter_materialize(&mut o, p, bm, None).is_ok(),
        3 => match d.sum(bm, None) { Ok(x) => { num = x; true } Err(_) => false },
        4 => match d.min(bm, None) { Ok(x) => { num = x; true } Err(_) => false },
        _ => match d.max(bm, None) { Ok(x) => { num = x; true } Err(_) => false },
    };
    (ok, bits, num)
}
