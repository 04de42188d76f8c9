prop("P01", "Bit streams: what is written is what is read, at every alignment",
     "Writing any sequence of bits, bytes and bit fields of any width produces exactly the concatenation of those fields, most significant bit first and zero padded to a byte, and the reported bit count is their total length, including after moving the cursor or resetting. Reading or peeking any field at any position returns exactly those bits of the buffer; it returns nothing, without failing, exactly when fewer bits are left than asked for, and peeking never moves the position.",
     ["inputs", "histories"], "all field values, widths 0..64, alignments and operation sequences of the classes enumerated",
     "The doc tests read and write a handful of constants at two or three alignments; an error confined to one (alignment, width) pair or to stale bits after a cursor move is invisible to them.",
     ["ebi/src/io/bit_write.rs", "ebi/src/io/bit_read.rs"],
     [("BufferedBitWriter", "ebi/src/io/bit_write.rs"), ("BufferedBitReader", "ebi/src/io/bit_read.rs")])
prop("P02", "Bit packing: fields round-trip at every width and alignment",
     "Packing any sequence of fields of 1 to 32 bits, whole bytes and byte runs, and unpacking it with the same widths (whole bytes before bit fields, as the packed formats lay them out), gives back exactly the packed values, and the packed buffer is exactly the concatenation of the fields. Skipping and finishing move over exactly the stated number of bits or bytes, and a bit-field request that exceeds the remaining bits is answered with an error rather than with stale data.",
     ["inputs", "histories"], "all field values; widths 1..32 at each of the 8 alignments; two- and three-field sequences",
     "The doc tests pack a few fixed values; an error at one width/alignment pair, or in bits of a neighbouring field, is not sampled.",
     ["ebi/src/compression_common/buff.rs"],
     [("BitPack::write/write_bits/write_byte/write_bytes", "ebi/src/compression_common/buff.rs"), ("BitPack::read/read_bits/skip", "ebi/src/compression_common/buff.rs")])
prop("P03", "Lossless schemes give back exactly the stored values, bit for bit",
     "Encoding any sequence of 64-bit floats with Uncompressed, RLE, Gorilla, Chimp, Chimp128, Elf, Elf-on-Chimp, Zstd, Gzip, Snappy or ALP, with any chunking, and then materializing the file yields exactly the same sequence of values, bit for bit (signed zeros, infinities, subnormals and, outside the XOR-based schemes that use it as an end mark, NaN payloads included), and encoding it never panics. The external codecs themselves are taken to be lossless on the bytes they are given.",
     ["inputs", "configurations"], "all bit patterns of the values, every (leading zeros, trailing zeros) class of the XOR differences, ring distances, run lengths and chunk sizes enumerated",
     "No existing test encodes and decodes a file; an error confined to one leading/trailing-zero class, one ring distance or one run length needs that very input.",
     ["ebi/src/compressor", "ebi/src/decoder", "ebi/src/encoder.rs", "ebi/src/api"],
     [("compressors", "ebi/src/compressor/*.rs"), ("chunk readers", "ebi/src/decoder/chunk_reader/*.rs")])

prop("P04", "Elf's decimal analysis never claims digits it has not established",
     "For a number, the Elf schemes' analysis reports its decimal position as the exponent of the power of ten at or below it, and reports a count of significant digits other than the give-up mark only if scaling by that many decimals gives an integer that scales back to exactly the number, dropping only zero digits; exact negative powers of ten, and only those, get their own mark. The bits reserved for a number of decimals, the powers of ten, and the rounding to a number of decimals away from zero are exact for every supported number of decimals.",
     ["inputs", "configurations"], "all numbers from 1e-10 to 1e9 per decade, any previous digit count, 0..20 decimals (0..419 for the bit table)",
     "No test calls these functions; a wrong table entry, comparison or loop bound shows only for numbers of one decade or digit count.",
     ["ebi/src/compression_common/elf.rs"],
     [("get_alpha_and_beta_star / get_sp", "ebi/src/compression_common/elf.rs"), ("round_up, get_f_alpha, get_10i_n", "ebi/src/compression_common/elf.rs")])
prop("P05", "Fixed-point conversion truncates exactly, for every exponent and sign",
     "Converting a number to a fixed-point integer with n fraction bits gives exactly its magnitude times 2^n cut towards zero, negated for negative numbers, and zero for anything smaller than one unit, for every exponent for which the result fits. The number of fraction bits used for d decimals is always enough to tell apart numbers that differ in the d-th decimal, and grows with d.",
     ["inputs", "configurations"], "all mantissas; every exponent and number of fraction bits",
     "No test calls the conversion; an error at one exponent, shift or sign is not sampled.",
     ["ebi/src/compression_common/buff.rs"],
     [("into_fixed_representation", "ebi/src/compression_common/buff.rs"), ("PRECISION_MAP, flip", "ebi/src/compression_common/buff.rs")])
prop("P06", "Quantizing schemes give back exactly the quantized values",
     "Encoding with BUFF or delta-Sprintz and materializing the file yields for every record, in order, exactly the value quantized at the configured scale (BUFF: truncated to the fraction bits of the scale; Sprintz: rounded to a multiple of 1/scale), whatever the other values of the chunk and the width of their differences. Reading BUFF at a lower precision only drops bits below that precision.",
     ["inputs", "configurations"], "unknown values; every width of differences from 0 to 44 bits (Sprintz: 0 to 64), scales 1 to 1e9, positive and negative bases, chunk sizes",
     "No existing test encodes and decodes a file with these schemes.",
     ["ebi/src/compressor/buff.rs", "ebi/src/compressor/sprintz.rs", "ebi/src/decoder/chunk_reader/buff/decode.rs", "ebi/src/decoder/chunk_reader/buff/controlled_precision.rs", "ebi/src/decoder/chunk_reader/sprintz.rs"],
     [("buff_simd256_encode / buff_simd256_decode", "ebi/src/compressor/buff.rs"), ("delta_sprintz_compress_impl / iterator", "ebi/src/compressor/sprintz.rs")])
prop("P08", "A written file describes itself exactly: header, chunks, footer",
     "Whatever the values, scheme and chunk option, an encoded file is exactly a header, the chunks back to back and a footer: the footer offset points at the footer, every chunk's physical offset is where its bytes start and its logical offset the number of records before it, the record count is the number of values given, each chunk holds no more values than the chunk option allows and is what the scheme makes of exactly those values, and the stored configuration is the one used. Opening the file reports exactly these facts (records, chunks, chunk sizes, scheme, options), an empty input gives a file with no chunks that opens, and an input ending inside a value stores exactly its whole values.",
     ["inputs", "configurations"], "all values; every scheme; chunk limits by records, bytes and whole-file; input lengths 0..6 values and partial values",
     "The repository has no test that writes or opens a file; an offset wrong only for the last chunk or a chunk limit off by one is not sampled.",
     ["ebi/src/encoder.rs", "ebi/src/format.rs", "ebi/src/format", "ebi/src/decoder.rs", "ebi/src/api"],
     [("FileWriter", "ebi/src/encoder.rs"), ("FileReader / metadata", "ebi/src/decoder.rs"), ("format serialization", "ebi/src/format")])
prop("P09", "Scheme tags and stored configurations read back as what was stored",
     "For every compression scheme and every configuration content, the stored form has the announced size, reading it back under the scheme's tag gives a configuration that stores the same bytes, the compressor built from it is of that scheme, and a configured scale survives. Tags, field types and chunk kinds are one-to-one with their documented numbers, and opening a file whose header holds an unassigned one is refused with an error.",
     ["inputs", "configurations"], "all 13 schemes with unknown configuration bytes; all tag bytes",
     "No test serializes a configuration; a swapped tag or field is symmetric in a write-then-read of one scheme and shows only across schemes or versions.",
     ["ebi/src/compressor.rs", "ebi/src/format", "ebi/src/decoder.rs"],
     [("CompressorConfig", "ebi/src/compressor.rs"), ("deserialize/serialize", "ebi/src/format")])
prop("P11", "Compressors: exact size accounting, clean reuse, append and rewind",
     "For every scheme and values: the input byte count is what was given, the announced size before preparing is the size of the prepared buffers, a compressor that was reset emits for the next values what a fresh one emits, appending values gives what compressing the concatenation gives, and rewinding by n records either reports that it cannot and changes nothing or leaves what compressing the shorter prefix gives.",
     ["inputs", "histories"], "all values (per XOR class for the XOR schemes); compress / reset / append / rewind sequences of up to 6 values, runs to 511",
     "No test calls a compressor twice; state left over by one chunk corrupts only the next one.",
     ["ebi/src/compressor.rs", "ebi/src/compressor"],
     [("Compressor trait", "ebi/src/compressor.rs"), ("AppendableCompressor / RewindableCompressor", "ebi/src/compressor/uncompressed.rs"), ("run_length", "ebi/src/compressor/run_length.rs")])
prop("P07", "Queries select exactly what the mask, the predicate and the chunk say",
     "For a file of any scheme without compressed-form execution: filtering returns exactly the records that are in the given mask (all records if none) and the given chunk (all chunks if none) and satisfy the predicate (==, !=, open or closed ranges); materializing writes exactly the selected records' values in order and nothing else; filter-and-materialize writes exactly what filtering and then materializing writes; sum, min and max range over exactly the selected records.",
     ["inputs", "configurations"], "all values and predicate constants; every subset of up to 5 records in up to 3 chunks as mask; every chunk; every scheme and predicate kind",
     "No existing test runs a query; an off-by-one at a chunk border, a mask that starts inside a later chunk or one predicate kind with one bound is not sampled.",
     ["ebi/src/decoder/query.rs", "ebi/src/api/decoder.rs", "ebi/src/decoder/chunk_reader.rs"],
     [("QueryExecutor default implementations", "ebi/src/decoder/query.rs"), ("Decoder", "ebi/src/api/decoder.rs"), ("chunk reader dispatch", "ebi/src/decoder/chunk_reader.rs")])
prop("P10", "BUFF and Sprintz queries on compressed form agree with the decoded values",
     "For files written with BUFF or delta-Sprintz, whose readers answer filter, filter-and-materialize, materialize, sum, min and max from the compressed form, the answer is the one obtained by decoding every record and then applying the mask, the predicate (with constants the scheme represents exactly at the file's scale) and the aggregation, whatever the widths of the chunk, the position of the chunk in the file, the mask and the number of records.",
     ["inputs", "configurations"], "unknown values or unknown constant; chunk widths 1 to 27 (thorough 41) bits; scales 1 to 10000; masks; record offsets not multiples of 8; chunks long enough for the 32-wide vector code",
     "No existing test runs a query; an early exit that ignores the mask or a vector lane wrong at one byte plane needs that width, constant and mask.",
     ["ebi/src/decoder/chunk_reader/buff", "ebi/src/decoder/chunk_reader/sprintz.rs", "ebi/src/compression_common/buff.rs"],
     [("BUFF filter / materialize / aggregates", "ebi/src/decoder/chunk_reader/buff/*.rs"), ("Sprintz filter and aggregates", "ebi/src/decoder/chunk_reader/sprintz.rs")])
prop("P12", "Nearest-vector, matrix and expression queries use exactly the right records",
     "Reading the file as consecutive vectors of the target's length, knn1 returns the position and squared distance of a vector that no other is nearer than, however the vectors fall on chunks (an incomplete last vector is not a candidate); matmul returns, for every whole matrix in order, the product with the given matrix, and refuses shapes that do not fit; distance and dot product at an offset pair exactly the records from that offset with the target. An aggregation of an arithmetic expression over several files evaluates the expression on the same record of each file, for exactly the masked records, alone or together with other aggregations.",
     ["inputs", "configurations"], "all values and targets; 1 to 6 records, vectors of 1 to 5, every chunk size; matrices to 3x3; expression trees over two files and literals; every mask",
     "No test the build runs calls these functions; a vector that spans two chunks, or a mask with several chunks, is not sampled.",
     ["ebi/src/api/decoder.rs", "ebi/src/decoder/expr.rs", "ebi/src/decoder/query.rs"],
     [("Decoder::knn1 / matmul", "ebi/src/api/decoder.rs"), ("Expr::compute_chunk, Aggregation", "ebi/src/decoder/expr.rs")])
prop("P13", "Input/output faults are reported; short or interrupted transfers lose nothing",
     "When an operation on the input or output stream reports an error, encoding and every query report an error instead of succeeding, panicking or hanging. When the stream moves only some of the requested bytes per call, or a call is interrupted and can be retried, encoding stores all records and every query gives the same answer as over an ideal stream (or, for an interruption, reports an error). A file cut off at any length is refused with an error, never decoded to other values and never a panic.",
     ["faults", "crash points"], "every scheme and query; a fault or an interruption at each operation the run performs, transfers of 1 to 13 bytes per call, a file cut at every length; 5 records in 3 chunks",
     "The tests read from and write to memory buffers that never fail, fragment or end early.",
     ["ebi/src/encoder.rs", "ebi/src/decoder.rs", "ebi/src/decoder/chunk_reader.rs", "ebi/src/api"],
     [("read_less_or_equal, ChunkWriter::write, FileWriter", "ebi/src/encoder.rs"), ("FileReader, chunk readers", "ebi/src/decoder.rs")])
prop("P14", "A query's answer does not depend on the queries asked before it",
     "On one open file, and on one chunk reader, every query (materialize, filter, filter_materialize, sum, min, max, nearest vector, distance, dot product), with or without a mask, gives after any other successful query exactly the answer it gives on a freshly opened one (sums up to floating-point rounding); changing the precision of an open file takes effect for the next query exactly as on a fresh file, and so does raising that of a chunk reader. Otherwise the cached decompressed values, the read position and the precision setting are never observable.",
     ["histories", "configurations"], "every scheme; every ordered pair of 14 queries on a file and 17 on a chunk reader, with range and equality predicates, with and without a mask; precision switches in between",
     "The tests ask one query per opened file.",
     ["ebi/src/api/decoder.rs", "ebi/src/decoder/chunk_reader", "ebi/src/decoder/query.rs"],
     [("chunk_reader_from_handle, with_precision", "ebi/src/api/decoder.rs"), ("decompress / decompress_result / reset of every reader", "ebi/src/decoder/chunk_reader/*.rs")])
