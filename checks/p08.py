"""File layout.  The bytes the Encoder emits for unknown values are parsed by an independent description of the documented
format: header, chunks back to back, footer, nothing else.  Every offset, count and tag must agree with the bytes, every
chunk must be what a fresh compressor makes of exactly that chunk's values, and everything the Decoder reports about the
file must be what the bytes say."""
from ebi import *

ASSUMPTIONS = ["zstd, flate2, snap and the foreign ALP functions are opaque lossless codecs", "5 values, chunk limits 1..6 records / 8..64 bytes (Uncompressed, Zstd, ALP: 20 values, 1..20 records / to 100 bytes); recorded times are unknown"]
HDR = 30
TAIL = 16 + 9 * 16 + 4  # total time, nine segments, checksum
KIND = {None: 0, "count": 1, "bytes": 2}


def scenarios(e):
    r = []
    for s in SCHEMES:
        for o in [None] + [("count", n) for n in (1, 2, 3, 5, 6)] + [("bytes", n) for n in (8, 16, 17, 24, 64)]:
            if s not in PLAIN and o not in (None, ("count", 2), ("count", 5), ("bytes", 16)):
                continue
            if s in ("gorilla", "chimp") and o not in (("count", 2), ("bytes", 8)):
                continue
            r.append(("%s/%s" % (s, o), "file", s, o))
        r.append((s + "/empty", "empty", s))
    for s in ("uncompressed", "zstd", "ffi_alp"):
        for n in range(1, 21):
            r.append(("%s/many/%d" % (s, n), "file", s, ("count", n), 20))
        for n in (31, 32, 33, 40, 63, 65, 100):
            r.append(("%s/many/bytes/%d" % (s, n), "file", s, ("bytes", n), 20))
    r.append(("uncompressed/long/chunks", "file", "uncompressed", ("count", 1), 300))
    r.append(("uncompressed/long/bytes", "file", "uncompressed", ("bytes", 8), 600))
    r.append(("ffi_alp/long/chunks", "file", "ffi_alp", ("count", 2), 600))
    r.append(("uncompressed/long/records", "file", "uncompressed", ("count", 300), 2000))
    r.append(("zstd/long/full", "file", "zstd", None, 1100))
    for n in range(0, 17):
        r.append(("partial/%d" % n, "partial", n))
    return r


def run(e, sc):
    globals()["s_" + sc[1]](e, *sc[2:])


def u(b, i, n):
    v = from_bytes(b[i: i + n])
    return norm(v, 8 * n)


def parse(e, b, s, opt, key):
    """-> (number of records, [(phys, logical)], footer offset, config bytes, end of config)"""
    if not e.expect(len(b) >= HDR, key, "%s: file of %d bytes" % (s, len(b))):
        return None
    e.expect(b[0:4] == [0x45, 0x42, 0x49, 0x31], key + ":magic", lambda: "magic number is %s" % b[0:4])
    e.expect(u(b, 4, 1) == 0, key + ":field_type", lambda: "field type is %s" % b[4])
    e.expect(u(b, 5, 1) == TAG[s], key + ":scheme", lambda: "%s: scheme tag is %s, expected %d" % (s, b[5], TAG[s]))
    k, n = opt if opt else (None, 0)
    e.expect(u(b, 6, 1) == KIND[k] and u(b, 7, 1) == 0 and same(u(b, 8, 8), n, 64), key + ":option",
             lambda: "%s: chunk option stored as kind %s, value %s; expected %d, %s" % (s, b[6], u(b, 8, 8), KIND[k], n))
    fo = u(b, 16, 8)
    if not e.expect(type(fo) is int and HDR <= fo <= len(b) - 17 - TAIL, key + ":footer_offset", lambda: "%s: footer offset %s of a file of %d bytes" % (s, fo, len(b))):
        return None
    nr, nc = u(b, fo, 8), u(b, fo + 8, 8)
    if not e.expect(type(nr) is int and type(nc) is int and fo + 16 + 16 * nc + 1 <= len(b), key + ":footer",
                    lambda: "%s: footer says %s records, %s chunks" % (s, nr, nc)):
        return None
    cf = []
    for i in range(nc):
        q = fo + 16 + 16 * i
        cf.append((u(b, q, 8), u(b, q + 8, 8)))
    q = fo + 16 + 16 * nc
    sz = u(b, q, 1)
    if not e.expect(type(sz) is int and q + 1 + sz + TAIL == len(b), key + ":footer_size",
                    lambda: "%s: the footer (%d chunks, configuration of %s bytes) does not end at the end of the file (%d)" % (s, nc, sz, len(b))):
        return None
    return nr, cf, fo, b[q + 1: q + 1 + sz], q + 1 + sz


def fresh(e, s, vals, cfg):
    c, ok = compress(e, s, vals, cfg=cfg)
    return buffers(e, c)


def known_time(x):
    return type(x) is int


def s_file(e, s, opt, many=0):
    vals = [f64("w%d" % i) for i in range(many)] if many else sample(s)
    if s in ("gorilla", "chimp"):
        vals = vals[:4] if opt == ("count", 2) else vals[:2]

    def go():
        cfg = lambda: config(e, s, SCALED.get(s))
        ok, b = encode(e, lebytes(vals), cfg(), opt)
        if not e.expect(ok == 1, "encode", "%s: encoding fails" % s):
            return
        p = parse(e, b, s, opt, "layout")
        if p is None:
            return
        nr, cf, fo, cb, end = p
        e.expect(nr == len(vals), "layout:records", "%s: %s records in the footer, %d stored" % (s, nr, len(vals)))
        if not e.expect(cf and all(type(x) is int for c in cf for x in c) and cf[0] == (HDR, 0), "layout:first_chunk", lambda: "%s: chunk table %s" % (s, cf)):
            return
        ends = cf[1:] + [(fo, nr)]
        if not e.expect(all(a[0] < z[0] and a[1] < z[1] for a, z in zip(cf, ends)), "layout:chunk_order", lambda: "%s: chunk table %s, end %s" % (s, cf, ends[-1])):
            return
        if opt is None:
            e.expect(len(cf) == 1, "layout:full", "%s: %d chunks without a chunk limit" % (s, len(cf)))
        elif opt[0] == "count":
            e.expect([a[1] for a in cf] == list(range(0, len(vals), opt[1])), "layout:record_count", lambda: "%s: chunks of %d records start at records %s" % (s, opt[1], [a[1] for a in cf]))
        for i, (a, z) in enumerate(zip(cf, ends)):
            want = fresh(e, s, vals[a[1]: z[1]], cfg())
            got = b[a[0]: z[0]]
            e.expect(len(got) == len(want) and same_all(zip(got, want), 8), "layout:chunk_bytes",
                     lambda: "%s (%s): the bytes of chunk %d are not those of its values %d..%d" % (s, opt, i, a[1], z[1]))
        m = cell(mem(e, []))
        ok = e.call("cfg_serialize", cfg(), m)
        cs = unbox(e.call("mem_slice", m))
        e.expect(ok == 1 and len(cs) == 1 + len(cb) and same_all(zip(cs[1:], cb), 8), "layout:config", lambda: "%s: stored configuration %s, expected %s" % (s, cb, cs[1:]))
        # what the times slots hold is unknown, but all of them are times (written last, not over anything else)
        report(e, s, opt, b, p, cf, ends)

    for _ in e.explore(go, key="layout"):
        pass


def report(e, s, opt, b, p, cf, ends):
    nr, _, fo, cb, end = p
    d = decode(e, b)
    if not e.expect(d is not None, "open", "%s: the file is refused" % s):
        return
    for fn, want in (("dec_n_records", nr), ("dec_n_chunks", len(cf)), ("dec_footer_offset", fo), ("dec_footer_size", len(b) - fo),
                     ("dec_total_file_size", len(b)), ("dec_total_chunk_size", fo - HDR), ("dec_n_chunk_footers", len(cf)), ("dec_scheme", TAG[s])):
        g = e.call(fn, d)
        e.expect(norm(g, 64) == want, "report:" + fn[4:], lambda: "%s (%s): %s() reports %s, the file says %s" % (s, opt, fn[4:], g, want))
    for i, (a, z) in enumerate(zip(cf, ends)):
        e.expect(e.call("dec_phys", d, i) == a[0] and e.call("dec_logi", d, i) == a[1], "report:offsets", lambda: "%s: offsets reported for chunk %d differ from the file" % (s, i))
    o = e.call("dec_option", d)
    k, n = opt if opt else (None, None)
    e.expect(o.v == KIND[k] and (n is None or o.f[0] == n), "report:option", lambda: "%s: chunk option %s read back as %s" % (s, opt, o))
    el = from_bytes(b[end: end + 16])
    e.expect(not known_time(norm(el, 128)), "layout:elapsed", lambda: "%s (%s): the slot of the total time holds %s, not a measured time" % (s, opt, el))
    g = e.call("dec_elapsed", d)
    e.expect(same(g, el, 128), "report:elapsed", lambda: "elapsed time %s reported, %s stored" % (show(g), show(el)))
    for i, (a, z) in enumerate(zip(cf, ends)):
        r = e.call("dec_chunk", d, i)
        if e.expect(r.v == 1, "report:chunk", "%s: chunk %d cannot be opened" % (s, i)):
            c = cell(r.f[0])
            e.expect(e.call("cr_n_records", c) == z[1] - a[1], "report:chunk_records", lambda: "%s: chunk %d reports %s records, holds %d" % (s, i, e.call("cr_n_records", c), z[1] - a[1]))
            e.expect(e.call("cr_index", c) == i, "report:chunk_index", "%s: chunk %d reports another index" % (s, i))
            e.expect(e.call("cr_is_last", c) == int(i == len(cf) - 1), "report:last", "%s: chunk %d of %d: is_last_chunk is wrong" % (s, i, len(cf)))
            e.expect(e.call("cr_scheme", c) == TAG[s], "report:chunk_scheme", "%s: chunk %d is read by the reader of scheme %s" % (s, i, e.call("cr_scheme", c)))


def s_empty(e, s):
    for opt in (None, ("count", 2), ("bytes", 16)):
        def go():
            ok, b = encode(e, [], config(e, s, SCALED.get(s)), opt)
            if not e.expect(ok == 1, "empty:encode", "%s: encoding no values fails" % s):
                return
            p = parse(e, b, s, opt, "empty")
            if p is None:
                return
            e.expect(p[0] == 0 and p[1] == [] and p[2] == HDR, "empty:footer", lambda: "%s: file of no values: %s" % (s, p[:3]))
            d = decode(e, b)
            if e.expect(d is not None, "empty:open", "%s: a file without values is refused" % s):
                ok, o = written(e.call("dec_materialize", d, mem(e, []), NONE, NONE))
                e.expect(ok == 1 and o == [], "empty:materialize", "%s: a file without values materializes to %s" % (s, o))

        for _ in e.explore(go, key="empty"):
            pass


def s_partial(e, n):
    """an input that does not end on a value boundary: the whole values are stored"""
    data = [sym("b%d" % i, 8) for i in range(n)]
    for opt in (None, ("count", 1), ("count", 2), ("bytes", 8)):
        for cap in (0, 1, 3):
            def go():
                ok, b = encode(e, data, config(e, "uncompressed"), opt, cap=cap)
                if not e.expect(ok == 1, "partial:encode", "%d bytes: encoding fails" % n):
                    return
                p = parse(e, b, "uncompressed", opt, "partial")
                if p is None:
                    return
                w = n // 8 * 8
                e.expect(p[0] == n // 8 and len(b[HDR: p[2]]) >= w and p[2] == HDR + w and same_all(zip(b[HDR: HDR + w], data), 8), "partial:values",
                         lambda: "%d bytes of input (%d at a time, %s): chunk bytes are not the %d whole values" % (n, cap, opt, n // 8))

            for _ in e.explore(go, key="partial"):
                pass


def post(e, stats, und):
    if stats.get("obligations", 0) < 1000 and not und:
        yield "floor", "only %d obligations" % stats.get("obligations", 0)
