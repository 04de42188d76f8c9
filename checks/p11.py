"""Compressor contract.  For every scheme, on values with unknown bits: the input count is the number of bytes given, the
announced size before prepare is the size of the prepared buffers, reset leaves nothing behind (a reused compressor emits what
a fresh one emits), and for the appendable / rewindable schemes append equals compressing the concatenation and rewind
equals compressing the shorter prefix."""
from ebi import *

ASSUMPTIONS = ["zstd, flate2, snap and the foreign ALP functions are opaque lossless codecs", "up to 6 values (RLE: runs of up to 511)"]


def scenarios(e):
    r = []
    for s in SCHEMES:
        for n in (1, 2, 3, 5):
            r.append(("%s/size/%d" % (s, n), "size", s, n))
        for n, m, prep in ((1, 1, 1), (2, 1, 1), (1, 2, 1), (3, 2, 1), (2, 3, 0), (1, 1, 0)):
            r.append(("%s/reuse/%d/%d/%d" % (s, n, m, prep), "reuse", s, n, m, prep))
    for s in ("uncompressed", "rle"):
        for n in range(0, 4):
            for m in range(1, 4):
                r.append(("%s/append/%d/%d" % (s, n, m), "append", s, n, m))
        for n in range(1, 5):
            for k in range(0, n + 2):
                r.append(("%s/rewind/%d/%d" % (s, n, k), "rewind", s, n, k))
    r.append(("rle/long", "long"))
    for s in ("gorilla", "chimp", "chimp128"):
        for lz in range(64):
            r.append(("%s/xor/%d" % (s, lz), "xor", s, lz))
    return r


def run(e, sc):
    globals()["s_" + sc[1]](e, *sc[2:])


def vals(s, n, shift=0):
    v = sample(s)
    if s in ("gorilla", "chimp"):
        # suffixes of a chain end at the end marker: few case distinctions
        a = chain([cls("p", 12, 9), cls("q", 2, 3), cls("r", 4, 0), cls("s", 12, 9), cls("t", 1, 1)])
        b = chain([cls("P", 3, 9), cls("Q", 12, 3), cls("R", 4, 40), cls("S", 30, 9), cls("T", 0, 5)])
        return (b if shift else a)[-n:]
    v = v[shift:] + v[:shift]
    return v[:n]


def new(e, s):
    return cell(e.call("cfg_build", config(e, s, SCALED.get(s))))


def eqb(a, b):
    return len(a) == len(b) and same_all(zip(a, b), 8)


def facts(e, s, c, n, what):
    g = e.call("c_bytes_in", c)
    e.expect(g == 8 * n, "bytes_in", lambda: "%s: %s: total_bytes_in is %s, %d given" % (s, what, g, 8 * n))
    t = e.call("c_bytes_buffered", c)
    b = buffers(e, c)
    e.expect(t == len(b), "bytes_buffered", lambda: "%s: %s: total_bytes_buffered is %s, the prepared buffers hold %d bytes" % (s, what, t, len(b)))
    return b


def s_size(e, s, n):
    def go():
        c = new(e, s)
        e.expect(e.call("c_bytes_in", c) == 0, "bytes_in", "%s: a new compressor has taken bytes" % s)
        e.expect(e.call("c_compress", c, slicep(vals(s, n))) == 1, "compress", "%s: compressing fails" % s)
        facts(e, s, c, n, "%d values" % n)
        t = e.call("c_bytes_in", c)
        e.expect(t == 8 * n, "bytes_in", lambda: "%s: total_bytes_in is %s after prepare" % (s, t))
        e.call("c_reset", c)
        e.expect(e.call("c_bytes_in", c) == 0, "reset", "%s: total_bytes_in is not 0 after reset" % s)

    for _ in e.explore(go, key="size"):
        pass


def s_reuse(e, s, n, m, prep):
    def go():
        f = new(e, s)
        e.call("c_compress", f, slicep(vals(s, m, 2)))
        want = buffers(e, f)
        c = new(e, s)
        e.call("c_compress", c, slicep(vals(s, n)))
        if prep:
            e.call("c_prepare", c)
        e.call("c_reset", c)
        e.call("c_compress", c, slicep(vals(s, m, 2)))
        got = facts(e, s, c, m, "%d values after a reset" % m)
        e.expect(eqb(got, want), "reuse", lambda: "%s: after %d values and a reset, %d values give other bytes than in a new compressor" % (s, n, m))

    for _ in e.explore(go, key="reuse"):
        pass


def s_append(e, s, n, m):
    def go():
        a = [f64("a%d" % i) for i in range(n)]
        b = [f64("b%d" % i) for i in range(m)]
        c = new(e, s)
        if n:
            e.call("c_compress", c, slicep(list(a)))
        e.expect(e.call("c_append", c, slicep(list(b))) == 1, "append", "%s cannot append" % s)
        got = facts(e, s, c, n + m, "%d values and %d appended" % (n, m))
        f = new(e, s)
        e.call("c_compress", f, slicep(a + b))
        e.expect(eqb(got, buffers(e, f)), "append", lambda: "%s: appending %d values to %d is not the same as compressing them together" % (s, m, n))

    for _ in e.explore(go, key="append"):
        pass


def s_rewind(e, s, n, k):
    def go():
        v = [f64("a%d" % i) for i in range(n)]
        c = new(e, s)
        e.call("c_compress", c, slicep(list(v)))
        r = e.call("c_rewind", c, k)
        if k > n:
            e.expect(r == 0, "rewind:refused", "%s: rewinding %d of %d values succeeds" % (s, k, n))
            left = v
        else:
            e.expect(r == 1, "rewind", "%s: rewinding %d of %d values is refused" % (s, k, n))
            left = v[: n - k]
        after(e, s, c, left, "%d of %d values rewound" % (k, n))

    for _ in e.explore(go, key="rewind"):
        pass


def after(e, s, c, left, what):
    """the compressor behaves as if only the remaining values had been given, also for further appends"""
    x = [f64("x"), f64("y")]
    d = cell(e.call("c_clone", c))
    if left:
        got = facts(e, s, c, len(left), what)
        f = new(e, s)
        e.call("c_compress", f, slicep(list(left)))
        e.expect(eqb(got, buffers(e, f)), "rewind:content", lambda: "%s: %s: not the bytes of the remaining %d values" % (s, what, len(left)))
    e.call("c_append", d, slicep(list(x)))
    got = facts(e, s, d, len(left) + 2, what + ", 2 appended")
    f = new(e, s)
    e.call("c_compress", f, slicep(left + x))
    e.expect(eqb(got, buffers(e, f)), "rewind:append", lambda: "%s: %s, then appending: not the bytes of the values together" % (s, what))


def s_long(e):
    """runs beyond the largest run count"""
    a, b = f64("a"), o_xor(f64("a"), 1 << 63, 64)

    def go(seq, k):
        c = new(e, "rle")
        e.call("c_compress", c, slicep(list(seq)))
        e.expect(e.call("c_rewind", c, k) == 1, "rewind", "rle: rewinding %d of %d values is refused" % (k, len(seq)))
        left = seq[: len(seq) - k]
        got = facts(e, "rle", c, len(left), "%d of %d values rewound" % (k, len(seq)))
        f = new(e, "rle")
        e.call("c_compress", f, slicep(left))
        e.expect(eqb(got, buffers(e, f)), "rewind:content", lambda: "rle: %d of %d values rewound: not the bytes of the remaining values" % (k, len(seq)))

    for n in (254, 255, 256, 300, 511):
        for seq in ([a] * n, [b] + [a] * n, [a] * n + [b] * 3):
            for k in (0, 1, 2, 3, 4, 5, 44, 45, 46, 255, 256):
                if k < len(seq):
                    for _ in e.explore(lambda: go(seq, k), key="long"):
                        pass


def s_xor(e, s, lz):
    """the announced size for every shape of the last two differences (the end marker is one of them)"""
    k = dict(lo=14) if s == "chimp128" else {}

    def go(v):
        c = new(e, s)
        e.call("c_compress", c, slicep(list(v)))
        facts(e, s, c, len(v), "%d values" % len(v))

    for tz in range(64 - lz):
        if e.tier != "thorough" and (tz % 5 and tz not in (6, 7, 13) and tz != 63 - lz):
            continue
        for v in (chain([cls("p", lz, tz, **k)]), chain([cls("p", lz, tz, **k), cls("q", 9, 5, fill=0x155, **k)]), chain([cls("q", 9, 5, fill=0x155, **k), cls("p", lz, tz, **k)])):
            for _ in e.explore(lambda: go(v), key="xor"):
                pass


def post(e, stats, und):
    if stats.get("obligations", 0) < 1000 and not und:
        yield "floor", "only %d obligations" % stats.get("obligations", 0)
