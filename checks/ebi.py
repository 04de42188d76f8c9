"""shared harness: abstract files, predicates and queries"""
from main import *
import models

SCHEMES = ["uncompressed", "rle", "gorilla", "chimp", "chimp128", "elf_on_chimp", "elf", "buff", "delta_sprintz", "zstd", "gzip", "snappy", "ffi_alp"]
# documented tags (file format)
TAG = {"uncompressed": 0, "rle": 1, "buff": 2, "gorilla": 3, "chimp": 4, "chimp128": 5, "elf_on_chimp": 6, "elf": 7,
       "delta_sprintz": 8, "zstd": 9, "gzip": 10, "snappy": 11, "ffi_alp": 12}

NONE = Agg(0, [])


def some(v):
    return Agg(1, [v])


def f64(n):
    """an unknown f64"""
    return term("in", n, 64)


def bytes_of(v, n=8):
    """little-endian bytes of an abstract scalar"""
    b = bits(v, 8 * n)
    return [mk(tuple(b[8 * i: 8 * i + 8])) for i in range(n)]


def from_bytes(bs):
    r = []
    for b in bs:
        r += list(bits(b, 8))
    return mk(tuple(r))


def lebytes(vals):
    r = []
    for v in vals:
        r += bytes_of(v)
    return r


def mem(e, data, fail=0, cap=0):
    return e.call("mem", vecv(data), fail, cap)


def config(e, scheme, scale=None):
    c = e.call("cfg_" + scheme)
    if scale is not None:
        c = e.call("cfg_set_scale", c, scale)
    return c


def option(e, opt):
    if opt is None:
        return e.call("opt_full")
    k, n = opt
    return e.call("opt_count" if k == "count" else "opt_bytes", n)


def encode(e, data, cfg, opt, fail=0, cap=0, ifail=0):
    """data: list of bytes; returns (ok, output bytes)"""
    r = e.call("enc", mem(e, data, ifail, cap), mem(e, [], fail, 0), cfg, option(e, opt))
    ok, m = r.f
    return ok, unbox(e.call("mem_data", m))


def decode(e, data, fail=0):
    """-> Ptr to Decoder, or None"""
    r = e.call("dec", mem(e, data, fail, 0))
    if r.v != 0:
        return None
    return cell(r.f[0])


def written(r):
    """(ok, Mem) -> (ok, bytes)"""
    ok, m = r.f
    return ok, unbox(m.f[0])


def compress(e, scheme, vals, scale=None, cfg=None):
    """-> bytes of the prepared buffers"""
    c = cell(e.call("cfg_build", cfg if cfg is not None else config(e, scheme, scale)))
    ok = e.call("c_compress", c, slicep(vals))
    return c, ok


def buffers(e, c):
    e.call("c_prepare", c)
    out = []
    for i in range(e.call("c_nbuffers", c)):
        out += unbox(e.call("c_buffer", c, i))
    return out


def eqint(a, b, w=64):
    """certainly equal as integers modulo 2^w, also through sums whose value the trace has fixed"""
    if proves(a, b, w):
        return True
    d = o_sub(norm(a, w), norm(b, w), w)
    if type(norm(d, w)) is int:
        return norm(d, w) == 0
    known = [(t, c) for t, c in ((t, norm(t, w)) for t in list(S.lins) if t.nb == w) if type(c) is int][:8]

    def search(d, r, i):
        """d == r?  using known sums from the i-th on"""
        if type(d) is int:
            return (d - r) % (1 << w) == 0
        for j in range(i, len(known)):
            t, c = known[j]
            if search(o_sub(d, t, w), r - c, j + 1) or search(o_add(d, t, w), r + c, j + 1):
                return True
        return False

    keep = list(S.lins)
    try:
        return search(d, 0, 0)
    finally:
        S.lins[:] = keep


def fixed(v, n):
    """the fixed-point value of an abstract float with known sign and exponent: truncation of v * 2^n"""
    b = bits(v, 64)
    ex = mk(b[52:63]) - 1023
    if ex < -n:
        return 0
    sh = 63 - ex - n
    if sh < 1:
        raise Undecided("does not fit")
    full = (0,) * 11 + tuple(b[:52]) + (1,)
    mag = mk(full[sh:] + (0,) * sh)
    return o_sub(0, mag, 64) if b[63] else mag


NAN = 0x7FF8000000000000
EXT = ["zstd", "gzip", "snappy", "ffi_alp"]
PLAIN = ["uncompressed", "rle"] + EXT
SCALED = {"buff": 100, "delta_sprintz": 100}


def cls(name, lz, tz, lo=0, hi=64, fill=0):
    """a 64-bit difference with exactly lz leading and tz trailing zeros; bits in [lo, hi) unknown, others from fill"""
    b = [0] * 64
    u = bits(f64(name), 64)
    for i in range(tz, 64 - lz):
        b[i] = u[i] if lo <= i < hi else (fill >> i) & 1
    b[tz] = 1
    b[63 - lz] = 1
    return mk(tuple(b))


def chain(ps, end=NAN):
    """values v1..vn with v_i ^ v_{i+1} = ps[i] and v_n ^ end = ps[-1]"""
    v = end
    r = []
    for p in reversed(ps):
        v = o_xor(v, p, 64)
        r.append(v)
    return r[::-1]


def sample(s):
    """five values with unknown bits for which the scheme needs few case distinctions"""
    if s in PLAIN:
        return [f64("v0"), f64("v1"), f64("v2"), f64("v2"), f64("v4")]
    if s == "chimp128":
        x = cls("p", 2, 1, 14, 50, 0x30)
        return [o_xor(NAN, x, 64), o_xor(NAN, o_xor(x, cls("q", 5, 14), 64), 64), 0x4000000000000001, o_xor(NAN, x, 64), 0x4010000000000000]
    if s in ("gorilla", "chimp"):
        return chain([cls("p", 12, 9), cls("q", 2, 3)]) + chain([cls("r", 4, 0), cls("s", 12, 9)]) + chain([cls("t", 0, 1)])
    if s == "buff":
        u = bits(f64("x"), 64)
        x = mk(tuple(u[:44]) + tuple(bits(0x3F8, 8)) + tuple(bits(1023 + 3, 11)) + (0,))
        return [f2i(8.25), x, f2i(8.0), f2i(15.5), f2i(-3.0)]
    if s == "delta_sprintz":
        return [f2i(1.25), f2i(1.25), f2i(-7.5), f2i(3.0), f2i(2.99)]
    return [f2i(x) for x in (3.25, 3.26, -17.0, 0.1, 0.1 + 0.2)]
