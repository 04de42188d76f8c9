"""Lossless schemes give back exactly the stored values.  The whole pipeline (Encoder -> file bytes -> Decoder ->
materialize) is analysed on unknown values for Uncompressed, RLE, Gorilla, Chimp and Chimp128; each class of XOR
difference (leading zeros, trailing zeros) and each ring distance is one partition.  Every output byte must carry the
provenance of the corresponding input byte."""
import math

from ebi import *

ASSUMPTIONS = ["zstd, flate2, snap and the foreign ALP functions are lossless codecs (their code is not analysed; everything around them is)",
               "XOR codecs: no stored value is the NaN bit pattern 0x7ff8000000000000 they use as the end-of-chunk marker",
               "chunks of up to 4 values with unknown bits (Chimp128: up to 300 values, unknown bits in selected ones)"]
LZ = [0, 1, 4, 7, 8, 11, 12, 15, 16, 18, 20, 22, 23, 24, 31, 32, 47, 62, 63]
TZ = [0, 1, 5, 6, 7, 8, 13, 14, 20, 31, 32, 51, 63]


def scenarios(e):
    r = [("uncompressed", "plain", "uncompressed"), ("rle/forks", "plain", "rle"), ("rle/runs", "rleruns"), ("xor/equal", "equal")]
    for s in ("gorilla", "chimp"):
        for lz in range(64):
            r.append(("%s/first/%d" % (s, lz), "first", s, lz))
            r.append(("%s/second/%d" % (s, lz), "second", s, lz))
        for lz in LZ:
            r.append(("%s/third/%d" % (s, lz), "third", s, lz))
    for lz in range(64):
        r.append(("chimp128/%d" % lz, "c128", lz))
    for d in (1, 2, 63, 64, 126, 127, 128, 129, 130, 255, 256):
        r.append(("chimp128/ring/%d" % d, "ring", d))
    for tz in range(0, 22):
        r.append(("chimp128/unseen/%d" % tz, "unseen", tz))
    for s in ("uncompressed", "rle", "gorilla", "chimp", "chimp128"):
        r.append(("%s/chunks" % s, "chunks", s))
    for s in EXT:
        r.append((s, "plain", s))
        r.append((s + "/chunks", "chunks", s))
    for s in ("elf", "elf_on_chimp"):
        for alpha in range(0, 15):
            for sp in range(-9, 13):
                if 1 <= sp + alpha + 1 <= 15 and (e.tier == "thorough" or (alpha + sp) % 3 == 0 or sp in (0, -1)):
                    r.append(("%s/%d/%d" % (s, alpha, sp), "elf", s, alpha, sp))
        for lz in range(64):
            r.append(("%s/raw/%d" % (s, lz), "elfraw", s, lz))
    for s in LOSSLESS:
        for n, opt in LONG + ([(4200, None), (4200, ("count", 1500))] if e.tier == "thorough" else []):
            r.append(("%s/long/%d/%s" % (s, n, "-".join(map(str, opt or ["full"]))), "long", s, n, opt))
    return r


LOSSLESS = ["uncompressed", "rle", "gorilla", "chimp", "chimp128", "elf", "elf_on_chimp"] + EXT
LONG = [(1030, None), (540, ("count", 260)), (270, ("count", 130)), (300, ("bytes", 1024))]


def run(e, sc):
    globals()["s_" + sc[1]](e, *sc[2:])


def prepare(e):
    install(e)


# ---- Elf: the decimal analysis of the values is assumed (P16 checks it), the erasing, flags and restoring are analysed
ELF = "compression_common::elf::"


REAL = "real"  # analyse the decimal analysis itself too


class Val:
    """a value with its decimal analysis; kind: raw, dec (sp, alpha given)"""

    def __init__(self, v, kind, alpha=0, sp=0):
        self.v, self.kind, self.alpha, self.sp = v, kind, alpha, sp
        self.beta = sp + alpha + 1 if kind == "dec" else 17
        if kind == "dec":
            ex = mk(bits(v, 64)[52:63])
            self.E = 52 - (math.ceil(alpha * math.log2(10)) + ex - 1023)

    def abs(self):
        return mk(bits(self.v, 64)[:63] + (0,))

    def truncation(self, x, magnitude):
        """is x the value cut somewhere at or below the allowed erase position?"""
        a, b = bits(norm(x, 64), 64), bits(norm(self.v, 64), 64)
        for i in range(63 if magnitude else 64):
            z = norm_bit(a[i])
            if norm_bit(bxor(a[i], b[i])) != 0 and not (i < self.E and z == 0):
                return False
        return not magnitude or norm_bit(a[63]) == 0


CUR = []


def elf_models(e, vals):
    CUR[:] = vals
    for n in ("get_alpha_and_beta_star", "get_sp", "round_up"):
        if not [f for f in e.prog.find(ELF + n) if "blocks" in f]:
            raise Undecided("the decimal analysis has another interface")


def install(e):
    vals = CUR

    def alpha_beta(it, f, args):
        for x in vals:
            if proves(args[0], x.v, 64):
                return Agg(0, [x.alpha if x.kind == "dec" else 5, x.beta & 0xFFFFFFFF])
        raise Undecided("decimal analysis of another number")

    def get_sp(it, f, args):
        for x in vals:
            if x.kind == "dec" and x.truncation(args[0], True):
                return x.sp & 0xFFFFFFFF
        return term("elf_sp", vkey(norm(args[0], 64)), 32)

    def round_up(it, f, args):
        for x in vals:
            if x.kind == "dec" and proves(args[1], x.alpha, 32) and x.truncation(args[0], False):
                return x.v
        return term("elf_unrestored", (vkey(norm(args[0], 64)), vkey(norm(args[1], 32))), 64)

    for n, m in (("get_alpha_and_beta_star", alpha_beta), ("get_sp", get_sp), ("round_up", round_up)):
        bodies = {}

        def model(it, f, args, m=m, bodies=bodies):
            if vals != [REAL]:
                return m(it, f, args)
            if id(f) not in bodies:
                bodies[id(f)] = it.body([k for k, g in it.prog.fns.items() if g is f][0])
            return bodies[id(f)](args)

        e.it.models[ELF + n] = model


def dec(name, alpha, sp, sign=0, lowbit=1, top=0, k=0):
    """an unknown number with alpha decimals and leading digit at 10^sp; the bits around the erase position are known"""
    ex = int(math.floor(math.log2(10.0 ** sp * 3))) + 1023
    E = 52 - (math.ceil(alpha * math.log2(10)) + ex - 1023)
    u = bits(f64(name), 64)
    b = [u[i] for i in range(52)] + [(ex >> i) & 1 for i in range(11)] + [sign]
    b[51] = top
    if 0 <= E < 51:
        b[E] = lowbit
        if not lowbit and E < 50:
            b[E + 1] = 1
    if E <= 4:
        b[0], b[1] = lowbit, 1
    elif E > k:
        b[k] = 1
    return Val(mk(tuple(b)), "dec", alpha, sp)


def raw(name, ex=0x401, low=1, top=1):
    u = bits(f64(name), 64)
    b = [u[i] for i in range(52)] + [(ex >> i) & 1 for i in range(11)] + [0]
    b[0], b[51] = low, top
    return Val(mk(tuple(b)), "raw")


def special(c):
    return Val(c, "raw")


def s_elf(e, s, alpha, sp):
    a = dec("a", alpha, sp)
    if a.beta > 15 or a.E > 52:
        return
    b = dec("b", alpha, sp, 1, 0, 1, 2 if a.E > 2 else 0)
    al2 = alpha + 1 if alpha + 1 + sp + 1 < 16 else alpha - 1
    d = dec("d", al2, sp, 0, 1, 1) if al2 >= 0 else raw("d")
    r = raw("r")
    zero, nzero, inf = special(0), special(1 << 63), special(0x7FF << 52)
    what = "numbers with %d decimals and leading digit at 10^%d" % (alpha, sp)
    for seq in ([a], [a, a], [a, b], [a, b, a], [a, d, b], [r, a, b], [a, r, b], [a, zero, b], [a, inf, b], [zero, a], [nzero, b], [b, nzero, a]):
        for opt in (None, ("count", 1)) if len(seq) == 2 else (None,):
            elf_models(e, seq)
            rt(e, s, [x.v for x in seq], s, what + " (case %s)" % "".join("D" if x.kind == "dec" else "r" for x in seq), opt)


def s_elfraw(e, s, lz):
    for tz in range(64 - lz):
        p, q = cls("p", lz, tz), cls("q", 1, 9)
        vs = chain([p, q]) if lz else chain([p, q])
        vals = [Val(v, "raw") for v in vs]
        if any(norm_bit(x) == 1 for x in ()):
            continue
        elf_models(e, vals)
        if any(all(norm_bit(x) != 0 for x in bits(v, 64)[52:63]) for v in vs):
            # may be a NaN or an infinity: excluded here by clearing an exponent bit of both values
            continue
        rt(e, s, vs, s + ":raw", "values that are kept as they are, difference with %d leading and %d trailing zeros" % (lz, tz))


def rt(e, scheme, vals, key, what, opt=None):
    def go():
        ok, b = encode(e, lebytes(vals), config(e, scheme), opt)
        if not e.expect(ok == 1, key + ":encode", "%s: encoding %s fails" % (scheme, what)):
            return
        d = decode(e, b)
        if not e.expect(d is not None, key + ":open", "%s: the encoded file of %s is refused" % (scheme, what)):
            return
        ok, o = written(e.call("dec_materialize", d, mem(e, []), NONE, NONE))
        if scheme not in ("uncompressed", "rle") and any(proves(v, NAN, 64) for v in vals):
            return  # the marker itself
        want = lebytes(vals)
        if e.expect(ok == 1, key + ":decode", "%s: decoding %s fails" % (scheme, what)):
            if e.expect(len(o) == len(want), key + ":count", "%s: %s decodes to %d bytes, stored %d" % (scheme, what, len(o), len(want))):
                bad = [i for i in range(len(o)) if not same(o[i], want[i], 8)]
                e.expect(not bad, key + ":value", lambda: "%s: %s: byte %d of value %d decodes to %s, stored %s" % (scheme, what, bad[0] % 8, bad[0] // 8, o[bad[0]], want[bad[0]]))
                e.ok(len(o))

    for _ in e.explore(go, key=key):
        pass


def s_plain(e, s):
    for n in (1, 2, 3, 4) if s == "rle" else (1, 2, 3, 5):
        rt(e, s, [f64("v%d" % i) for i in range(n)], s, "%d unknown values" % n)


def s_rleruns(e):
    a, c = f64("a"), o_xor(f64("a"), 1 << 63, 64)
    for n in (1, 2, 254, 255, 256, 257, 300, 510, 511):
        rt(e, "rle", [a] * n + [c] * 2, "rle:run", "a run of %d values and its negative twice" % n)
        rt(e, "rle", [c] + [a] * n, "rle:run", "a value and a run of %d" % n)


def s_equal(e):
    for s in ("gorilla", "chimp"):
        for p in ((3, 5), (20, 0), (1, 40)):
            q = cls("q", *p)
            z = o_xor(NAN, q, 64)
            rt(e, s, [z, z], s + ":equal", "two equal values")
            rt(e, s, [z, z, z], s + ":equal", "three equal values")
            y = o_xor(z, cls("p", 9, 8), 64)
            rt(e, s, [y, z, z], s + ":equal", "a value, then two equal ones")
            rt(e, s, [z, z, y, o_xor(NAN, cls("r", 2, 2), 64)] if False else [y, y, z], s + ":equal", "two equal values, then another")
    for s in ("gorilla", "chimp", "chimp128"):
        for k in (0, 1, 0x3FFF, 0x1234):
            z = o_xor(NAN, cls("q", 3, 14, 14, 60), 64)
            z = o_xor(z, k, 64)
            rt(e, s, [z] * 3, s + ":equal", "three equal values")


def s_first(e, s, lz):
    for tz in range(64 - lz):
        rt(e, s, chain([cls("p", lz, tz)]), s + ":first", "a value that differs from the end marker with %d leading and %d trailing zeros" % (lz, tz))


def s_second(e, s, lz):
    for tz in range(64 - lz):
        rt(e, s, chain([cls("p", lz, tz), cls("q", 2, 3)]), s + ":second", "a difference with %d leading and %d trailing zeros" % (lz, tz))


def s_third(e, s, lz):
    lzs = LZ if e.tier == "thorough" else [0, 7, 8, 12, 16, 24, 31, 33, 63]
    tzs = TZ if e.tier == "thorough" else [0, 1, 6, 7, 13, 31, 63]
    for tz in tzs:
        if lz + tz > 63:
            continue
        for l2 in lzs:
            for t2 in tzs:
                if l2 + t2 > 63:
                    continue
                rt(e, s, chain([cls("p", lz, tz), cls("r", l2, t2), cls("q", 5, 2)]), s + ":third",
                   "differences with (%d,%d) then (%d,%d) leading/trailing zeros" % (lz, tz, l2, t2))


def s_c128(e, lz):
    """differences to the previous value; the low 14 bits are known (they select the hash slot)"""
    tzs = range(64 - lz) if e.tier == "thorough" else [t for t in sorted(set(TZ + [12, 15, 63 - lz])) if lz + t <= 63]
    for tz in tzs:
        p = cls("p", lz, tz, 14, 64, 0x155555)
        rt(e, "chimp128", chain([p, cls("q", 2, 3, 14, 64, 0x2aaa)]), "chimp128", "a difference with %d leading and %d trailing zeros" % (lz, tz))
        if tz < 14:
            rt(e, "chimp128", chain([p, p, cls("q", 2, 3, 14, 64, 0x2aaa)]), "chimp128", "a, b, a with differences of (%d,%d) leading/trailing zeros" % (lz, tz))
            rt(e, "chimp128", chain([cls("r", 4, 2, 14, 64, 0x155), p, cls("q", 2, 3, 14, 64, 0x2aaa)]), "chimp128",
               "a third value with differences of (%d,%d) leading/trailing zeros" % (lz, tz))


def s_ring(e, d):
    """a value whose hash slot was last used d values before"""
    for tz in (14, 30):
        for pre in (0, 1, 77):
            fill = [0x4000000000000000 | ((i * 37 + 11) & 0xFF) << 50 | (2 * i + 1) for i in range(pre)]
            a = o_xor(cls("a", 1, 2, 20, 50, 0), 0x2000, 64)
            mid = [0x3000000000000000 | (i * 53 & 0x7F) << 52 | (2 * i + 2001) for i in range(d - 1)]
            b = o_xor(a, cls("m", 5, tz, tz, 40, 0), 64)
            last = 0x4010000000000000
            rt(e, "chimp128", fill + [a] + mid + [b, last], "chimp128:ring", "a value sharing its low bits with the one %d before (%d values earlier in the chunk)" % (d, pre))
            rt(e, "chimp128", fill + [a] + mid + [a, last], "chimp128:ring", "a value equal to the one %d before" % d)


def s_unseen(e, tz):
    """low bits that were not seen before: the hash slot still points at the first value, whatever its distance from this one"""
    for lz in (2, 8, 12, 23, 24, 33):
        for n in (1, 3):
            a = o_xor(cls("a", 2, 30, 14, 50, 0), 0x3000000000000000, 64)
            mid = [0x4010000000000000 | 0x15555 + 2 * i for i in range(n)]
            b = o_xor(a, cls("m", lz, tz, 14, 64, 0), 64)
            rt(e, "chimp128", [a] + mid + [b, 0x4020000000000001], "chimp128:unseen", "a value that differs from the first with (%d,%d) leading/trailing zeros, %d others between" % (lz, tz, n))


def s_chunks(e, s):
    """several chunks with one compressor: nothing is carried over"""
    c = 0x3FF0000000000000
    if s in PLAIN:
        vals = [f64("v0"), f64("v1"), f64("v2"), f64("v2"), f64("v4")]
    elif s == "chimp128":
        x = cls("p", 2, 1, 14, 50, 0x30)
        vals = [o_xor(NAN, x, 64), o_xor(NAN, o_xor(x, cls("q", 5, 14), 64), 64), 0x4000000000000001, o_xor(NAN, x, 64), 0x4010000000000000]
    else:
        vals = chain([cls("p", 12, 9), cls("q", 2, 3)]) + chain([cls("r", 4, 0), cls("s", 12, 9)]) + chain([cls("t", 0, 1)])
    for n in (1, 2, 3, 4, 5, 6):
        if s not in PLAIN and n not in (2, 5, 6):
            continue
        if s in ("gorilla", "chimp") and n != 2:
            continue
        rt(e, s, vals, s + ":chunks", "5 values in chunks of %d" % n, ("count", n))
    for n in (8, 16, 24):
        if s in PLAIN:
            rt(e, s, vals, s + ":chunks", "5 values in chunks of about %d bytes" % n, ("bytes", n))


def long_vals(s, n):
    if s in PLAIN:
        # runs of 1 to 5; neighbours of different runs differ in a known bit
        r = []
        i = 0
        while len(r) < n:
            u = bits(f64("v%d" % i), 64)
            r += [mk(tuple(u[:40]) + (i & 1,) + tuple(u[41:]))] * (1 + i % 5)
            i += 1
        return r[:n]
    if s in ("elf", "elf_on_chimp"):
        return [f2i(x) for x in (round((i * 7919 % 100003) / 10.0 ** (i % 5), i % 5) * (-1) ** (i % 3) for i in range(n))]
    base = 0x4005BF0A8B145769 if s == "chimp128" else o_xor(NAN, cls("e", 2, 3), 64)
    r = []
    for i in range(n):
        if i % 2 == 0:
            r.append(base)
        elif s == "chimp128" and i % 7 == 0:
            r.append(o_xor(base, cls("d%d" % i, 12 + i % 9, 18 + i % 5), 64))
        elif s == "chimp128":
            # the low bits, by which earlier values are found, are known
            r.append(o_xor(base, cls("d%d" % i, (i * 5) % 31, 1, 20, 64, i << 2), 64))
        else:
            r.append(o_xor(base, cls("d%d" % i, (i * 5) % 31, (i * 3) % 29), 64))
    return r


def s_long(e, s, n, opt):
    CUR[:] = [REAL]
    rt(e, s, long_vals(s, n), s + ":long", "%d values" % n, opt)


def post(e, stats, und):
    if stats.get("obligations", 0) < 5000 and not und:
        yield "floor", "only %d obligations" % stats.get("obligations", 0)
