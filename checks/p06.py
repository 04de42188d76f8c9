"""Quantizing schemes give back exactly the quantized values.  Encoder -> bytes -> Decoder -> materialize is analysed for
BUFF (every width of the fixed-point differences, several scales, positive and negative bases, lowered precision) and for
delta Sprintz (unknown values; every width of the differences).  The value read back must be the quantized input: trunc(v*2^n)/2^n
for BUFF, round(v*scale)/scale for Sprintz, with the bits of the result traced to the bits of the input."""
from ebi import *

ASSUMPTIONS = ["BUFF: values whose fixed-point form fits 63 bits; chunks of up to 5 values (one or two with unknown bits)",
               "Sprintz: differences of quantized values fit 63 bits; up to 3 values"]
NB = {1: 0, 10: 5, 100: 8, 1000: 11, 10000: 15, 100000: 18, 1000000: 21, 10 ** 7: 25, 10 ** 8: 28, 10 ** 9: 31}


def scenarios(e):
    r = []
    for sc in (1, 10, 100, 1000, 10000, 10 ** 6, 10 ** 9):
        for L in range(0, 45):
            if e.tier == "thorough" or sc in (10, 1000) or L % 5 == 0 or L in (7, 8, 9, 16, 17):
                r.append(("buff/%d/%d" % (sc, L), "buff", sc, L))
                r.append(("buff-precision/%d/%d" % (sc, L), "prec", sc, L))
    for L in (0, 1, 6, 8, 13, 20):
        for cnt, opt in ((260, None), (300, ("count", 130)), (140, ("bytes", 160))) + (((2100, None),) if e.tier == "thorough" else ()):
            r.append(("buff/long/%d/%d" % (L, cnt), "bufflong", L, cnt, opt))
    for cnt, opt in ((1030, None), (300, ("count", 130)), (140, ("bytes", 256))):
        r.append(("sprintz/long/%d" % cnt, "sprlong", cnt, opt))
    r.append(("buff/constant", "const"))
    for sc in (1, 10, 100, 1000, 12345, 1 << 31):
        r.append(("sprintz/%d" % sc, "sprintz", sc))
    r.append(("sprintz/runs", "spruns"))
    return r


def run(e, sc):
    globals()["s_" + sc[1]](e, *sc[2:])


def at(name, k, n, lo, hi, inside=False):
    """2^k plus unknown bits [lo, hi) of the fixed-point form, and unknown bits below what is kept"""
    m = [0] * 52
    u = bits(f64(name), 64)
    if inside:  # strictly between 2^k and 2^k + 2^hi - 1
        hi -= 1
        if hi > lo:
            m[52 - k + lo] = 1
        lo += 1
    for j in range(lo, hi):
        if 0 <= 52 - k + j < 52:
            m[52 - k + j] = u[52 - k + j]
    for i in range(0, 52 - k):
        m[i] = u[i]
    return mk(tuple(m) + bits(k - n + 1023, 11) + (0,))


def flt(x, n):
    return f2i(x / 2.0 ** n)


def expect(n, fx):
    return fbin("Mul", i2fl(fx, 64, True, 64), f2i(2.0 ** -n), 64) if n else i2fl(fx, 64, True, 64)


def rt(e, scheme, vals, scale, key, what, want, opt=None, prec=None):
    """want(i, got) -> ok"""

    def go():
        ok, b = encode(e, lebytes(vals), config(e, scheme, scale), opt)
        if not e.expect(ok == 1, key + ":encode", "%s: encoding %s fails" % (scheme, what)):
            return
        d = decode(e, b)
        if not e.expect(d is not None, key + ":open", "%s: the file of %s is refused" % (scheme, what)):
            return
        if prec is not None:
            e.call("dec_precision", d, prec)
        ok, o = written(e.call("dec_materialize", d, mem(e, []), NONE, NONE))
        if e.expect(ok == 1 and len(o) == 8 * len(vals), key + ":count", "%s: %s decodes to %d bytes" % (scheme, what, len(o))):
            for i in range(len(vals)):
                g = from_bytes(o[8 * i: 8 * i + 8])
                e.expect(want(i, g), key + ":value", lambda: "%s: %s: value %d is read back as %s" % (scheme, what, i, describe(g)))

    for _ in e.explore(go, key=key):
        pass


NARG = {"fmul": 2, "fdiv": 2, "fadd": 2, "fsub": 2, "s2f": 1, "i2f": 1, "f2i": 1, "fround": 1, "ftrunc": 1, "ffloor": 1, "fceil": 1}


def describe(x, d=0):
    if type(x) is Term and x.op == "const":
        return repr(x.args)
    if type(x) is Term and x.op in NARG and d < 5:
        return "%s(%s)" % (x.op, ", ".join(describe(TLIST[i], d + 1) for i in x.args[: NARG[x.op]]))
    return show(x)


def sets(sc, L):
    """chunks whose widest difference has L bits"""
    n = NB[sc]
    k = max(L, n) + 2
    if k > 51:
        return
    hi = flt(2 ** k + (1 << L) - 1, n)
    lo = flt(2 ** k, n)
    x = at("x", k, n, 0, L)
    y = at("y", k, n, 0, L)
    mid = flt(2 ** k + ((0x5555555555 & ((1 << L) - 1))), n)
    if L == 0:
        yield [lo, x], [0, 1]
        return
    yield [lo, hi, x], [0, 1, 2]
    if L > 1:
        x, y = at("x", k, n, 0, L, True), at("y", k, n, 0, L, True)
        yield [x, lo, hi, mid], [0, 1, 2, 3]
        yield [hi, y, lo, x, mid], [0, 1, 2, 3, 4]
    # negative base -2^j; unknown positive values below 2^j
    j = L - 1
    if j >= 1 and j <= 50 and n <= 60:
        top = j - 1
        neg = f2i(-(2.0 ** j) / 2.0 ** n)
        z = at("z", top, n, 0, top)
        yield [z, neg, f2i(-1.0 / 2.0 ** n), f2i((2.0 ** j - 1) / 2.0 ** n)], [0, 1, 2, 3]


def s_buff(e, sc, L):
    n = NB[sc]
    for vals, idx in sets(sc, L):
        rt(e, "buff", vals, sc, "buff", "values whose fixed-point differences need %d bits (%d fraction bits)" % (L, n),
           lambda i, g: same(g, expect(n, fixed(vals[i], n)), 64))
    if L in (3, 8, 13) and sc != 1:
            k = max(L, n) + 2
            lo, hi, x = flt(2 ** k, n), flt(2 ** k + (1 << L) - 1, n), at("x", k, n, 0, L)
            vals = [lo, x, lo, hi, x]
            rt(e, "buff", vals, sc, "buff", "several chunks of values whose differences need %d bits (%d fraction bits)" % (L, n),
               lambda i, g: same(g, expect(n, fixed(vals[i], n)), 64), ("count", 2))


def s_bufflong(e, L, cnt, opt):
    sc, n = 100, 8
    k = max(L, n) + 2
    lo, hi = flt(2 ** k, n), flt(2 ** k + (1 << L) - 1, n)
    vals = []
    for i in range(cnt):
        if i % 10 < 2:
            vals.append((lo, hi)[i % 10])
        elif i % 3 or L < 2:
            vals.append(flt(2 ** k + (i * 0x9E3779B1 >> 7) % (1 << L), n))
        else:
            vals.append(at("x%d" % i, k, n, 0, L, True))
    rt(e, "buff", vals, sc, "buff:long", "%d values whose differences need %d bits" % (cnt, L), lambda i, g: same(g, expect(n, fixed(vals[i], n)), 64), opt)


def s_sprlong(e, cnt, opt):
    vals = [((i * i * 7919) % 20011 - 9000) / 100.0 for i in range(cnt)]
    rt(e, "delta_sprintz", [f2i(x) for x in vals], 100, "sprintz:long", "%d values" % cnt, lambda i, g: same(g, f2i(math.floor(abs(vals[i]) * 100.0 + 0.5) * (1 if vals[i] >= 0 else -1) / 100.0), 64), opt)


def s_prec(e, sc, L):
    """a lower precision only drops bits below it"""
    n = NB[sc]
    for vals, idx in sets(sc, L):
        fx = [fixed(v, n) for v in vals]
        lo = min((sx(f, 64) for f in fx if type(f) is int), default=None)
        if lo is None:
            continue
        for p in range(0, 10):
            keep = sorted(NB.values())[p] if p < 10 else n
            drop = max(0, n - keep)

            def want(i, g):
                d = o_sub(fx[i], lo & (1 << 64) - 1, 64)
                db = bits(d, 64)
                return same_any(g, [expect(n, o_add(lo & (1 << 64) - 1, mk((0,) * r + db[r:]), 64)) for r in range(0, drop + 1)], 64)

            rt(e, "buff", vals, sc, "buff:precision", "values with %d fraction bits read at %d decimals" % (n, p), want, None, p)
            if e.tier != "thorough" and p > 4:
                break


def s_const(e):
    for sc in NB:
        n = NB[sc]
        for k in (0, 1, 9):
            a = at("a", k + n, n, 0, 0) if k + n < 52 else None
            if a is None:
                continue
            for cnt in (1, 2, 9):
                rt(e, "buff", [a] * cnt, sc, "buff:constant", "%d equal values" % cnt, lambda i, g: same(g, expect(n, fixed(a, n)), 64))
        for c in (0, 1 << 63, f2i(-3.0), f2i(0.0001)):
            rt(e, "buff", [c, c], sc, "buff:constant", "equal values", lambda i, g: same(g, f2i(sx(fixed(c, n), 64) / 2.0 ** n), 64))


def quant(v, scale):
    return term("f2i", (vkey(term("fround", (vkey(fbin("Mul", v, f2i(float(scale)), 64)),), 64)), 64, True), 64)


def spr(g, v, scale):
    """is g == round(v*scale) as f64 / scale?"""
    if spr_proved(g, v, scale):
        return True
    return same(g, fbin("Div", i2fl(quant(v, scale), 64, True, 64), f2i(float(scale)), 64), 64)


def spr_proved(g, v, scale):
    q = quant(v, scale)
    if scale != 1:
        if type(g) is not Term or g.op not in ("fdiv", "fmul"):
            return False
        d = fbin("Div", term("in", "probe", 64), f2i(float(scale)), 64)
        probe = term("in", "probe", 64).id
        rest = [a for a in d.args if a != probe]
        if g.op != d.op or not set(rest) <= set(g.args):
            return False
        g = [a for a in g.args if a not in rest]
        if len(g) != 1:
            return False
        g = TLIST[g[0]]
    if type(g) is not Term or g.op not in ("s2f", "i2f"):
        return False
    x = unbv(TLIST[g.args[0]])
    if g.op == "i2f" and norm_bit(bits(x, 64)[63]) != 0:
        return False
    return eqint(x, q)


def s_sprintz(e, scale):
    for n in (1, 2, 3) if scale == 100 else (1, 2):
        vs = [f64("v%d" % i) for i in range(n)]
        rt(e, "delta_sprintz", vs, scale, "sprintz", "%d values" % n, lambda i, g: spr(g, vs[i], scale))
    vs = [f64("v%d" % i) for i in range(2)]
    rt(e, "delta_sprintz", [vs[0], vs[0], vs[1]], scale, "sprintz", "two equal values and another", lambda i, g: spr(g, [vs[0], vs[0], vs[1]][i], scale))


def s_spruns(e):
    v = f64("v")
    for n in (1, 2, 8, 17):
        rt(e, "delta_sprintz", [v] * n, 10, "sprintz:run", "%d equal values" % n, lambda i, g: spr(g, v, 10))
        rt(e, "delta_sprintz", [v] * n, 10, "sprintz:run", "%d equal values in chunks of 3" % n, lambda i, g: spr(g, v, 10), ("count", 3))


def post(e, stats, und):
    if stats.get("obligations", 0) < 2000 and not und:
        yield "floor", "only %d obligations" % stats.get("obligations", 0)
