"""Queries answered from the compressed form (BUFF, delta Sprintz) agree with the same query on the decoded values.  Chunks of
every width are analysed with unknown bits in some values or in the predicate constant, with unknown masks, at record offsets
that are and are not multiples of 8, and long enough for the 32-wide vector code; the oracle compares the quantized integers."""
from query import *
from p06 import NB, at, flt, expect

ASSUMPTIONS = ["predicate constants are values the scheme represents exactly at the file's scale",
               "up to 4 short chunks, or one short chunk and one of up to 75 records",
               "sums whose integer total stays below 2^53"]
U64 = (1 << 64) - 1
BOTH = [("range", ("incl", 0), ("incl", 1)), ("range", ("excl", 0), ("incl", 1)), ("range", ("incl", 0), ("excl", 1)), ("range", ("excl", 0), ("excl", 1))]
ONE = [("eq", 0), ("ne", 0), ("range", ("incl", 0), None), ("range", ("excl", 0), None), ("range", None, ("incl", 0)), ("range", None, ("excl", 0))]
WIDTHS = [1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 20, 24, 27]


def scenarios(e):
    r = []
    ws = WIDTHS if e.tier != "thorough" else range(1, 42)
    for L in ws:
        for sc in (1, 100, 10000) if e.tier != "thorough" else sorted(NB)[:8]:
            if e.tier == "thorough" or sc == 100 or L in (5, 8, 17):
                for i in range(len(ONE)):
                    r.append(("buff/%d/%d/%s" % (sc, L, name(ONE[i])), "buff", sc, L, i))
                r.append(("buff/%d/%d/ranges" % (sc, L), "ranges", sc, L))
                r.append(("buff/%d/%d/aggregates" % (sc, L), "agg", sc, L))
    for L in (4, 8, 13, 18) if e.tier != "thorough" else range(1, 27):
        for i in range(len(ONE)):
            r.append(("buff/long/%d/%s" % (L, name(ONE[i])), "long", L, i))
        r.append(("buff/long/%d/aggregates" % L, "longagg", L))
    for k in KINDS:
        r.append(("buff/constant/" + k, "const", k))
        r.append(("buff/negative/" + k, "negative", k))
        r.append(("sprintz/" + k, "sprintz", k))
        r.append(("sprintz/width/" + k, "spwidth", k))
        r.append(("reader/" + k, "reader", k))
    return r


def run(e, sc):
    globals()["s_" + sc[1]](e, *sc[2:])


def name(p):
    if p[0] != "range":
        return p[0]
    return "-".join("none" if b is None else b[0] for b in p[1:])


def withc(p, *cs):
    if p[0] != "range":
        return (p[0], cs[p[1]])
    return ("range",) + tuple(None if b is None else (b[0], cs[b[1]]) for b in p[1:])


def qcmp(a, b, op):
    """order of two quantized (signed) integers"""
    if type(a) is int and type(b) is int:
        a, b = sx(a, 64), sx(b, 64)
        return {"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b, "Eq": a == b}[op]
    a, b = bits(norm(a, 64), 64), bits(norm(b, 64), 64)
    if op == "Eq":
        return not any(choose_bit(bxor(x, y), "equal") for x, y in zip(a, b))
    i = 63
    f = lambda t: t[:63] + (bxor(t[63], 1),)
    return bool(interp_bitsplit(f(a), f(b), i, op))


def interp_bitsplit(a, b, i, op):
    import interp
    return interp._bitsplit(a, b, i, op)


def qholds(p, v, cs):
    """predicate over quantized integers; cs: constants in quantized form"""
    if p[0] == "eq":
        return qcmp(v, cs[p[1]], "Eq")
    if p[0] == "ne":
        return not qcmp(v, cs[p[1]], "Eq")
    a, b = p[1], p[2]
    if a is not None and not qcmp(v, cs[a[1]], "Ge" if a[0] == "incl" else "Gt"):
        return False
    if b is not None and not qcmp(v, cs[b[1]], "Le" if b[0] == "incl" else "Lt"):
        return False
    return True


def mask_of(spec, n):
    return unknown_mask(n) if spec == "?" else spec


def go(e, scheme, scale, vals, qs, val, kind, p, cf, cq, mask, per, what, chunk=None, reader=False):
    """vals: floats given; qs: their quantized integers; val(q): the float read back; cf/cq: constants as floats/quantized"""
    key = scheme

    def f():
        ok, b = encode(e, lebytes(vals), config(e, scheme, scale), ("count", per))
        if ok != 1:
            raise Undecided("encoding failed")
        d = decode(e, b)
        if d is None:
            raise Undecided("file refused")
        n = len(vals)
        m = mask_of(mask, n)
        pp = withc(p, *cf) if p is not None else None
        ans = (ask_chunk if reader else ask)(e, d, kind, pp, m, chunk)
        rng = range(n) if chunk is None else range(chunk * per, min(n, chunk * per + per))
        k = "%s:%s" % (key, kind)
        w = "%s on %s (%s)" % (kind, scheme, what)
        if ans is None or ans[0] == "num" and ans[1] is None or ans[0] == "map" and ans[1] is None or ans[0] == "bytes" and ans[1] != 1:
            e.expect(False, k + ":error", "%s reports an error" % w)
            return
        sel = selected(n, m, rng)
        if kind in ("filter", "filter_materialize"):
            sel = [i for i in sel if qholds(p, qs[i], cq)]
        if kind == "filter":
            got = [i for i in sorted(ans[1]) if choose_bit(ans[1][i], "result member %d" % i)]
            e.expect(got == sel, k, lambda: "%s selects records %s instead of %s" % (w, got, sel))
        elif ans[0] == "bytes":
            o = ans[2]
            if e.expect(len(o) == 8 * len(sel), k + ":count", lambda: "%s writes %d bytes for records %s" % (w, len(o), sel)):
                for j, i in enumerate(sel):
                    g = from_bytes(o[8 * j: 8 * j + 8])
                    e.expect(same(g, val(qs[i]), 64), k + ":value", lambda: "%s: output %d is %s, not record %d" % (w, j, show(g), i))
        elif kind == "sum":
            g = norm(ans[1], 64)
            if type(g) is int and all(type(qs[i]) is int for i in sel):
                want = val(sum(sx(qs[i], 64) for i in sel) & U64)
                e.expect(close(g, want), k, lambda: "%s over records %s is %r instead of %r" % (w, sel, i2f(g), i2f(want)))
            else:
                t = 0
                for i in sel:
                    t = o_add(t, qs[i], 64)
                e.expect(same(g, val(t), 64) if sel else close(g, 0), k, lambda: "%s over records %s is %s" % (w, sel, show(g)))
        else:
            if not sel:
                g = norm(ans[1], 64)
                e.expect(type(g) is int and (g == (INF if kind == "min" else NINF) or reader and isnan(g, 64)), k + ":empty", lambda: "%s of no values is %s" % (w, show(g)))
                return
            best = sel[0]
            for i in sel[1:]:
                if qcmp(qs[i], qs[best], "Lt" if kind == "min" else "Gt"):
                    best = i
            hit = [i for i in sel if proves(ans[1], val(qs[i]), 64)]
            e.expect(qcmp(qs[hit[0]], qs[best], "Eq") if hit else same(ans[1], val(qs[best]), 64), k, lambda: "%s of records %s is %s, not record %d" % (w, sel, show(ans[1]), best))

    for _ in e.explore(f, key=key + ":" + kind):
        pass


def close(a, b):
    if type(a) is not int or type(b) is not int:
        return False
    a, b = i2f(a), i2f(b)
    return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def sub(L):
    """bit positions left unknown: the ends of the value and of its bytes"""
    s = {0, L - 1, L - 8, L - 9}
    return [j for j in sorted(s) if 0 <= j < L]


def part(nm, k, n, L, fill, unk=None):
    """2^k + an L-bit number with unknown bits at unk (others from fill), in fixed point with n fraction bits"""
    u = bits(f64(nm), 64)
    unk = sub(L) if unk is None else unk
    m = [0] * 52
    fx = [0] * 64
    fx[k] = 1
    for j in range(L):
        x = u[j] if j in unk else (fill >> j) & 1
        fx[j] = x
        m[52 - k + j] = x
    return mk(tuple(m) + bits(k - n + 1023, 11) + (0,)), mk(tuple(fx))


FILL = 0xA5C3965A3C

def base(sc, L):
    n = NB[sc]
    k = max(L, n) + 2
    return n, k


def pair(x, n):
    """(float bits, quantized)"""
    return f2i(x / 2.0 ** n), x & U64


def s_buff(e, sc, L, i):
    n, k = base(sc, L)
    p = ONE[i]
    lo, hi = 2 ** k, 2 ** k + (1 << L) - 1
    mid = 2 ** k + (FILL & ((1 << L) - 1))
    val = lambda q: expect(n, q)
    x, fx = part("x", k, n, L, FILL)
    vs = [pair(lo, n), (x, fx), pair(hi, n), pair(mid, n), pair(lo, n)]
    vals, qs = [v for v, _ in vs], [q for _, q in vs]
    what = "%d-bit differences, %d fraction bits, %s" % (L, n, name(p))
    consts = [lo - 1, lo, mid - 1, mid, mid + 1, hi, hi + 1, lo + (1 << L) + (mid - lo), hi * 3, -lo]
    if e.tier == "thorough":
        consts += [lo + 1, lo + (1 << 8 * ((L + 7) // 8)), 0]
    for c in sorted(set(consts)):
        cf, cq = pair(c, n)
        go(e, "buff", sc, vals, qs, val, "filter", p, [cf], [cq], None, 5, what)
        if c % 3 or c in (lo, mid) or e.tier == "thorough":
            go(e, "buff", sc, vals, qs, val, "filter", p, [cf], [cq], {1: 1, 3: 1, 9: 1}, 3, what + ", mask")
    # unknown constant, known values
    c, cq = part("c", k, n, L, FILL)
    vals, qs = [pair(v, n)[0] for v in (lo, mid, hi, lo, mid)], [v for v in (lo, mid, hi, lo, mid)]
    go(e, "buff", sc, vals, qs, val, "filter", p, [c], [cq], None, 5, what + ", unknown constant")
    go(e, "buff", sc, vals, qs, val, "filter", p, [c], [cq], {0: 1, 2: 1, 3: 1}, 3, what + ", unknown constant, mask")
    go(e, "buff", sc, vals, qs, val, "filter_materialize", p, [c], [cq], {0: 1, 1: 1, 4: 1}, 4, what + ", unknown constant")


def s_ranges(e, sc, L):
    n, k = base(sc, L)
    lo, hi = 2 ** k, 2 ** k + (1 << L) - 1
    mid = 2 ** k + (FILL & ((1 << L) - 1))
    val = lambda q: expect(n, q)
    x, fx = part("x", k, n, L, FILL)
    vs = [pair(lo, n), (x, fx), pair(hi, n), pair(mid, n)]
    vals, qs = [v for v, _ in vs], [q for _, q in vs]
    for p in BOTH + [("range", None, None)]:
        for a, b in ((lo, hi), (mid, mid), (lo - 3, mid), (mid, hi * 2), (hi, lo)):
            cf, cq = zip(pair(a, n), pair(b, n))
            what = "%d-bit differences, %d fraction bits, %s" % (L, n, name(p))
            go(e, "buff", sc, vals, qs, val, "filter", p, cf, cq, None, 4, what)
            go(e, "buff", sc, vals, qs, val, "filter", p, cf, cq, {0: 1, 1: 1, 3: 1}, 2, what + ", mask")


def s_agg(e, sc, L):
    n, k = base(sc, L)
    lo, hi = 2 ** k, 2 ** k + (1 << L) - 1
    mid = 2 ** k + (FILL & ((1 << L) - 1))
    val = lambda q: expect(n, q)
    x, fx = part("x", k, n, L, FILL)
    what = "%d-bit differences, %d fraction bits" % (L, n)
    vs = [pair(lo, n), (x, fx), pair(hi, n), pair(mid, n), pair(lo, n)]
    vals, qs = [v for v, _ in vs], [q for _, q in vs]
    for kind in ("min", "max", "sum"):
        for per in (5, 2) if kind != "sum" else ():
            go(e, "buff", sc, vals, qs, val, kind, None, [], [], None, per, what)
            go(e, "buff", sc, vals, qs, val, kind, None, [], [], {1: 1, 3: 1}, per, what + ", mask")
            go(e, "buff", sc, vals, qs, val, kind, None, [], [], {1: 1}, per, what + ", mask")
        cv = [lo, mid, hi, lo + 1, mid, hi]
        go(e, "buff", sc, [pair(v, n)[0] for v in cv], cv, val, kind, None, [], [], "?", 3, what + ", unknown mask")
        for ch in (0, 1, 2):
            if kind == "sum" and ch == 0:
                continue
            go(e, "buff", sc, vals, qs, val, kind, None, [], [], None, 2, what, ch)


def longvals(L, n, k):
    lo, hi = 2 ** k, 2 ** k + (1 << L) - 1
    step = max(1, (1 << L) // 37)
    return [lo + (i * step * 11) % (1 << L) for i in range(78)], lo, hi


def s_long(e, L, i):
    sc = 10
    n, k = base(sc, L)
    ints, lo, hi = longvals(L, n, k)
    val = lambda q: expect(n, q)
    p = ONE[i]
    mid = ints[20]
    what = "%d-bit differences, long chunk, %s" % (L, name(p))
    for per, cnt in ((75, 75), (64, 64), (3, 0), (37, 74)):
        if per == 3:
            continue
        for pos in ((1, 17, 40) if per != 37 else (38, 50, 73)):
            vals = [pair(v, n)[0] for v in ints[:cnt]]
            qs = list(ints[:cnt])
            vals[0], qs[0] = pair(lo, n)
            vals[per // 2], qs[per // 2] = pair(hi, n)
            if cnt > per:
                vals[per], qs[per] = pair(lo, n)
                vals[cnt - 2], qs[cnt - 2] = pair(hi, n)
            vals[pos], qs[pos] = part("x", k, n, L, mid, [j for j in (0, L - 1, L - 8) if 0 <= j < L])
            for c in {mid, mid ^ (1 << (L - 1)) if L > 1 else mid, hi}:
                cf, cq = pair(c, n)
                go(e, "buff", sc, vals, qs, val, "filter", p, [cf], [cq], None, per, what)
                m = {j: 1 for j in range(cnt) if j % 3 != 1 or j == pos}
                go(e, "buff", sc, vals, qs, val, "filter", p, [cf], [cq], m, per, what + ", dense mask")
                m = {pos: 1, (pos + 1) % cnt: 1}
                go(e, "buff", sc, vals, qs, val, "filter", p, [cf], [cq], m, per, what + ", sparse mask")


def s_longagg(e, L):
    sc = 10
    n, k = base(sc, L)
    ints, lo, hi = longvals(L, n, k)
    val = lambda q: expect(n, q)
    for kind in ("min", "max", "sum"):
        for per in (75, 37):
            vals, qs = [pair(v, n)[0] for v in ints[:74]], list(ints[:74])
            for m in (None, {j: 1 for j in range(74) if j % 3 == 1}, {5: 1, 50: 1}):
                go(e, "buff", sc, vals, qs, val, kind, None, [], [], m, per, "%d-bit differences, long chunk" % L)


def s_const(e, kind):
    sc, n = 100, NB[100]
    val = lambda q: expect(n, q)
    for v in (0, -(3 << n), 777):
        cf0, q0 = pair(v, n)
        o, oq = pair(v + 1000, n)
        for vals, qs in (([cf0] * 3, [q0] * 3), ([cf0] * 2 + [o] * 2, [q0] * 2 + [oq] * 2)):
            for p in (ONE if "filter" in kind else [None]):
                for c in (v - 1, v, v + 1, v + 1000) if p else (0,):
                    cf, cq = pair(c, n)
                    for per in (2, 4):
                        go(e, "buff", sc, vals, qs, val, kind, p, [cf], [cq], None, per, "equal values")
                        go(e, "buff", sc, vals, qs, val, kind, p, [cf], [cq], {0: 1, 2: 1}, per, "equal values, mask")
                        if c == v:
                            go(e, "buff", sc, vals[:3], qs[:3], val, kind, p, [cf], [cq], "?", per, "equal values, unknown mask")


def s_negative(e, kind):
    for sc in (1, 100):
        n = NB[sc]
        val = lambda q: expect(n, q)
        for top in (3, 9, 17):
            vals = [-(1 << top), -1, 0, 1, (1 << top) - 5, -(1 << top) + 1]
            vs, qs = [pair(v, n)[0] for v in vals], [v & U64 for v in vals]
            for p in (ONE if "filter" in kind else [None]):
                for c in (-(1 << top) - 1, -(1 << top), -1, 0, 1, (1 << top) - 5, 1 << (top + 1), 1 << (top + 9)) if p else (0,):
                    cf, cq = pair(c, n)
                    go(e, "buff", sc, vs, qs, val, kind, p, [cf], [cq], None, 6, "negative base")
                    go(e, "buff", sc, vs, qs, val, kind, p, [cf], [cq], {0: 1, 2: 1, 5: 1, 8: 1}, 4, "negative base, mask")


# ---------------------------------------------------------------- delta Sprintz
def sval(scale):
    return lambda q: f2i(sx(q, 64) / float(scale)) if type(q) is int else fbin("Div", i2fl(q, 64, True, 64), f2i(float(scale)), 64)


def s_sprintz(e, kind):
    for scale, ints in ((100, [125, 125, -750, 300, 299]), (1, [0, 0, 0]), (10, [-5, 7, 7, 100000, -1]), (1000, [4])):
        vals = [f2i(v / float(scale)) for v in ints]
        qs = [v & U64 for v in ints]
        cells = sorted(set(c for v in ints for c in (v - 1, v, v + 1)) | {10 ** 9, -10 ** 9})
        for p in (ONE if "filter" in kind else [None]):
            for c in cells if p else [0]:
                cf, cq = f2i(c / float(scale)), c & U64
                for m, per in ((None, 2), (None, 9), ({0: 1, 2: 1, 4: 1, 9: 1}, 2), ({}, 2), ({1: 1}, 2)):
                    go(e, "delta_sprintz", scale, vals, qs, sval(scale), kind, p, [cf], [cq], m, per, "values %s / %d" % (ints, scale))
        p = ("range", ("incl", 0), ("excl", 1))
        cs = [min(ints) + 1, max(ints)]
        go(e, "delta_sprintz", scale, vals, qs, sval(scale), kind, p, [f2i(c / float(scale)) for c in cs], [c & U64 for c in cs], "?", 2, "values %s / %d, unknown mask" % (ints, scale))
        for ch in range((len(ints) + 1) // 2):
            go(e, "delta_sprintz", scale, vals, qs, sval(scale), kind, p, [f2i(c / float(scale)) for c in cs], [c & U64 for c in cs], None, 2, "one chunk", ch)


def s_spwidth(e, kind):
    for w in range(0, 40):
        ints = [3, 3 + (1 << w), 3, 3 - (1 << w), 2 + (1 << w)]
        vals, qs = [f2i(float(v)) for v in ints], [v & U64 for v in ints]
        p = ("range", ("excl", 0), ("incl", 1))
        cs = [3, 3 + (1 << w)]
        for m, per in ((None, 5), ({1: 1, 4: 1}, 5), ({1: 1, 4: 1}, 3)):
            go(e, "delta_sprintz", 1, vals, qs, sval(1), kind, p, [f2i(float(c)) for c in cs], cs, m, per, "%d-bit steps" % w)


def s_reader(e, kind):
    for scheme, sc, ints, n in (("buff", 100, [300, 301, 5000, 777, 779], 8), ("delta_sprintz", 100, [300, 301, -50, 777, 779], None)):
        if n is not None:
            val, vals, qs = (lambda q: expect(n, q)), [pair(v, n)[0] for v in ints], [v & U64 for v in ints]
            cf, cq = pair(400, n)
        else:
            val, vals, qs = sval(sc), [f2i(v / float(sc)) for v in ints], [v & U64 for v in ints]
            cf, cq = f2i(4.0), 400
        for p in (ONE if "filter" in kind else [None]):
            for ch in (0, 1, 2):
                for m in (None, "?", {}):
                    go(e, scheme, sc, vals, qs, val, kind, p, [cf], [cq], m, 2, "chunk reader", ch, True)


def post(e, stats, und):
    if stats.get("obligations", 0) < 3000 and not und:
        yield "floor", "only %d obligations" % stats.get("obligations", 0)
