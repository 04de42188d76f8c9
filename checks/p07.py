"""Queries select exactly what the mask, the predicate and the chunk say.  A file of every scheme with values whose bits are
unknown is opened; materialize, filter, filter_materialize, sum, min and max are analysed with an unknown mask, an unknown
predicate constant and every choice of chunk, and compared with the meaning of the query on the decoded values."""
from query import *

ASSUMPTIONS = ["up to 5 records in up to 3 chunks; masks: every subset of the records, and records past the end",
               "sums are compared as multisets of summands: the order of floating-point additions is not part of the property",
               "BUFF and Sprintz answer from the compressed form: P10"]
GEN = [s for s in SCHEMES if s not in SCALED]


def preds(x, y):
    yield "== c", ("eq", x)
    yield "!= c", ("ne", x)
    for a in ("incl", "excl"):
        yield ">%s c" % ("=" if a == "incl" else ""), ("range", (a, x), None)
        yield "<%s c" % ("=" if a == "incl" else ""), ("range", None, (a, x))
    yield "unbounded", ("range", None, None)


def both(x, y):
    for a in ("incl", "excl"):
        for b in ("incl", "excl"):
            yield "in %s-%s" % (a, b), ("range", (a, x), (b, y))


def scenarios(e):
    r = []
    for s in GEN:
        r.append((s + "/mask", "mask", s))
        r.append((s + "/chunk", "chunk", s))
        r.append((s + "/predicate", "predicate", s))
    for k in ("filter", "filter_materialize"):
        for i in range(7):
            r.append(("unknown/%s/%d" % (k, i), "unknown", k, i))
        for i in range(4):
            r.append(("unknown/%s/both/%d" % (k, i), "range", k, i))
    for k in ("sum", "min", "max", "materialize"):
        r.append(("unknown/" + k, "agg", k))
    for k in KINDS:
        r.append(("reader/" + k, "reader", k))
    r.append(("eval", "eval"))
    for s in GEN:
        r.append((s + "/long", "long", s))
    for s in SCHEMES:
        r.append((s + "/offset", "offset", s))
    return r


def run(e, sc):
    globals()["s_" + sc[1]](e, *sc[2:])


def file_of(e, s, vals, opt):
    ok, b = encode(e, lebytes(vals), config(e, s), opt)
    if ok != 1:
        raise Undecided("encoding failed")
    d = decode(e, b)
    if d is None:
        raise Undecided("file refused")
    # the values the file holds: what a plain read gives (its correctness is P01-P03)
    ok, o = written(e.call("dec_materialize", d, mem(e, []), NONE, NONE))
    if ok != 1 or len(o) != 8 * len(vals):
        raise Undecided("file not readable")
    return b, [from_bytes(o[8 * i: 8 * i + 8]) for i in range(len(vals))]


def chunks(n, per):
    return [range(i, min(i + per, n)) for i in range(0, n, per)]


def q(e, s, vals, per, kind, p, mask, chunk, what, key, reader=False):
    def go():
        b, dv = file_of(e, s, vals, ("count", per))
        d = decode(e, b)
        n = len(vals)
        cs = chunks(n, per)
        rng = range(n) if chunk is None else cs[chunk] if chunk < len(cs) else []
        ans = (ask_chunk if reader else ask)(e, d, kind, p, mask, chunk)
        judge(e, key, "(%s: %s)" % (s, what), ans, kind, p, dv, mask, rng)

    for _ in e.explore(go, key=key + ":" + kind):
        pass


def s_mask(e, s):
    vals = sample(s)
    p = ("range", ("incl", f2i(0.5)), None)
    for kind in ("materialize", "sum"):
        q(e, s, vals, 2, kind, p, unknown_mask(5), None, "unknown mask", "mask")
    for kind in ("min", "max"):
        for m in ({1: 1, 2: 1}, {0: 1}, {4: 1}, {}, {3: 1, 9: 1}):
            q(e, s, vals, 2, kind, p, m, None, "mask %s" % sorted(m), "mask")
    for kind in KINDS:
        q(e, s, vals, 2, kind, p, {0: 1, 3: 1, 7: 1}, None, "mask reaching past the end", "mask")
        q(e, s, vals, 2, kind, p, {}, None, "empty mask", "mask")


def s_chunk(e, s):
    vals = sample(s)
    p = ("range", ("incl", f2i(0.5)), None)
    for kind in KINDS:
        for ch in (None, 0, 1, 2, 3):
            q(e, s, vals, 2, kind, p, None, ch, "chunk %s" % ch, "chunk")
            q(e, s, vals, 2, kind, p, {0: 1, 2: 1, 4: 1}, ch, "chunk %s, mask" % ch, "chunk")


def s_predicate(e, s):
    vals = sample(s)
    c = vals[1]
    for nm, p in list(preds(c, None)) + list(both(f2i(-1.0), c)):
        q(e, s, vals, 2, "filter", p, {0: 1, 1: 1, 3: 1}, None, nm, "predicate")
        q(e, s, vals[:3], 2, "filter_materialize", p, None, None, nm, "predicate")


def s_unknown(e, kind, i):
    vals = [f64("v%d" % j) for j in range(3)]
    nm, p = list(preds(f64("c"), None))[i]
    for per in (1, 2, 3):
        q(e, "uncompressed", vals, per, kind, p, unknown_mask(3), None, nm, "unknown")
    q(e, "uncompressed", vals, 2, kind, p, None, 1, nm + ", chunk 1", "unknown")
    q(e, "uncompressed", vals, 2, kind, p, None, None, nm + ", no mask", "unknown")


def s_range(e, kind, i):
    vals = [f64("v%d" % j) for j in range(2)]
    nm, p = list(both(f64("a"), f64("b")))[i]
    for per in (1, 2):
        q(e, "uncompressed", vals, per, kind, p, unknown_mask(2), None, nm, "unknown")


def s_agg(e, kind):
    vals = [f64("v%d" % j) for j in range(3)]
    for per in (1, 2, 3):
        q(e, "uncompressed", vals, per, kind, None, unknown_mask(3), None, "unknown mask", "unknown")
        for ch in (None, 0, 1):
            q(e, "uncompressed", vals, per, kind, None, None, ch, "no mask, chunk %s" % ch, "unknown")
    if kind in ("sum", "materialize"):
        vals = [f64("v%d" % j) for j in range(9)]
        for per in (4, 9):
            q(e, "uncompressed", vals, per, kind, None, None, None, "9 values", "unknown")
            q(e, "uncompressed", vals, per, kind, None, {j: 1 for j in (0, 3, 4, 7, 8)}, None, "9 values", "unknown")


def s_reader(e, kind):
    vals = [f64("v%d" % j) for j in range(3)]
    for ch in (0, 1):
        q(e, "uncompressed", vals, 2, kind, ("range", ("incl", f64("c")), None), unknown_mask(3), ch, "chunk reader", "reader", True)
        q(e, "uncompressed", vals, 2, kind, ("eq", f64("c")), None, ch, "chunk reader", "reader", True)


def shape(i, n=0):
    """a number with unknown mantissa (of an unknown) and known sign and exponent"""
    u = bits(f64("m%d" % i), 64)
    return mk(tuple(u[:52]) + tuple(bits((1024, 1019, 1030, 1021, 1023)[i % 5], 11)) + ((i // 2) & 1,))


def s_long(e, s):
    """hundreds of records: the answers at every position"""
    n = 300
    if s in PLAIN:
        vals = [shape(i // (1 + i % 3)) if i % 4 == 0 else f2i((i * 37 % 101 - 50) / 4.0) for i in range(n)]
    else:
        vals = [f2i((i * 37 % 101 - 50) / 4.0) for i in range(n)]
    p = ("range", ("excl", f2i(1.25)), ("incl", f2i(6.25)))
    clean = [f2i((i * 37 % 101 - 50) / 4.0) for i in range(n)]
    for per in (100, 129) if s in PLAIN or e.tier == "thorough" else (129,):
        for kind in ("materialize", "filter", "filter_materialize", "min", "max"):
            v = clean if kind in ("min", "max") or s == "rle" else vals
            # shape() values may straddle the bounds: the predicate is decided by their exponents only outside [1, 8)
            pp = ("range", ("incl", f2i(1.0)), ("excl", f2i(2.0))) if v is vals else p
            for mask in (None, {i: 1 for i in range(0, 320, 3)}, {i: 1 for i in range(n) if i % 64 in (0, 31, 63)}):
                q(e, s, v, per, kind, pp, mask, None, "%d records in chunks of %d" % (n, per), "long")
    w = [f2i(float(i % 17)) for i in range(n)]
    for mask in (None, {i: 1 for i in range(0, 320, 3)}):
        q(e, s, w, 129, "sum", p, mask, None, "%d records" % n, "long")


def renumber(e, d, b, first):
    """the footer rewritten: the first chunk claims `first` records, so the second one starts there"""
    fo = e.call("dec_footer_offset", d)
    w = lambda v: list(v.to_bytes(8, "little"))
    if type(fo) is not int or from_bytes(b[fo: fo + 8]) != 5 or from_bytes(b[fo + 8: fo + 16]) != 3 or from_bytes(b[fo + 40: fo + 48]) != 2:
        raise Undecided("another footer layout")
    b = list(b)
    b[fo: fo + 8] = w(first + 3)
    b[fo + 40: fo + 48] = w(first)
    b[fo + 56: fo + 64] = w(first + 2)
    return b


def s_offset(e, s):
    """a chunk that starts at a large record number (the footer of a small file is rewritten to say so)"""
    vals = [f2i(x) for x in (1.0, 2.5, 3.0, -4.0, 7.25)] if s in SCALED or s not in PLAIN else [f2i(1.0), f2i(2.5), shape(0), shape(2), f2i(-3.0)]
    p = ("range", ("incl", f2i(2.0)), None)
    for first in (255, 256, 65534, 65536, 70001, 1 << 24, (1 << 31) - 1):
        for kind in KINDS:
            for m in (None, "mask"):
                def go():
                    ok, b = encode(e, lebytes(vals), config(e, s, SCALED.get(s)), ("count", 2))
                    if ok != 1:
                        raise Undecided("encoding failed")
                    d0 = decode(e, b)
                    ok, o = written(e.call("dec_materialize", d0, mem(e, []), NONE, NONE))
                    if ok != 1 or len(o) != 40:
                        raise Undecided("file not readable")
                    dv = [from_bytes(o[8 * i: 8 * i + 8]) for i in range(5)]
                    b = renumber(e, d0, b, first)
                    d = decode(e, b)
                    if not e.expect(d is not None, "offset:open", "%s: a file whose second chunk starts at record %d is refused" % (s, first)):
                        return
                    mask = None if m is None else {1: 1, first: 1, first + 2: 1} if first + 2 != 1 else None
                    ans = ask(e, d, kind, p, mask, 1)
                    if ans[0] == "map" and ans[1] is not None:
                        if not e.expect(all(k >= first for k in ans[1]), "offset:" + kind, lambda: "%s of chunk 1 (%s), which starts at record %d, selects %s" % (kind, s, first, sorted(ans[1]))):
                            return
                        ans = ("map", {k - first: x for k, x in ans[1].items()})
                    mask = None if mask is None else {k - first: x for k, x in mask.items() if k >= first}
                    judge(e, "offset", "(%s: chunk 1 starting at record %d)" % (s, first), ans, kind, p, dv[2:4], mask, range(2), s in SCALED)

                for _ in e.explore(go, key="offset:" + kind):
                    pass


def s_eval(e):
    v = f64("v")
    for nm, p in list(preds(f64("c"), None)) + list(both(f64("a"), f64("b"))):
        def go():
            r = e.call("pr_eval", cell(pred(e, p)), v)
            r = choose_bit(bits(r, 1)[0], "predicate")
            e.expect(r == holds(p, v), "eval", "the predicate %s gives %d for an unknown value" % (nm, r))

        for _ in e.explore(go, key="eval"):
            pass


def post(e, stats, und):
    if stats.get("obligations", 0) < 3000 and not und:
        yield "floor", "only %d obligations" % stats.get("obligations", 0)
