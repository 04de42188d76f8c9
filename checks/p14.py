"""Histories of queries: every ordered pair of operations on one open file, and on one chunk reader, against the second
operation alone on a fresh one."""
import witness
from query import *

ASSUMPTIONS = ["histories of two operations (three with a precision switch) on files of 5 records in 3 chunks",
               "an operation that reports an error ends the history"]
P = ("range", ("incl", f2i(2.0)), None)
Q = ("eq", f2i(-3.5))
OPS = ([(k, P, m) for k in KINDS for m in (None, "some")] + [("filter", Q, None), ("filter_materialize", Q, "some")])


def vals_of(s):
    if s in PLAIN:
        u = bits(f64("x"), 64)
        return [f2i(1.0), mk(tuple(u[:52]) + tuple(bits(1025, 11)) + (0,)), f2i(-3.5), f2i(-3.5), mk(tuple(u[:52]) + tuple(bits(1020, 11)) + (1,))]
    return sample(s)


def scenarios(e):
    r = []
    for s in SCHEMES:
        for i in range(len(OPS)):
            r.append(("file/%s/%d" % (s, i), "file", s, i))
            r.append(("chunk/%s/%d" % (s, i), "chunk", s, i))
        r.append(("scan/%s" % s, "scan", s))
    for s in SCALED:
        for i in range(len(OPS)):
            r.append(("precision/%s/%d" % (s, i), "precision", s, i))
            r.append(("raise/%s/%d" % (s, i), "raise", s, i))
        r.append(("raise/%s/decompress" % s, "raise", s, -1))
    return r


def run(e, sc):
    globals()["s_" + sc[1]](e, *sc[2:])


def name(o):
    return o[0] + ("" if o[1] is P or o[0] not in ("filter", "filter_materialize") else " (equality)") + (" (masked)" if o[2] else "")


def mask_of(o):
    return None if o[2] is None else {0: 1, 2: 1, 3: 1}


def on_file(e, d, o):
    if o[0] == "knn":
        r = e.call("dec_knn1", d, slicep([f2i(1.0), f2i(3.0)]))
        return ("pair", r.f[0] if r.v == 1 else None)
    return rounded(o, ask(e, d, o[0], o[1], mask_of(o), None))


def rounded(o, a):
    """a sum may be formed in another order or in integers: it is the same up to rounding"""
    return ("sum",) + tuple(a[1:]) if o[0] in ("sum", "distance", "dot") else a


def near(a, b):
    return a == b or witness.agree(a, b, 64, tol=1e-9) is not False


def on_chunk(e, cr, o):
    return rounded(o, on_chunk1(e, cr, o))


def on_chunk1(e, cr, o):
    m = NONE if o[2] is None else some(cell(bmv(mask_of(o))))
    kind = o[0]
    if kind in ("distance", "dot"):
        r = e.call("cr_" + kind, cr, 0, slicep([f2i(1.0), f2i(3.0)]))
        return ("num", r.f[0] if r.v == 1 else None)
    if kind == "iter":
        r = e.call("cr_iter", cr)
        return ("vec", unbox(r.f[0]) if r.v == 1 else None)
    if kind == "decompress":
        r = e.call("cr_decompress", cr)
        return ("vec", unbox(r.f[0]) if r.v == 1 else None)
    if kind == "materialize":
        return ("bytes",) + tuple(written(e.call("cr_materialize", cr, mem(e, []), m)))
    if kind == "filter_materialize":
        return ("bytes",) + tuple(written(e.call("cr_filter_materialize", cr, mem(e, []), pred(e, o[1]), m)))
    if kind == "filter":
        r = e.call("cr_filter", cr, pred(e, o[1]), m)
        return ("map", models.bm(r.f[0]).d if r.v == 1 else None)
    r = e.call("cr_" + kind, cr, m)
    return ("num", r.f[0] if r.v == 1 else None)


def failed(a):
    return a[1] == 0 if a[0] == "bytes" else a[1] is None


def agree(e, a, b, key, what):
    if failed(b):
        return
    if not e.expect(not failed(a), key + ":error", what + " reports an error, on its own it does not"):
        return
    if a[0] == "bytes":
        if e.expect(len(a[2]) == len(b[2]), key, lambda: "%s writes %d bytes instead of %d" % (what, len(a[2]), len(b[2]))):
            e.expect(same_all(list(zip(a[2], b[2])), 8) if a[2] else True, key, what + " writes other bytes than on its own")
    elif a[0] == "map":
        e.expect(sorted(k for k, v in a[1].items() if v == 1) == sorted(k for k, v in b[1].items() if v == 1) and not [v for v in list(a[1].values()) + list(b[1].values()) if v not in (0, 1)] or a[1] == b[1],
                 key, lambda: "%s selects %s instead of %s" % (what, sorted(a[1]), sorted(b[1])))
    elif a[0] == "vec":
        if e.expect(len(a[1]) == len(b[1]), key, lambda: "%s gives %d values instead of %d" % (what, len(a[1]), len(b[1]))):
            e.expect(all(same(x, y, 64) for x, y in zip(a[1], b[1])), key, what + " gives other values than on its own")
    elif a[0] == "pair":
        e.expect(same(a[1].f[0], b[1].f[0], 64) and near(a[1].f[1], b[1].f[1]), key, what + " gives another vector than on its own")
    elif a[0] == "sum":
        e.expect(near(a[1], b[1]), key, lambda: "%s gives %s instead of %s" % (what, show(a[1]), show(b[1])))
    else:
        e.expect(same(a[1], b[1], 64), key, lambda: "%s gives %s instead of %s" % (what, show(a[1]), show(b[1])))


def the_file(e, s):
    ok, b = encode(e, lebytes(vals_of(s)), config(e, s, SCALED.get(s)), ("count", 2))
    if ok != 1:
        raise Undecided("encoding failed")
    return b


def s_file(e, s, i):
    def go():
        b = the_file(e, s)
        for o in OPS + [("knn", P, None)]:
            d = decode(e, b)
            if failed(on_file(e, d, OPS[i])):
                continue
            agree(e, on_file(e, d, o), on_file(e, decode(e, b), o), "file", "%s: %s after %s" % (s, name(o), name(OPS[i])))
        d = decode(e, b)
        on_file(e, d, ("knn", P, None))
        agree(e, on_file(e, d, OPS[i]), on_file(e, decode(e, b), OPS[i]), "file", "%s: %s after knn1" % (s, name(OPS[i])))

    for _ in e.explore(go, key="file"):
        pass


SCANS = [("decompress", P, None), ("distance", P, None), ("dot", P, None)]


def opened(e, b):
    r = e.call("dec_chunk", decode(e, b), 1)
    if r.v != 1:
        raise Undecided("chunk reader")
    return cell(r.f[0])


def pairs(e, s, first, second):
    def go():
        b = the_file(e, s)
        for o in second:
            cr = opened(e, b)
            if failed(on_chunk(e, cr, first)):
                continue
            agree(e, on_chunk(e, cr, o), on_chunk(e, opened(e, b), o), "chunk", "chunk reader of %s: %s after %s" % (s, name(o), name(first)))

    for _ in e.explore(go, key="chunk"):
        pass


def s_chunk(e, s, i):
    pairs(e, s, OPS[i], OPS + SCANS)


def s_scan(e, s):
    for o in SCANS:
        pairs(e, s, o, OPS + SCANS)


def s_precision(e, s, i):
    def go():
        b = the_file(e, s)
        for o in OPS:
            d = decode(e, b)
            if failed(on_file(e, d, OPS[i])):
                continue
            e.call("dec_precision", d, 1)
            f = decode(e, b)
            e.call("dec_precision", f, 1)
            agree(e, on_file(e, d, o), on_file(e, f, o), "precision", "%s: %s at another precision after %s" % (s, name(o), name(OPS[i])))

    for _ in e.explore(go, key="precision"):
        pass


def s_raise(e, s, i):
    first = OPS[i] if i >= 0 else SCANS[0]

    def go():
        ok, b = encode(e, lebytes([f2i(x) for x in (1.0, 2.5, 9.123456, -2.456789, 3.000001)]), config(e, s, 1000000), ("count", 2))
        if ok != 1:
            raise Undecided("encoding failed")
        for old, new in ((None, 1), (0, 2), (2, 3), (0, 1)):
            for o in [SCANS[0], OPS[0], ("sum", P, None), ("filter", Q, None), ("max", P, "some")]:
                cr = opened(e, b)
                if old is not None:
                    e.call("cr_with_precision", cr, old)
                if failed(on_chunk(e, cr, first)):
                    continue
                e.call("cr_with_precision", cr, new)
                f = opened(e, b)
                e.call("cr_with_precision", f, new)
                agree(e, on_chunk(e, cr, o), on_chunk(e, f, o), "raise", "chunk reader of %s: %s after %s at precision %s and a change to %d" % (s, name(o), name(first), old, new))

    for _ in e.explore(go, key="raise"):
        pass


def post(e, stats, und):
    if stats.get("obligations", 0) < 1000 and not und:
        yield "floor", "only %d obligations" % stats.get("obligations", 0)
