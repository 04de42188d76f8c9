"""Vector queries (nearest vector, matrix product, distances and dot products at an offset) and expressions over several files
are computed from exactly the right records.  Data and targets are unknown; every way in which vectors fall on chunks up to the
sizes given is analysed; the result must be the sum of exactly the products (squared differences) of the paired values, and the
nearest vector must not be farther than any other."""
from query import *
from p07 import file_of, chunks
from interp import fbin, relset

ASSUMPTIONS = ["up to 6 records, vectors of 1 to 5 records, chunks of 1 to 6 records; matrices do not cross chunks (documented precondition)",
               "sums are compared as multisets of summands: the order of floating-point additions is not part of the property",
               "ties between equally near vectors may be resolved either way; a NaN distance is never nearest"]
OPS = ["Add", "Sub", "Mul", "Div"]
AGG = ["none", "sum", "min", "max"]


def scenarios(e):
    r = []
    for n in range(1, 7):
        for k in range(1, 6):
            for per in range(1, n + 1):
                if e.tier == "thorough" or n // k <= 3:
                    r.append(("knn/%d/%d/%d" % (n, k, per), "knn", n, k, per))
    for s in SCHEMES:
        r.append(("knn/scheme/" + s, "knnscheme", s))
        r.append(("expr/scheme/" + s, "exprscheme", s))
    r.append(("chunk", "chunk"))
    for dr, dc, tc, batch in ((1, 1, 1, 3), (1, 2, 1, 2), (2, 1, 2, 2), (2, 2, 2, 1), (1, 3, 2, 2), (3, 1, 1, 2), (2, 3, 1, 1), (2, 2, 3, 2)):
        for per in range(1, batch + 1):
            r.append(("matmul/%d/%d/%d/%d/%d" % (dr, dc, tc, batch, per), "matmul", dr, dc, tc, batch, per))
    r.append(("matmul/shape", "shape"))
    for k in range(4):
        for per in (1, 2, 3):
            r.append(("expr/%s/%d" % (AGG[k], per), "expr", k, per))
        r.append(("expr/%s/mask" % AGG[k], "exprmask", k))
        r.append(("expr/%s/two" % AGG[k], "two", k))
        if k:
            r.append(("expr/%s/direct" % AGG[k], "direct", k))
    r.append(("expr/invalid", "invalid"))
    return r


def run(e, sc):
    globals()["s_" + sc[1]](e, *sc[2:])


def prod(a, b):
    return fbin("Mul", norm(a, 64), norm(b, 64), 64)


def canon(t):
    """a summand with squares of differences brought to one form"""
    t = norm(t, 64)
    if type(t) is Term and t.op == "fpowi" and t.args[1] == 2:
        x = unbv(TLIST[t.args[0]])
        t = fbin("Mul", x, x, 64)
    if type(t) is Term and t.op == "fmul" and t.args[0] == t.args[1]:
        d = TLIST[t.args[0]]
        if d.op == "fsub" and d.args[0] > d.args[1]:
            x = fbin("Sub", unbv(TLIST[d.args[1]]), unbv(TLIST[d.args[0]]), 64)
            t = fbin("Mul", x, x, 64)
    return t


def sq(a, b):
    d = fbin("Sub", norm(a, 64), norm(b, 64), 64)
    return canon(fbin("Mul", d, d, 64))


def is_sum(got, want):
    g = [canon(x) for x in leaves(got, [])]
    w = []
    for v in want:
        w += [canon(x) for x in leaves(v, [])]
    gi, wi = [x for x in g if type(x) is int], [x for x in w if type(x) is int]
    gt, wt = [x for x in g if type(x) is not int], [x for x in w if type(x) is not int]
    for v in wt:
        for i, x in enumerate(gt):
            if x is v or proves(x, v, 64):
                del gt[i]
                break
        else:
            return False
    return not gt and same_sum_c(gi, wi)


def summing(e, got, want, key, msg):
    """an expectation; a form of the sum the rule does not know is undecided, not wrong"""
    if is_sum(got, want):
        return e.expect(True, key, msg)
    t = 0
    for v in want:
        t = fbin("Add", t, v, 64)
    if close(got, t):
        raise Undecided("another form of the sum")
    return e.expect(False, key, msg)


def close(a, b):
    """do the values agree up to rounding on every sampled member of the trace?"""
    import witness
    return witness.agree(a, b, 64, tol=1e-6) is not False


def tuple2(r):
    return r.f[0].f if type(r.f[0]) is Agg else r.f


def knn(e, s, vals, t, per, key):
    n, k = len(vals), len(t)

    def go():
        b, dv = file_of(e, s, vals, ("count", per))
        d = decode(e, b)
        r = e.call("dec_knn1", d, slicep(t))
        what = "nearest of %d vectors of %d in chunks of %d (%s)" % (n // k, k, per, s)
        if not e.expect(r.v == 1, key + ":error", what + " reports an error"):
            return
        idx, dist = tuple2(r)
        idx = norm(idx, 64)
        rows = n // k
        if type(idx) is not int:
            raise Undecided("index not determined")
        want = [[sq(dv[j * k + i], t[i]) for i in range(k)] for j in range(rows)]
        if idx >= rows:
            # no vector chosen: right only if none has a distance
            e.expect(idx == (1 << 64) - 1, key + ":index", "%s: index %d" % (what, idx))
            for j in range(rows):
                x = find(want[j])
                e.expect(isnan(x, 64) or fcmp(x, INF, 64, "Eq"), key + ":ignored", "%s: no vector chosen although vector %d has a distance" % (what, j))
            return
        if not summing(e, dist, want[idx], key + ":distance", lambda: "%s: vector %d at distance %s" % (what, idx, show(dist))):
            return
        for j in range(rows):
            if j == idx:
                continue
            x = find(want[j], dist)
            if not isnan(x, 64) and not fcmp(x, INF, 64, "Eq"):
                e.expect(fcmp(dist, x, 64, "Le"), key + ":order", "%s: vector %d is chosen although vector %d is nearer" % (what, idx, j))

    for _ in e.explore(go, key=key):
        pass


def find(want, near=None):
    """the distance of a vector as the trace computed it (it occurs in a comparison), else built here"""
    t = 0
    for v in want:
        t = fbin("Add", t, v, 64)
    if type(t) is int:
        return t
    for x in compared():
        if is_sum(x, want):
            return x
    return t


def compared():
    """floating-point terms the trace compared or tested"""
    nodes = []
    for x, y in S.edges.get("f", {}):
        nodes += [x, y]
    for k, x, y in S.ne:
        nodes += [x, y] if k == "f" else []
    nodes += list(S.nan)
    for nd in dict.fromkeys(nodes):
        if nd[0] == "t" and TLIST[nd[1]].op in ("fadd", "fmul", "fpowi"):
            yield TLIST[nd[1]]


def s_knn(e, n, k, per):
    vals = [f64("v%d" % i) for i in range(n)]
    t = [f64("t%d" % i) for i in range(k)]
    knn(e, "uncompressed", vals, t, per, "knn")


def s_knnscheme(e, s):
    vals = sample(s)
    for per in (2, 3):
        knn(e, s, vals, [f2i(1.5), f2i(-2.0)], per, "knn:scheme")


def s_chunk(e):
    vals = [f64("v%d" % i) for i in range(4)]
    for s in ("uncompressed", "rle", "zstd"):
        for off in range(0, 6):
            for k in range(0, 5):
                t = [f64("t%d" % i) for i in range(k)]

                def go():
                    b, dv = file_of(e, s, vals, None)
                    for fn, f in (("cr_distance", sq), ("cr_dot", prod)):
                        cr = cell(e.call("dec_chunk", decode(e, b), 0).f[0])
                        r = e.call(fn, cr, off, slicep(t))
                        what = "%s of %d values at offset %d (%s)" % (fn, k, off, s)
                        if e.expect(r.v == 1, fn + ":error", what + " reports an error"):
                            summing(e, r.f[0], [f(a, c) for a, c in zip(dv[off:], t)], fn + ":value", lambda: "%s: %s" % (what, show(r.f[0])))

                for _ in e.explore(go, key="chunk"):
                    pass


def s_matmul(e, dr, dc, tc, batch, per):
    n = dr * dc * batch
    vals = [f64("v%d" % i) for i in range(n)]
    t = [f64("t%d" % i) for i in range(dc * tc)]

    def go():
        b, dv = file_of(e, "uncompressed", vals, ("count", per * dr * dc))
        r = e.call("dec_matmul", decode(e, b), slicep(t), Agg(0, [dc, tc]), Agg(0, [dr, dc]))
        what = "product of %d matrices %dx%d, %d per chunk, with %dx%d" % (batch, dr, dc, per, dc, tc)
        if not e.expect(r.v == 1, "matmul:error", what + " reports an error"):
            return
        o = unbox(r.f[0])
        if not e.expect(len(o) == batch * dr * tc, "matmul:count", "%s has %d elements" % (what, len(o))):
            return
        for m in range(batch):
            for i in range(dr):
                for j in range(tc):
                    g = o[(m * dr + i) * tc + j]
                    summing(e, g, [prod(dv[(m * dr + i) * dc + x], t[j * dc + x]) for x in range(dc)], "matmul:value",
                            lambda: "%s: element (%d,%d,%d) is %s" % (what, m, i, j, show(g)))

    for _ in e.explore(go, key="matmul"):
        pass


def s_shape(e):
    vals = [f64("v%d" % i) for i in range(6)]
    for (ts, ds) in (((2, 1), (1, 3)), ((3, 1), (1, 2)), ((4, 1), (1, 4)), ((5, 1), (1, 5)), ((2, 2), (2, 2))):
        t = [f64("t%d" % i) for i in range(ts[0] * ts[1])]

        def go():
            b, dv = file_of(e, "uncompressed", vals, None)
            r = e.call("dec_matmul", decode(e, b), slicep(t), Agg(0, list(ts)), Agg(0, list(ds)))
            e.expect(r.v == 0, "matmul:shape", "a product of 6 records as %s matrices with a %s matrix is not refused" % (ds, ts))

        for _ in e.explore(go, key="matmul:shape"):
            pass


def trees():
    a, b, c = ("idx", 0), ("idx", 1), ("lit", f64("c"))
    for i in range(4):
        yield ("bin", i, a, b)
        yield ("bin", i, a, c)
        yield ("bin", i, c, b)
    yield ("bin", 1, ("bin", 2, a, c), b)
    yield ("bin", 3, b, ("bin", 0, a, a))


def expr(e, t):
    if t[0] == "lit":
        return e.call("ex_lit", t[1])
    if t[0] == "idx":
        return e.call("ex_idx", t[1])
    return e.call("ex_bin", t[1], expr(e, t[2]), expr(e, t[3]))


def value(t, rec):
    if t[0] == "lit":
        return t[1]
    if t[0] == "idx":
        return rec[t[1]]
    return fbin(OPS[t[1]], norm(value(t[2], rec), 64), norm(value(t[3], rec), 64), 64)


def name(t):
    if t[0] == "lit":
        return "c"
    if t[0] == "idx":
        return "f%d" % t[1]
    return "(%s %s %s)" % (name(t[2]), "+-*/"[t[1]], name(t[3]))


def verdict(e, key, what, k, tag, out, vals):
    if k == 0:
        if e.expect(tag == 0 and len(out) == len(vals), key + ":count", "%s: %d values instead of %d" % (what, len(out), len(vals))):
            for i, v in enumerate(vals):
                e.expect(same(out[i], v, 64), key + ":value", lambda: "%s: value %d is %s instead of %s" % (what, i, show(out[i]), show(v)))
        return
    if not e.expect(tag == 1 and len(out) == 1, key + ":kind", "%s is not a number" % what):
        return
    if k == 1:
        summing(e, out[0], vals, key + ":value", lambda: "%s is %s" % (what, show(out[0])))
    else:
        judge(e, key, what, ("num", out[0]), AGG[k], None, vals, None, range(len(vals)))


def compute(e, s0, s1, v0, v1, per, k, t, mask, key):
    def go():
        b0, d0 = file_of(e, s0, v0, ("count", per))
        b1, d1 = file_of(e, s1, v1, ("count", per))
        a = cell(e.call("ag_new", k, expr(e, t)))
        m = NONE if mask is None else some(cell(bmv(mask)))
        r = e.call("ag_compute", a, open_(e, b0), open_(e, b1), m)
        what = "%s of %s, chunks of %d, %s" % (AGG[k], name(t), per, "masked" if mask is not None else "all records")
        if not e.expect(r.v == 1, key + ":error", what + " reports an error"):
            return
        tag, out = tuple2(r)
        sel = selected(len(d0), mask, range(len(d0)))
        verdict(e, key, what, k, tag, unbox(out), [value(t, (d0[i], d1[i])) for i in sel])

    for _ in e.explore(go, key=key):
        pass


def open_(e, b):
    r = e.call("dec", mem(e, b))
    if r.v != 0:
        raise Undecided("file refused")
    return r.f[0]


def two_files(n):
    return [f64("a%d" % i) for i in range(n)], [f64("b%d" % i) for i in range(n)]


def s_expr(e, k, per):
    n = 3 if k < 2 else 2
    v0, v1 = two_files(n)
    for t in trees():
        compute(e, "uncompressed", "uncompressed", v0, v1, per, k, t, None, "expr")


def s_exprmask(e, k):
    n = 3 if k < 2 else 2
    v0, v1 = two_files(n)
    for t in list(trees())[:4]:
        for per in (1, 2):
            compute(e, "uncompressed", "uncompressed", v0, v1, per, k, t, unknown_mask(n), "expr")


def s_exprscheme(e, s):
    v0 = sample(s)
    v1 = [f64("b%d" % i) for i in range(5)]
    for mask in (None, {0: 1, 3: 1}):
        for k in (0, 1):
            compute(e, s, "uncompressed", v0, v1, 2, k, ("bin", 1, ("idx", 0), ("idx", 1)), mask, "expr:scheme")
            compute(e, "uncompressed", s, v1, v0, 2, k, ("bin", 3, ("idx", 0), ("bin", 2, ("idx", 1), ("lit", f2i(3.0)))), mask, "expr:scheme")
            compute(e, s, "uncompressed", v0, v1, 2, k, ("bin", 2, ("idx", 0), ("bin", 1, ("idx", 0), ("idx", 1))), mask, "expr:twice")


def s_direct(e, k):
    v0, v1 = two_files(2)
    for i in (0, 1):
        for mask in (None, unknown_mask(2)):
            compute(e, "uncompressed", "uncompressed", v0, v1, 1, k, ("idx", i), mask, "expr:direct")


def s_two(e, k):
    v0, v1 = two_files(2)
    ts = [("bin", 2, ("idx", 0), ("idx", 1)), ("idx", 1), ("bin", 0, ("idx", 1), ("lit", f64("c")))]
    for t1 in ts:
        for t2 in ts:
            for k1, k2 in ((k, 1), (1, k)):
                if k1 == 0 and t1[0] == "idx" or k2 == 0 and t2[0] == "idx":
                    continue

                def go():
                    b0, d0 = file_of(e, "uncompressed", v0, ("count", 1))
                    b1, d1 = file_of(e, "uncompressed", v1, ("count", 1))
                    r = e.call("ag_compute2", e.call("ag_new", k1, expr(e, t1)), e.call("ag_new", k2, expr(e, t2)), open_(e, b0), open_(e, b1), NONE)
                    what = "%s of %s with %s of %s" % (AGG[k1], name(t1), AGG[k2], name(t2))
                    if not e.expect(r.v == 1, "two:error", what + " reports an error"):
                        return
                    f = tuple2(r)
                    for kk, t, tag, out, nm in ((k1, t1, f[0], f[1], "first"), (k2, t2, f[2], f[3], "second")):
                        verdict(e, "two", what + ", the " + nm, kk, tag, unbox(out), [value(t, (d0[i], d1[i])) for i in range(2)])

                for _ in e.explore(go, key="two"):
                    pass


def s_invalid(e):
    v0, v1 = two_files(2)
    for t in (("lit", f64("c")), ("bin", 0, ("lit", f64("c")), ("lit", f64("d")))):
        def go():
            b0, d0 = file_of(e, "uncompressed", v0, None)
            r = e.call("ag_compute", cell(e.call("ag_new", 1, expr(e, t))), open_(e, b0), open_(e, b0), NONE)
            e.expect(r.v == 0, "expr:invalid", "an expression over no file is not refused")

        for _ in e.explore(go, key="expr:invalid"):
            pass


def post(e, stats, und):
    if stats.get("obligations", 0) < 1000 and not und:
        yield "floor", "only %d obligations" % stats.get("obligations", 0)
