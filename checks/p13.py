"""Failing and fragmenting files: for every scheme, encoding and every query are analysed with an error injected at the k-th
operation on the input or the output, for every k the clean run performs; with an interruption at the k-th operation; with
reads and writes that move only a few bytes; and with the file cut off at every length."""
from query import *

ASSUMPTIONS = ["files of 5 records in 3 chunks; a single fault per run",
               "whole-buffer operations (read_exact, read_to_end, write_all) retry interruptions, as std documents",
               "the external decompressors pass on the errors of the reader they wrap"]
KIND = {k: i for i, k in enumerate(KINDS)}
LIMIT = 80


def scenarios(e):
    r = []
    for s in SCHEMES:
        for o in ("count", "full", "bytes"):
            r.append(("encode/%s/%s" % (s, o), "encode", s, o))
        for k in KINDS:
            r.append(("query/%s/%s" % (s, k), "query", s, k))
        r.append(("cut/" + s, "cut", s))
        r.append(("short/" + s, "short", s))
    return r


def run(e, sc):
    globals()["s_" + sc[1]](e, *sc[2:])


def vals_of(s):
    if s in PLAIN:
        # the predicate below is decided for each of them
        u = bits(f64("x"), 64)
        return [f2i(1.0), mk(tuple(u[:52]) + tuple(bits(1025, 11)) + (0,)), f2i(-3.5), f2i(-3.5), mk(tuple(u[:52]) + tuple(bits(1020, 11)) + (1,))]
    return sample(s)


def opt_of(o):
    return {"count": ("count", 2), "full": None, "bytes": ("bytes", 16)}[o]


def enc_run(e, data, s, o, i, ofail=0, cap=0, intr=None):
    """one encode with faults; -> (ok, input failed, output failed, output bytes)"""
    if intr == "in":
        mi = cell(e.call("mem_intr", vecv(data), i, cap))
    else:
        mi = cell(mem(e, data, i, cap))
    if intr == "out":
        mo = cell(e.call("mem_intr", vecv([]), ofail, cap))
    else:
        mo = cell(mem(e, [], ofail, cap))
    ok = e.call("io_encode", mi, mo, config(e, s, SCALED.get(s)), option(e, opt_of(o)))
    return ok, e.call("mem_failed", mi), e.call("mem_failed", mo), unbox(e.call("mem_slice", mo))


def each(e, fn, key):
    """fn(k) for k = 1, 2, ... until a run is not reached by the fault any more"""
    for k in range(1, LIMIT):
        hit = []

        def go():
            hit.append(fn(k))

        for _ in e.explore(go, key=key):
            pass
        if not any(hit):
            return
    e.stats["undecided"] += 1
    e.undecided["more than %d operations" % LIMIT] = 1


def s_encode(e, s, o):
    data = lebytes(vals_of(s))

    def infail(k):
        ok, fi, fo, out = enc_run(e, data, s, o, k)
        if fi == 1:
            e.expect(ok == 0, "encode:input", "%s (%s): the error of input operation %d is not reported" % (s, o, k))
        else:
            e.expect(ok == 1, "encode:clean", "%s (%s): encoding without a fault reports an error" % (s, o))
        return fi == 1

    def outfail(k):
        ok, fi, fo, out = enc_run(e, data, s, o, 0, k)
        if fo == 1:
            e.expect(ok == 0, "encode:output", "%s (%s): the error of output operation %d is not reported" % (s, o, k))
        return fo == 1

    each(e, infail, "encode:input")
    each(e, outfail, "encode:output")

    def interrupted(side, cap):
        def f(k):
            ok, fi, fo, out = enc_run(e, data, s, o, k if side == "in" else 0, k if side == "out" else 0, cap, side)
            if ok == 1:
                whole(e, out, s, data, "interrupted", "%s (%s): operation %d on the %sput interrupted%s" % (s, o, k, side, " (%d bytes at a time)" % cap if cap else ""))
            return (fi if side == "in" else fo) == 1
        return f

    for cap in (0, 5):
        each(e, interrupted("in", cap), "encode:interrupted")
    each(e, interrupted("out", 0), "encode:interrupted")


def whole(e, out, s, data, key, what):
    """the file holds all values"""
    ref = encode(e, data, config(e, s, SCALED.get(s)), ("count", 2))
    d = decode(e, out)
    if not e.expect(d is not None, key + ":file", what + ": the file cannot be opened"):
        return
    n = e.call("dec_n_records", d)
    if not e.expect(n == len(data) // 8, key + ":records", lambda: "%s: the file holds %s of %d records" % (what, show(n), len(data) // 8)):
        return
    ok, got = written(e.call("dec_materialize", d, mem(e, []), NONE, NONE))
    ok2, want = written(e.call("dec_materialize", decode(e, ref[1]), mem(e, []), NONE, NONE))
    if e.expect(ok == ok2 and len(got) == len(want), key + ":length", lambda: "%s: %d bytes of values instead of %d" % (what, len(got), len(want))):
        e.expect(same_all(list(zip(got, want)), 8), key + ":values", what + ": other values are stored")


def the_file(e, s):
    ok, b = encode(e, lebytes(vals_of(s)), config(e, s, SCALED.get(s)), ("count", 2))
    if ok != 1:
        raise Undecided("encoding failed")
    return b


P = ("range", ("incl", f2i(2.0)), None)


def q_run(e, b, k, ifail, ofail, cap=0, intr=None, mask=None):
    mi = cell(e.call("mem_intr", vecv(b), ifail, cap) if intr == "in" else mem(e, b, ifail, cap))
    mo = cell(e.call("mem_intr", vecv([]), ofail, cap) if intr == "out" else mem(e, [], ofail, cap))
    m = NONE if mask is None else some(cell(bmv(mask)))
    ok, bm, num = e.call("io_query", mi, mo, KIND[k], pred(e, P), m).f
    return ok, e.call("mem_failed", mi), e.call("mem_failed", mo), (unbox(e.call("mem_slice", mo)), models.bm(bm).d, num)


def agree(e, x, y, key, what):
    if e.expect(len(x[0]) == len(y[0]), key, "%s: %d bytes instead of %d" % (what, len(x[0]), len(y[0]))):
        e.expect(same_all(list(zip(x[0], y[0])), 8) if x[0] else True, key, what + ": other bytes are written")
    e.expect(sorted(x[1].items()) == sorted(y[1].items()), key, what + ": other records are selected")
    e.expect(same(x[2], y[2], 64), key, what + ": another number is returned")


def s_query(e, s, k):
    def fault(side):
        def f(i):
            b = the_file(e, s)
            ok, fi, fo, r = q_run(e, b, k, i if side == "in" else 0, i if side == "out" else 0)
            hit = (fi if side == "in" else fo) == 1
            if hit:
                e.expect(ok == 0, "query:%sput" % side, "%s of a %s file: the error of %sput operation %d is not reported" % (k, s, side, i))
            else:
                e.expect(ok == 1, "query:clean", "%s of a %s file without a fault reports an error" % (k, s))
            return hit
        return f

    def interrupted(side):
        def f(i):
            b = the_file(e, s)
            ok, fi, fo, r = q_run(e, b, k, i if side == "in" else 0, i if side == "out" else 0, 0, side)
            if ok == 1:
                agree(e, r, q_run(e, b, k, 0, 0)[3], "query:interrupted", "%s of a %s file, %sput operation %d interrupted" % (k, s, side, i))
            return (fi if side == "in" else fo) == 1
        return f

    each(e, fault("in"), "query:input")
    each(e, interrupted("in"), "query:interrupted")
    if k in ("materialize", "filter_materialize"):
        each(e, fault("out"), "query:output")
        each(e, interrupted("out"), "query:interrupted")


def s_cut(e, s):
    def clean():
        n.append(len(the_file(e, s)))

    n = []
    for _ in e.explore(clean, key="cut"):
        break
    if not n:
        raise Undecided("no file")
    for cut in range(n[0]):
        def go():
            b = the_file(e, s)
            if len(b) != n[0]:
                return
            ok, fi, fo, r = q_run(e, b[:cut], "materialize", 0, 0)
            e.expect(ok == 0, "cut", "a %s file of %d bytes cut to %d is not refused" % (s, len(b), cut))

        for _ in e.explore(go, key="cut"):
            pass


def s_short(e, s):
    data = lebytes(vals_of(s))
    for cap in (1, 3, 7, 8, 13):
        for o in ("count", "full", "bytes"):
            def go():
                ok, fi, fo, out = enc_run(e, data, s, o, 0, 0, cap)
                if e.expect(ok == 1, "short:encode", "%s (%s): encoding an input that arrives %d bytes at a time fails" % (s, o, cap)):
                    whole(e, out, s, data, "short", "%s (%s): input arriving %d bytes at a time" % (s, o, cap))

            for _ in e.explore(go, key="short:encode"):
                pass
        for k in KINDS:
            def go():
                b = the_file(e, s)
                ok, fi, fo, r = q_run(e, b, k, 0, 0, cap)
                if e.expect(ok == 1, "short:query", "%s of a %s file that arrives %d bytes at a time fails" % (k, s, cap)):
                    agree(e, r, q_run(e, b, k, 0, 0)[3], "short:query", "%s of a %s file arriving %d bytes at a time" % (k, s, cap))

            for _ in e.explore(go, key="short:query"):
                pass


def post(e, stats, und):
    if stats.get("obligations", 0) < 1000 and not und:
        yield "floor", "only %d obligations" % stats.get("obligations", 0)
