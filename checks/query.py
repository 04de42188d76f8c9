"""query harness shared by the query checks: abstract masks and predicates, the specification of each query, and its comparison
with what the analysed code returns"""
from ebi import *
import models

INF = f2i(float("inf"))
NINF = f2i(float("-inf"))
KINDS = ["materialize", "filter", "filter_materialize", "sum", "min", "max"]


def bmv(d):
    return models.mkbm(d)


def unknown_mask(n, name="m"):
    return {i: bits(sym("%s%d" % (name, i), 1), 1)[0] for i in range(n)}


def pred(e, p):
    k = p[0]
    if k in ("eq", "ne"):
        return e.call("pr_" + k, p[1])

    def rv(b):
        return e.call("rv_none") if b is None else e.call("rv_" + b[0], b[1])

    return e.call("pr_range", rv(p[1]), rv(p[2]))


def holds(p, v):
    """the meaning of a predicate (forks where it is not determined)"""
    if p[0] == "eq":
        return fcmp(v, p[1], 64, "Eq")
    if p[0] == "ne":
        return fcmp(v, p[1], 64, "Ne")
    a, b = p[1], p[2]
    if a is not None and not fcmp(v, a[1], 64, "Ge" if a[0] == "incl" else "Gt"):
        return 0
    if b is not None and not fcmp(v, b[1], 64, "Le" if b[0] == "incl" else "Lt"):
        return 0
    return 1


def leaves(t, out, depth=0):
    """the summands of a floating-point sum (the order of additions is not part of the property)"""
    t = norm(t, 64)
    if type(t) is Term and t.op == "fadd":
        for a in t.args[:2]:
            leaves(unbv(TLIST[a]) if TLIST[a].op == "bv" else TLIST[a], out, depth + 1)
    elif type(t) is Term and t.op == "const":
        leaves(t.args, out, depth)
    elif type(t) is int:
        if t not in (0, 1 << 63):
            out.append(t)
    else:
        out.append(t)
    return out


def same_sum(got, vals):
    """is got a sum of exactly vals, in some order and grouping?"""
    g = leaves(got, [])
    w = []
    for v in vals:
        leaves(v, w)
    if all(type(x) is int for x in g + w):
        import math
        a, b = math.fsum(i2f(x) for x in g), math.fsum(i2f(x) for x in w)
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(abs(a), abs(b))
    rest = [x for x in g if type(x) is not int]
    gi = [x for x in g if type(x) is int]
    wi = []
    for v in w:
        if type(v) is int:
            wi.append(v)
            continue
        for i, x in enumerate(rest):
            if proves(x, v, 64):
                del rest[i]
                break
        else:
            # value that is zero contributes nothing
            if fcmp(v, 0, 64, "Eq"):
                continue
            return False
    if rest:
        return False
    return same_sum_c(gi, wi)


def same_sum_c(a, b):
    import math
    a, b = math.fsum(i2f(x) for x in a), math.fsum(i2f(x) for x in b)
    return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def selected(n, mask, rng):
    """indices selected by mask (dict or None) inside the record range"""
    return [i for i in rng if mask is None or choose_bit(mask.get(i, 0), "mask member %d" % i)]


def opts(mask, chunk):
    return NONE if mask is None else some(cell(bmv(mask))), NONE if chunk is None else some(chunk)


def ask(e, d, kind, p, mask, chunk):
    """-> ("bytes", ok, bytes) | ("map", dict or None) | ("num", value or None)"""
    m, c = opts(mask, chunk)
    if kind == "materialize":
        return ("bytes",) + tuple(written(e.call("dec_materialize", d, mem(e, []), m, c)))
    if kind == "filter_materialize":
        return ("bytes",) + tuple(written(e.call("dec_filter_materialize", d, mem(e, []), pred(e, p), m, c)))
    if kind == "filter":
        r = e.call("dec_filter", d, pred(e, p), m, c)
        return ("map", models.bm(r.f[0]).d if r.v == 1 else None)
    r = e.call("dec_" + kind, d, m, c)
    return ("num", r.f[0] if r.v == 1 else None)


def ask_chunk(e, d, kind, p, mask, chunk):
    """the same through the chunk reader"""
    m = NONE if mask is None else some(cell(bmv(mask)))
    r = e.call("dec_chunk", d, chunk)
    if r.v != 1:
        return None
    cr = cell(r.f[0])
    if kind == "materialize":
        return ("bytes",) + tuple(written(e.call("cr_materialize", cr, mem(e, []), m)))
    if kind == "filter_materialize":
        return ("bytes",) + tuple(written(e.call("cr_filter_materialize", cr, mem(e, []), pred(e, p), m)))
    if kind == "filter":
        r = e.call("cr_filter", cr, pred(e, p), m)
        return ("map", models.bm(r.f[0]).d if r.v == 1 else None)
    r = e.call("cr_" + kind, cr, m)
    return ("num", r.f[0] if r.v == 1 else None)


def judge(e, key, what, ans, kind, p, vals, mask, rng, nan_ok=False):
    """compare an answer with the specification over the decoded values"""
    sel = None
    what = "%s %s" % (kind, what)
    key = "%s:%s" % (key, kind)
    if ans is None or ans[0] == "num" and ans[1] is None or ans[0] == "map" and ans[1] is None or ans[0] == "bytes" and ans[1] != 1:
        e.expect(False, key + ":error", "%s reports an error" % what)
        return
    sel = selected(len(vals), mask, rng)
    if kind in ("filter", "filter_materialize"):
        sel = [i for i in sel if holds(p, vals[i])]
    if kind == "filter":
        got = [i for i in sorted(ans[1]) if choose_bit(ans[1][i], "result member %d" % i)]
        e.expect(got == sel, key, lambda: "%s selects records %s instead of %s" % (what, got, sel))
    elif ans[0] == "bytes":
        o = ans[2]
        if e.expect(len(o) == 8 * len(sel), key + ":count", lambda: "%s writes %d bytes for records %s" % (what, len(o), sel)):
            for j, i in enumerate(sel):
                g = from_bytes(o[8 * j: 8 * j + 8])
                e.expect(same(g, vals[i], 64), key + ":value", lambda: "%s: output %d is %s, record %d" % (what, j, show(g), i))
    elif kind == "sum":
        e.expect(same_sum(ans[1], [vals[i] for i in sel]), key, lambda: "%s over records %s is %s" % (what, sel, show(ans[1])))
    else:
        best = ans[1]
        op = "Le" if kind == "min" else "Ge"
        real = [i for i in sel if not isnan(vals[i], 64)]
        empty = INF if kind == "min" else NINF
        if not real:
            e.expect(proves(best, empty, 64) is True or nan_ok and isnan(best, 64), key + ":empty", lambda: "%s of no values is %s" % (what, show(best)))
            return
        if not e.expect(not isnan(best, 64), key + ":nan", lambda: "%s of records %s is NaN" % (what, sel)):
            return
        e.expect(all(fcmp(best, vals[i], 64, op) for i in real), key, lambda: "%s of records %s is %s, not the extreme value" % (what, sel, show(best)))
        e.expect(any(fcmp(best, vals[i], 64, "Eq") for i in real), key + ":member", lambda: "%s of records %s is %s, none of them" % (what, sel, show(best)))
