"""The decimal analysis behind the Elf schemes.  Each function is analysed on an unknown number: the comparisons decided on
a trace form an ordering table; the rule compares the reported result with what that table establishes (decimal position
within [10^sp, 10^(sp+1)), a digit count other than 17 only where scaling by 10^i gave an integer that scales back to the
number and only zeros were dropped, rounding away from zero at the last decimal).  The finite tables are compared entry by
entry with exact integer arithmetic."""
import math

from ebi import *

ASSUMPTIONS = ["numbers from 1e-10 up to 1e9 (beyond, the position comes from log10, whose accuracy is trusted)", "up to 20 decimals"]
NORM = {"f": 64}


def T(i):
    """term id -> term or const"""
    t = TLIST[i]
    if t.op == "const":
        return t.args
    return unbv(t)


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def lt10(v, k):
    """facts establish |v| < 10^k"""
    return relset("f", v, f2i(float("1e%d" % k))) <= {-1}


def ge10(v, k):
    return relset("f", v, f2i(float("1e%d" % k))) <= {0, 1}


def scenarios(e):
    r = [("table/bits/%d" % k, "falpha", k) for k in range(0, 420, 20)]
    r += [("table/tenth", "tenth"), ("position", "pos")]
    r += [("round/%d" % a, "round", a) for a in range(21)]
    for sp in range(-10, 9):
        for last in (0x7FFFFFFF, 0, 1, 2, 5, 9, 15, 16):
            if e.tier == "thorough" or last in (0x7FFFFFFF, 0, 5) or sp in (-1, 0, 3):
                for sg in (0, 1) if last == 5 else (0,):
                    r.append(("digits/%d/%d/%d" % (sp, last, sg), "digits", sp, last, sg))
    return r


def run(e, sc):
    globals()["s_" + sc[1]](e, *sc[2:])


def s_falpha(e, k):
    for a in range(k, k + 20):
        for out in e.explore(lambda: e.call("elf_f_alpha", a), key="bits"):
            if out[0] == "ok":
                w = (10 ** a).bit_length() if a else 0
                e.expect(same(out[1], w, 32), "bits", lambda: "%s bits are reserved for %d decimals, %d are needed" % (out[1], a, w))


def s_tenth(e):
    for i in range(21):
        for out in e.explore(lambda: e.call("elf_10i_n", i), key="tenth"):
            if out[0] == "ok":
                e.expect(same(out[1], f2i(float("1e-%d" % i)), 64), "tenth", lambda: "the %d-th power of a tenth is %s" % (i, out[1]))


def s_pos(e):
    v = f64("v")
    for out in e.explore(lambda: e.call("elf_sp", v), key="position"):
        if out[0] != "ok":
            continue
        r = out[1]
        if S.nan.get(("t", v.id)) == 1:
            continue
        if type(r) is int:
            r = sgn(r, 32)
            e.expect(ge10(v, r) and lt10(v, r + 1), "position", "position %d is reported for a number that may lie outside [1e%d, 1e%d)" % (r, r, r + 1))
        else:
            ops = []
            x = r
            while type(x) is Term and x.op != "in":
                ops.append(x.op)
                a = x.args
                x = T(a[0])
            if ops == ["f2i", "ffloor", "flog10"] and x is v:
                e.expect(relset("f", v, f2i(1e9)) <= {0, 1} or relset("f", v, f2i(1e-10)) <= {-1}, "position", "the position is computed by logarithm inside the table range")
            elif set(ops) <= {"f2i", "fceil", "fround", "ftrunc", "ffloor", "flog10", "flog2", "fln"}:
                e.expect(False, "position", "the position is reported as %s" % ops)
            else:
                e.stats["undecided"] += 1


def strip1(x):
    while type(x) is Term and x.op in ("fdiv", "fmul"):
        a, b = T(x.args[0]), T(x.args[1])
        if b == f2i(1.0):
            x = a
        elif x.op == "fmul" and a == f2i(1.0):
            x = b
        else:
            break
    return x


def scaled(x, v, s):
    """is x == v * s?"""
    x = strip1(x)
    if s == f2i(1.0):
        return proves(x, v, 64)
    if type(x) is Term and x.op == "fmul":
        a, b = T(x.args[0]), T(x.args[1])
        return (b == s and isv(a, v)) or (a == s and isv(b, v))
    return False


def isv(a, v):
    return proves(a, v, 64)


def known_ops(x, ok):
    if type(x) is int:
        return True
    if type(x) is not Term or x.op in ("in", "bv"):
        return True
    return x.op in ok and all(known_ops(T(i), ok) for i in x.args if type(i) is int)


def s_round(e, a):
    s = f2i(float("1e%d" % a))
    for sg in (0, 1):
        v = mk(bits(f64("v"), 64)[:63] + (sg,))
        for out in e.explore(lambda: e.call("elf_round_up", v, a), key="round"):
            if out[0] != "ok":
                continue
            if any(S.nan.values()):
                continue
            x = strip1(out[1])
            if not known_ops(x, ("fdiv", "fmul", "ffloor", "fceil", "fround", "ftrunc")):
                e.stats["undecided"] += 1
                continue
            good = False
            if type(x) is Term and (x.op == "fdiv" or a == 0):
                q = x if a == 0 else T(x.args[0])
                d = f2i(1.0) if a == 0 else T(x.args[1])
                zero = relset("f", v, 0) == {0}
                want = ("ffloor", "fceil") if zero else (("ffloor",) if sg else ("fceil",))
                good = d == (s if a else f2i(1.0)) and type(q) is Term and q.op in want and scaled(T(q.args[0]), v, s)
            if relset("f", v, 0) == {0}:
                good = True
            e.expect(good, "round", lambda: "a %s number is rounded to %d decimals as %s" % ("negative" if sg else "positive", a, describe(x)))


def describe(x):
    if type(x) is int:
        return "%r" % i2f(x)
    if type(x) is Term and x.op[0] == "f" and x.op != "f2i":
        return "%s(%s)" % (x.op[1:], ", ".join(describe(T(i)) for i in x.args if type(i) is int))
    return "v"


def integral(t):
    """the decided comparisons establish that the float t is an integer"""
    k = vkey(t)
    c = []
    n = term("f2i", (k, 64, True), 64)
    for o in ("i2f", "s2f"):
        c.append(term(o, (vkey(norm(n, 64)), 64), 64))
    n = term("f2i", (k, 64, False), 64)
    c.append(term("i2f", (vkey(n), 64), 64))
    for o in ("ffloor", "fceil", "ftrunc", "fround"):
        c.append(term(o, (k,), 64))
    if any(relset("f", x, t) == {0} for x in c):
        return True
    return any(relset("f", x, 0) == {0} for x in (term("fsub", (k, vkey(c[-2])), 64), term("frem", (k, vkey(f2i(1.0))), 64)))


def s_digits(e, sp, last, sg):
    m = bits(f64("v"), 64)
    v = mk(m[:63] + (sg,))
    a = mk(m[:63] + (0,))

    def go():
        S.nan[interp._node(v)] = 0
        S.nan[interp._node(a)] = 0
        add_rel("f", a, f2i(float("1e%d" % sp)), {0, 1})
        add_rel("f", a, f2i(float("1e%d" % (sp + 1))), {-1})
        return e.call("elf_alpha_beta", v, last)

    n = 0
    for out in e.explore(go, key="digits", max_paths=400 if e.tier == "thorough" else 150):
        if out[0] != "ok":
            continue
        n += 1
        alpha, beta = out[1].f
        if type(alpha) is not int or type(beta) is not int:
            e.stats["undecided"] += 1
            continue
        if alpha > 400:
            e.expect(False, "digits", "%d decimals are reported" % alpha)
            continue
        power = relset("f", a, f2i(float("1e%d" % sp)))
        # how the count was established
        i0 = None
        for i in range(0, 21):
            s = f2i(float("1e%d" % i))
            t = fbin("Mul", a, s, 64)
            if integral(t) and relset("f", fbin("Div", t, s, 64), a) == {0}:
                i0 = i
                if i >= alpha:
                    break
        b = sp + alpha + 1
        if any(type(norm(term("f2i", (vkey(fbin("Mul", a, f2i(float("1e%d" % i)), 64)), 64, True), 64), 64)) is int for i in range(21)):
            continue  # the scaled number was assumed to be the least integer: impossible for a positive number
        if b <= 0 and i0 is not None:
            continue  # more zeros than digits: impossible for a number of this size
        if beta == 0:
            e.expect(power == {0} and sp < 0, "power", "the mark for exact negative powers of ten is given to a number in [1e%d, 1e%d) that need not be one" % (sp, sp + 1))
        else:
            e.expect(beta == b, "count", "%d significant digits but %d decimals are reported for a number in [1e%d, 1e%d)" % (beta, alpha, sp, sp + 1))
            e.expect(0 not in power or sp >= 0, "power", "1e%d is not given the mark for exact negative powers of ten" % sp)
        if b == 17:
            e.ok()
            continue
        if i0 is None or i0 < alpha:
            e.expect(False, "digits", "%d decimals are reported for a number in [1e%d, 1e%d) without having been established: scaling by 1e%d need not give an integer that scales back to it" % (alpha, sp, sp + 1, alpha))
            continue
        e.ok()
        # only zeros are dropped between i0 and alpha
        s = f2i(float("1e%d" % i0))
        q = term("f2i", (vkey(fbin("Mul", a, s, 64)), 64, True), 64)
        for k in range(i0 - alpha):
            z = relset("u64", norm(o_rem(q, 10, 64, True), 64), 0) == {0}
            e.expect(z, "dropped", "%d decimals are reported although digit %d need not be zero" % (alpha, i0 - k))
            q = o_div(q, 10, 64, True)
        e.expect(alpha == 0 or 0 not in relset("u64", norm(o_rem(q, 10, 64, True), 64), 0), "minimal", "%d decimals are reported although the last one may be zero" % alpha)
    if n < 5:
        e.stats["undecided"] += 1


def post(e, stats, und):
    if stats.get("obligations", 0) < 500 and not und:
        yield "floor", "only %d obligations" % stats.get("obligations", 0)
