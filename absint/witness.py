"""Members of an abstract trace.

Before a difference or a panic is reported, a concrete member of the abstract state is looked for: an assignment of the unknown
inputs under which the facts of the trace hold (and, for a difference, the two abstract values differ).  Only the abstract
values are evaluated, never the program.  A difference that no member shows is not reported: the trace counts as undecided."""
import math
import random

from dom import *
from interp import S, sx, fbin, fl2i, i2fl, o_div, o_rem, norm_bit, consistent

STYLES = 14
N = 400


class Sample:
    def __init__(self, seed, style, bounds):
        self.rng = random.Random(seed)
        self.style = style
        self.bounds = bounds
        self.memo = {}
        self.ins = {}
        self.pool = []
        self.busy = set()

    # -- inputs
    def fresh(self, t):
        r, nb = self.rng, t.nb
        lo, hi = self.bounds.get(t.id, (None, None))
        if nb == 64 and (lo is not None or hi is not None):
            lo = -1e300 if lo is None else lo
            hi = 1e300 if hi is None else hi
            k = r.randrange(4)
            if k == 0:
                x = r.uniform(lo, hi)
            elif k == 1:
                x = round(r.uniform(lo, hi), r.randrange(0, 12))
            elif k == 2:
                x = r.choice((lo, hi, math.nextafter(lo, math.inf), math.nextafter(hi, -math.inf)))
            else:
                x = lo * (10 ** r.uniform(0, math.log10(hi / lo))) if 0 < lo < hi else r.uniform(lo, hi)
            return f2i(x)
        if self.pool and self.style % 2 and r.random() < 0.6:
            x = r.choice(self.pool)
            if r.random() < 0.5:
                x ^= r.choice((1 << r.randrange(nb), 1 << (nb - 1), r.getrandbits(nb) & r.getrandbits(nb)))
            return x & ((1 << nb) - 1)
        if nb != 64:
            return r.choice((r.getrandbits(nb), r.randrange(min(1 << nb, 20)), 0, (1 << nb) - 1))
        s = (self.style // 2) % 7
        if s == 0:
            return r.getrandbits(64)
        if s == 1:
            return f2i(round(r.uniform(-1000, 1000), r.randrange(0, 7)))
        if s == 2:
            return f2i(float(r.randrange(-50, 50)))
        if s == 3:
            return f2i(math.copysign(2.0 ** r.randrange(-40, 40), r.random() - 0.5))
        if s == 4:
            return r.choice((0, 1 << 63, 0x7FF0000000000000, 0xFFF0000000000000, 1, 0x7FF8000000000001, 0x3FF0000000000000, (1 << 64) - 1, 0x000FFFFFFFFFFFFF))
        if s == 5:
            return f2i(r.uniform(0, 1) * 10 ** r.randrange(-8, 12))
        return r.getrandbits(r.randrange(1, 65))

    def raw(self, t):
        v = self.ins.get(t.id)
        if v is None:
            v = self.ins[t.id] = self.fresh(t)
            self.pool.append(v)
        return v

    # -- evaluation
    def bit(self, x):
        r = x & 1
        if x > 1:
            for a in SETS[x >> 1]:
                r ^= self.atom(a)
        return r

    def atom(self, a):
        v = self.memo.get(a)
        if v is not None:
            return v
        d = ATOMS[a]
        if d[0] == "and":
            v = self.bit(d[1]) & self.bit(d[2])
        elif d[0] == "t":
            t = TLIST[d[1]]
            if t.op == "in":
                if a in S.sub and a not in self.busy:
                    self.busy.add(a)
                    v = self.bit(S.sub[a])
                    self.busy.discard(a)
                else:
                    v = self.raw(t) >> d[2] & 1
            else:
                v = self.term(t) >> d[2] & 1
        else:
            v = self.rng.getrandbits(1)
        self.memo[a] = v
        return v

    def value(self, v, w):
        if type(v) is int:
            return v & ((1 << w) - 1)
        r = 0
        for i, x in enumerate(bits(v, w)):
            r |= self.bit(x) << i
        return r

    def arg(self, tid):
        t = TLIST[tid]
        return self.term(t)

    def term(self, t):
        k = ("T", t.id)
        v = self.memo.get(k)
        if v is None:
            v = self.memo[k] = self.compute(t) & ((1 << t.nb) - 1)
        return v

    def compute(self, t):
        op, a = t.op, t.args
        if op == "in":
            return self.value(t, t.nb)
        if op == "const":
            return a
        if op == "bv":
            r = 0
            for i, x in enumerate(a):
                r |= self.bit(x) << i
            return r
        if op == "lin":
            r = a[0]
            for tid, k in a[1]:
                r += k * self.arg(tid)
            return r
        if op == "mul":
            return self.arg(a[0]) * self.arg(a[1])
        if op in ("div", "sdiv", "rem", "srem"):
            x, y = self.arg(a[0]), self.arg(a[1])
            if y == 0:
                return 0
            w = t.nb if op != "rem" else 128
            return (o_div if op.endswith("div") else o_rem)(x, y, w, op[0] == "s")
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            return fbin(op[1:].capitalize(), self.arg(a[0]), self.arg(a[1]), t.nb)
        if op in ("s2f", "i2f"):
            return i2fl(self.arg(a[0]), TLIST[a[0]].nb if op == "s2f" else 128, op == "s2f", a[1])
        if op == "f2i":
            return fl2i(self.arg(a[0]), 64 if TLIST[a[0]].nb > 32 or TLIST[a[0]].op == "const" else 32, a[1], a[2])
        if op == "fpowi":
            import models
            return models.m_powi_const(self.arg(a[0]), a[1]) if hasattr(models, "m_powi_const") else f2i(i2f(self.arg(a[0])) ** sx(a[1], 32))
        if op == "f2f":
            v = self.arg(a[0])
            return f2i32(i2f(v)) if a[1] == 32 else f2i(i2f32(v))
        if op[0] == "f" and len(a) == 1 and t.nb in (32, 64):
            return unary(op[1:], self.arg(a[0]), t.nb)
        # not interpreted: some function of its arguments
        try:
            ar = tuple(self.arg(x) for x in (a if type(a) is tuple else (a,)))
        except Exception:
            ar = a
        return random.Random(repr((op, ar, t.nb))).getrandbits(t.nb)

    # -- facts of the trace
    def holds(self):
        for a, b in S.sub.items():
            if self.atom(a) != self.bit(b):
                return False
        for kind, e in S.edges.items():
            for (x, y), st in e.items():
                p, q = self.node(kind, x), self.node(kind, y)
                if not (p < q if st else p <= q):
                    return False
        for kind, x, y in S.ne:
            if self.node(kind, x) == self.node(kind, y):
                return False
        for unk in S.nes:
            if not any(self.bit(x) for x in unk):
                return False
        for unk in S.nz:
            if unk and not any(self.bit(x) for x in unk):
                return False
        for n, r in S.nan.items():
            x = self.node("f", n)
            if (x != x) != bool(r):
                return False
        return True

    def node(self, kind, n):
        v = n[1] if n[0] == "c" else self.term(TLIST[n[1]])
        if kind == "f":
            return i2f(v)
        if kind == "g":
            return i2f32(v)
        if kind[0] == "s":
            return sx(v, int(kind[1:]))
        return v


def unary(nm, v, w):
    x = i2f(v) if w == 64 else i2f32(v)
    if x != x:
        return v
    if math.isinf(x):
        r = x
        if nm == "exp":
            r = math.inf if x > 0 else 0.0
        elif nm in ("sqrt", "log10", "log2", "ln"):
            r = math.inf if x > 0 else math.nan
    elif nm in ("floor", "ceil", "trunc", "round"):
        if abs(x) >= 2 ** 53:
            r = x
        else:
            if nm == "round":
                f = math.floor(abs(x))
                r = f + 1.0 if abs(x) - f >= 0.5 else float(f)
                r = math.copysign(r, x)
            else:
                r = math.copysign(float(getattr(math, nm)(x)), x)
    elif nm == "abs":
        r = abs(x)
    elif nm == "neg":
        r = -x
    else:
        try:
            r = {"sqrt": math.sqrt, "log10": math.log10, "log2": math.log2, "ln": math.log, "exp": math.exp}[nm](x)
        except (ValueError, OverflowError):
            r = math.nan
        except KeyError:
            return random.Random(repr((nm, v, w))).getrandbits(w)
    return f2i(r) if w == 64 else f2i32(r)


def bounds():
    """constant bounds of float inputs"""
    r = {}
    for (x, y), st in (S.edges.get("f") or {}).items():
        for n, o, side in ((x, y, 1), (y, x, 0)):
            if n[0] == "t" and o[0] == "c" and TLIST[n[1]].op == "in":
                lo, hi = r.get(n[1], (None, None))
                c = i2f(o[1])
                if side:
                    hi = c if hi is None else min(hi, c)
                else:
                    lo = c if lo is None else max(lo, c)
                r[n[1]] = (lo, hi)
    return r


def members(n=N):
    """consistent samples of the current trace"""
    b = bounds()
    for k in range(n):
        s = Sample(k, k % STYLES, b)
        try:
            if s.holds():
                yield s
        except (OverflowError, ZeroDivisionError, RecursionError):
            continue


def member(n=N):
    for s in members(n):
        return s
    return None


def agree(a, b, w, enough=150, tol=None):
    """True: every member found gives the two values equal (and enough were found); None: no member found"""
    k = 0
    for s in members():
        try:
            x, y = s.value(a, w), s.value(b, w)
            if x != y:
                if tol is None:
                    return False
                x, y = i2f(x), i2f(y)
                if not (x != x and y != y) and not abs(x - y) <= tol * max(abs(x), abs(y)):
                    return False
        except (OverflowError, ZeroDivisionError, RecursionError):
            continue
        k += 1
        if k >= enough:
            break
    return True if k >= 8 else None


def describe(s):
    r = []
    for tid, v in list(s.ins.items())[:8]:
        t = TLIST[tid]
        x = s.value(t, t.nb)
        r.append("%s = 0x%x%s" % (t.args, x, " (%r)" % i2f(x) if t.nb == 64 else ""))
    return r
