"""Abstract interpreter over resolved monomorphic MIR.

Forward analysis of the value domain of dom.py, trace-partitioned at branches the domain cannot decide and merged again
at the post-dominator when both arms only differ in scalar values.  Nothing of the analysed program is executed: the
inputs of an analysis are abstract (opaque terms / unknown bits).
"""
import math
import time
from dom import *
import dom

M64 = (1 << 64) - 1


class Agg:
    """struct / tuple / closure / enum value: variant index and fields"""
    __slots__ = ("v", "f")

    def __init__(self, v, f):
        self.v = v
        self.f = f

    def __repr__(self):
        return "Agg%d%r" % (self.v, self.f)


class Arr:
    """array value"""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return "Arr%r" % (self.f[:40],)


class Ptr:
    """c[i]: the pointee.  m: slice length or vtable type.  s: storage type when the pointer views it as another type
    (then o is the byte offset inside c[i])."""
    __slots__ = ("c", "i", "m", "s", "o")

    def __init__(self, c, i, m=None, s=None, o=0):
        self.c = c
        self.i = i
        self.m = m
        self.s = s
        self.o = o

    def __repr__(self):
        return "Ptr(%x,%r,m=%r,s=%r,o=%r)" % (id(self.c) & 0xFFFF, self.i, self.m, self.s, self.o)


class RV:
    """RawVec: the allocation"""
    __slots__ = ("a", "x")

    def __init__(self, a):
        self.a = a
        self.x = None


class FnV:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i


class Nat:
    """opaque library object with a Python payload"""
    __slots__ = ("k", "d")

    def __init__(self, k, d=None):
        self.k = k
        self.d = d

    def __repr__(self):
        return "Nat(%s,%r)" % (self.k, self.d)


class _U:
    def __repr__(self):
        return "UNINIT"


UNINIT = _U()
UNIT = Agg(0, [])


class Panic(Exception):
    def __init__(self, kind, where):
        self.kind = kind
        self.where = where

    def __str__(self):
        return "%s at %s" % (self.kind, self.where)


class UB(Exception):
    def __init__(self, what, where=""):
        self.what = what
        self.where = where

    def __str__(self):
        return "%s at %s" % (self.what, self.where)


class Undecided(Exception):
    pass


class Endless(Exception):
    """a trace of more basic blocks than any run on inputs of the analysed size can need"""


class TimeUp(Exception):
    pass


class Infeasible(Exception):
    pass


class NoMerge(Exception):
    pass


class Restart(Exception):
    pass


# ---------------------------------------------------------------------------------------------- path state
class S:
    """global path state"""
    prog = None
    trail = []
    pos = 0
    alts = []
    sub = {}
    nb_cache = {}
    edges = {}
    ne = set()
    nes = []
    lins = []
    nz = []
    nan = {}
    log = []
    fuel = 0
    fuel_max = 12000000
    fuel_seen = 0
    deadline = None
    J = None
    merge = 0
    nomerge = set()
    stack = []
    mem = {}
    visited = None
    depth = 0
    assumed = None


def where():
    st = [x for x in S.stack if x[0]["local"] or x[0]["crate"] in ("cuda_binding", "alp_binding")]
    if not st:
        st = S.stack[-1:]
    r = []
    for f, ln in st[-4:]:
        r.append("%s (%s:%s)" % (f["npath"], short(f.get("file", "?")), ln))
    return " < ".join(reversed(r))


def short(p):
    for m in ("/ebi/src/", "/cuda-binding/src/", "/alp-binding/src/"):
        i = p.find(m)
        if i >= 0:
            return p[i + 1:]
    return p


def norm_bit(x):
    if x < 2:
        return x
    sub = S.sub
    if not sub:
        return x
    r = S.nb_cache.get(x)
    if r is None:
        r = x & 1
        for a in SETS[x >> 1]:
            if a in sub:
                r = bxor(r, norm_bit(sub[a]))
            else:
                d = ATOMS[a]
                if d[0] == "and":
                    p = norm_bit(d[1])
                    q = norm_bit(d[2])
                    r = bxor(r, band(p, q))
                    # the re-evaluated conjunction may itself be substituted
                else:
                    r = bxor(r, setid(frozenset((a,))) << 1)
        S.nb_cache[x] = r
    return r


def norm(v, w):
    """value with the path's substitution applied"""
    if type(v) is int or not S.sub:
        return v
    b = bits(v, w)
    nb = tuple(norm_bit(x) for x in b)
    if nb == b:
        return v
    return mk(nb)


def assume_bit(x, val):
    x = norm_bit(x)
    if x < 2:
        if x != val:
            raise Infeasible()
        return
    s = SETS[x >> 1]
    piv = None
    for a in s:
        d = ATOMS[a]
        if d[0] != "and" and (piv is None or a > piv):
            piv = a
    if piv is None:
        if len(s) == 1:
            (a,) = s
            d = ATOMS[a]
            v = val ^ (x & 1)
            if v == 1:
                assume_bit(d[1], 1)
                assume_bit(d[2], 1)
                return
            piv = a
        else:
            piv = max(s)
    S.sub[piv] = bxor(bxor(x, setid(frozenset((piv,))) << 1), val)
    S.nb_cache = {}


def choose(n, why=""):
    """index of the alternative taken on this path"""
    if S.merge:
        raise NoMerge()
    if S.pos < len(S.trail):
        r = S.trail[S.pos]
    else:
        r = 0
        S.trail.append(0)
        S.alts.append((S.pos, n))
    S.pos += 1
    S.log.append((why, r))
    return r


def choose_bit(x, why=""):
    x = norm_bit(x)
    if x < 2:
        return x
    r = choose(2, why or ("bit %s" % show_bit(x)))
    assume_bit(x, r)
    return r


def decide(v, why=""):
    """truth of an abstract bool"""
    if type(v) is int:
        return v
    return choose_bit(bits(v, 1)[0], why)


def concretize(v, w, why="", limit=13):
    if type(v) is int:
        return v
    if type(v) not in (Term, BV):
        raise Undecided("%s: not a scalar: %r" % (why, v))
    b = [norm_bit(x) for x in bits(v, w)]
    unk = [i for i, x in enumerate(b) if x >= 2]
    if len(unk) > limit:
        raise Undecided("%s: %d unknown bits in %s at %s" % (why, len(unk), show(v, 80), where()))
    r = 0
    for i in range(w - 1, -1, -1):
        r |= choose_bit(b[i], why) << i
    return r


# ---- ordering facts ------------------------------------------------------------------------------------------
def _node(v):
    if type(v) is int:
        return ("c", v)
    if type(v) is BV:
        return ("t", term("bv", v.b, len(v.b)).id)
    return ("t", v.id)


def _cval(kind, c):
    if kind == "f":
        return i2f(c)
    if kind == "g":
        return i2f32(c)
    if kind[0] == "s":
        w = int(kind[1:])
        return c - (1 << w) if c >> (w - 1) else c
    return c


def relset(kind, a, b):
    """possible relations of a and b under the facts: subset of {-1,0,1} (a<b, a=b, a>b)"""
    if a == b:
        return {0}
    na, nb = _node(a), _node(b)
    e = S.edges.get(kind)
    nodes = set((na, nb))
    succ = {}
    if e:
        for (x, y), st in e.items():
            succ.setdefault(x, []).append((y, st))
            nodes.add(x)
            nodes.add(y)
    if kind[0] == "u":
        for nd in list(nodes):
            if nd[0] == "t":
                t = TLIST[nd[1]]
                lo, hi = t.lo, t.hi
                if t.op == "bv":
                    lo = hi = 0
                    for i, x in enumerate(t.args):
                        x = norm_bit(x)
                        if x == 1:
                            lo |= 1 << i
                        if x:
                            hi |= 1 << i
                nodes.add(("c", lo))
                nodes.add(("c", hi))
                succ.setdefault(("c", lo), []).append((nd, 0))
                succ.setdefault(nd, []).append((("c", hi), 0))
    elif kind == "f":
        for nd in list(nodes):
            if nd[0] == "t":
                r = frange(nd[1])
                if r is not None:
                    for c, up in ((r[0], 0), (r[1], 1)):
                        nodes.add(("c", c))
                        if up:
                            succ.setdefault(nd, []).append((("c", c), 0))
                        else:
                            succ.setdefault(("c", c), []).append((nd, 0))
    cs = sorted((n for n in nodes if n[0] == "c"), key=lambda n: _cval(kind, n[1]))
    for x, y in zip(cs, cs[1:]):
        succ.setdefault(x, []).append((y, 1 if _cval(kind, x[1]) < _cval(kind, y[1]) else 0))
        if _cval(kind, x[1]) == _cval(kind, y[1]):
            succ.setdefault(y, []).append((x, 0))

    def reach(s, d):
        best = {s: 0}
        q = [s]
        while q:
            x = q.pop()
            for y, st in succ.get(x, ()):
                n = best[x] | st
                if y not in best or n > best[y]:
                    best[y] = n
                    q.append(y)
        return best.get(d)

    ab = reach(na, nb)
    ba = reach(nb, na)
    r = {-1, 0, 1}
    if ab is not None:
        r &= {-1} if ab else {-1, 0}
    if ba is not None:
        r &= {1} if ba else {0, 1}
    if (kind, na, nb) in S.ne or (kind, nb, na) in S.ne:
        r.discard(0)
    if kind == "f" and 0 in r and (na[0] == "c") != (nb[0] == "c"):
        c, t = (na, nb) if na[0] == "c" else (nb, na)
        lo, hi = fmag(t[1])
        if not lo <= c[1] & ((1 << 63) - 1) <= hi:
            r.discard(0)
    return r


INF = 0x7FF << 52


def fmag(tid):
    """bounds of the magnitude pattern of a float that is not NaN, from its known bits"""
    t = TLIST[tid]
    lo = hi = 0
    for i, x in enumerate((t.args if t.op == "bv" else tbits(t, 64))[:63]):
        x = norm_bit(x)
        if x == 1:
            lo |= 1 << i
        if x:
            hi |= 1 << i
    return lo, min(hi, INF)


def frange(tid):
    t = TLIST[tid]
    b = t.args if t.op == "bv" else tbits(t, 64)
    s = norm_bit(b[63]) if len(b) > 63 else 0
    lo, hi = fmag(tid)
    n = 1 << 63
    if s == 0:
        return lo, hi
    if s == 1:
        return n | hi, n | lo
    if hi == INF and lo == 0:
        return None
    return n | hi, hi


def add_rel(kind, a, b, rs):
    na, nb = _node(a), _node(b)
    e = S.edges.setdefault(kind, {})
    if 1 not in rs:
        k = (na, nb)
        e[k] = max(e.get(k, 0), 0 if 0 in rs else 1)
    if -1 not in rs:
        k = (nb, na)
        e[k] = max(e.get(k, 0), 0 if 0 in rs else 1)
    if 0 not in rs:
        S.ne.add((kind, na, nb))


OPREL = {"Lt": {-1}, "Le": {-1, 0}, "Gt": {1}, "Ge": {0, 1}, "Eq": {0}, "Ne": {-1, 1}}


def rel_decide(kind, a, b, op):
    rs = relset(kind, a, b)
    if not rs:
        raise Infeasible()
    t = OPREL[op]
    if rs <= t:
        return 1
    if not (rs & t):
        return 0
    r = choose(2, "%s %s %s" % (show(a, 60), op, show(b, 60)))
    add_rel(kind, a, b, (rs & t) if r == 1 else (rs - t))
    return r


def eq_decide(a, b, w):
    """integer equality of w-bit values"""
    if type(a) is int and type(b) is int:
        return 1 if a == b else 0
    ba = bits(a, w)
    bb = bits(b, w)
    unk = []
    for x, y in zip(ba, bb):
        if x != y:
            d = norm_bit(bxor(x, y))
            if d == 1:
                return 0
            if d:
                unk.append(d)
    if not unk:
        return 1
    if len(unk) == 1:
        return choose_bit(unk[0], "%s != %s" % (show(a, 60), show(b, 60))) ^ 1
    kind = "u%d" % w
    na, nb = norm(a, w), norm(b, w)
    rs = relset(kind, na, nb)
    if 0 not in rs:
        return 0
    if rs == {0}:
        r = 1
    else:
        r = choose(2, "%s == %s" % (show(na, 60), show(nb, 60)))
    if r:
        for x in unk:
            assume_bit(x, 0)
    else:
        S.nes.append(unk)
        add_rel(kind, na, nb, {-1, 1} & rs)
    return r


def consistent():
    """prune a trace whose later splits contradict an earlier "not equal" decision"""
    for unk in S.nes:
        if all(norm_bit(x) == 0 for x in unk):
            raise Infeasible()


def ucmp(a, b, w, op):
    """unsigned comparison"""
    a = norm(a, w)
    b = norm(b, w)
    if type(a) is int and type(b) is int:
        if op == "Lt":
            return 1 if a < b else 0
        if op == "Le":
            return 1 if a <= b else 0
        if op == "Gt":
            return 1 if a > b else 0
        return 1 if a >= b else 0
    if a == b:
        return 1 if op in ("Le", "Ge") else 0
    ba, bb = bits(a, w), bits(b, w)
    i = w - 1
    while i >= 0:
        x, y = ba[i], bb[i]
        if x == y:
            i -= 1
            continue
        if x < 2 and y < 2:
            return 1 if (op in ("Lt", "Le")) == (x < y) else 0
        break
    # interval from known bits
    alo = sum(1 << k for k in range(w) if ba[k] == 1)
    ahi = sum(1 << k for k in range(w) if ba[k] != 0)
    blo = sum(1 << k for k in range(w) if bb[k] == 1)
    bhi = sum(1 << k for k in range(w) if bb[k] != 0)
    if type(a) is Term:
        alo, ahi = max(alo, a.lo), min(ahi, a.hi)
    if type(b) is Term:
        blo, bhi = max(blo, b.lo), min(bhi, b.hi)
    if op == "Lt":
        if ahi < blo:
            return 1
        if alo >= bhi:
            return 0
    elif op == "Le":
        if ahi <= blo:
            return 1
        if alo > bhi:
            return 0
    elif op == "Gt":
        if alo > bhi:
            return 1
        if ahi <= blo:
            return 0
    else:
        if alo >= bhi:
            return 1
        if ahi < blo:
            return 0
    unk = sum(1 for k in range(i + 1) if ba[k] >= 2 or bb[k] >= 2)
    structured = type(a) is BV or type(b) is BV
    if structured and (type(a) is int or type(b) is int) and unk <= 16:
        return _bitsplit(ba, bb, i, op)
    r = rel_decide("u%d" % w, a, b, op)
    # t < 2^k: the upper bits are zero
    if type(b) is int and ((op == "Lt" and r) or (op == "Ge" and not r)) and b & (b - 1) == 0:
        for k in range(b.bit_length() - 1, w):
            assume_bit(ba[k], 0)
    elif type(b) is int and ((op == "Le" and r) or (op == "Gt" and not r)) and b & (b + 1) == 0:
        for k in range(b.bit_length(), w):
            assume_bit(ba[k], 0)
    return r


def _bitsplit(ba, bb, i, op):
    while i >= 0:
        x, y = norm_bit(ba[i]), norm_bit(bb[i])
        if x != y:
            d = bxor(x, y)
            if choose_bit(d, "order bit %d" % i):
                xv = choose_bit(x)
                return 1 if (op in ("Lt", "Le")) == (xv == 0) else 0
        i -= 1
    return 1 if op in ("Le", "Ge") else 0


def scmp(a, b, w, op):
    if type(a) is int and type(b) is int:
        h = 1 << (w - 1)
        return ucmp(a ^ h, b ^ h, w, op)
    a = norm(a, w)
    b = norm(b, w)
    # decide by sign bits / known bits
    ba, bb = bits(a, w), bits(b, w)
    if ba[w - 1] < 2 and bb[w - 1] < 2:
        if ba[w - 1] == bb[w - 1]:
            return ucmp(a, b, w, op)
        return 1 if (op in ("Lt", "Le")) == (ba[w - 1] == 1) else 0
    if b == 0 and op in ("Lt", "Ge"):
        x = choose_bit(ba[w - 1], "%s < 0" % show(a, 60))
        return x if op == "Lt" else x ^ 1
    if (type(a) is BV or type(b) is BV) and (type(a) is int or type(b) is int) and sum(1 for x in ba + bb if x >= 2) <= 16:
        return _bitsplit(ba[:w - 1] + (bxor(ba[w - 1], 1),), bb[:w - 1] + (bxor(bb[w - 1], 1),), w - 1, op)
    return rel_decide("s%d" % w, a, b, op)


def isnan(v, w=64):
    if type(v) is int:
        x = i2f(v) if w == 64 else i2f32(v)
        return 1 if x != x else 0
    v = norm(v, w)
    if type(v) is int:
        return isnan(v, w)
    b = bits(v, w)
    e = b[52:63] if w == 64 else b[23:31]
    if any(x == 0 for x in e):
        return 0
    if 1 in (b[:52] if w == 64 else b[:23]) and all(x == 1 for x in e):
        return 1
    if w == 64 and type(v) is Term:
        if v.op in ("i2f", "s2f", "abs_fin"):
            return 0
        if v.op in ("fmul", "fdiv", "fadd", "fsub"):
            x, y = (TLIST[i] for i in v.args)
            for c, o in ((y, x),) if v.op == "fdiv" else ((y, x), (x, y)):
                if c.op == "const" and 0 < c.args & ~(1 << 63) < INF or v.op in ("fadd", "fsub") and c.op == "const" and c.args & ~(1 << 63) < INF:
                    # a finite (nonzero) constant never makes a NaN out of a number
                    return isnan(unbv(o), 64) if o.op != "const" else 0
        if v.op in ("ffloor", "fceil", "ftrunc", "fround"):
            return isnan(unbv(TLIST[v.args[0]]), 64)
    k = _node(v)
    r = S.nan.get(k)
    if r is None:
        r = choose(2, "%s is NaN" % show(v, 60))
        S.nan[k] = r
    return r


def fcmp(a, b, w, op):
    if type(a) is int and type(b) is int:
        x, y = (i2f(a), i2f(b)) if w == 64 else (i2f32(a), i2f32(b))
        return 1 if {"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y, "Eq": x == y, "Ne": x != y}[op] else 0
    a = norm(a, w)
    b = norm(b, w)
    if isnan(a, w) or isnan(b, w):
        return 1 if op == "Ne" else 0
    if w == 64:  # nothing lies beyond an infinity
        top = a == 0x7FF0000000000000 or b == 0xFFF0000000000000
        if top or a == 0xFFF0000000000000 or b == 0x7FF0000000000000:
            op = {"Lt": 0, "Ge": 1, "Gt": "Ne", "Le": "Eq"}.get(op, op) if top else {"Gt": 0, "Le": 1, "Lt": "Ne", "Ge": "Eq"}.get(op, op)
            if type(op) is int:
                return op
    if w == 64:
        x, y = exact_int(a), exact_int(b)
        if x and y and (type(a) is not int or type(b) is not int):
            n = max(x[1], y[1])
            p, q = shl_exact(x, n), shl_exact(y, n)
            if p is not None and q is not None:
                return ucmp2(p, q, op)
    return rel_decide("f" if w == 64 else "g", a, b, op)


def exact_int(v):
    """(x, n) if the float v is x / 2^n for a non-negative integer x below 2^53, else None"""
    if type(v) is int:
        if v >> 63 or v >> 52 == 0x7FF:
            return None
        f = i2f(v)
        m, d = f.as_integer_ratio()
        n = d.bit_length() - 1
        return (m, n) if m < 1 << 53 and n < 60 else None
    if type(v) is not Term:
        return None
    n = 0
    if v.op == "fmul":
        x, y = (TLIST[i] for i in v.args)
        if x.op == "const":
            x, y = y, x
        if y.op != "const" or y.args & ((1 << 52) - 1) or y.args >> 63:
            return None
        n = 1023 - (y.args >> 52)
        v = x
        if not 0 <= n < 60:
            return None
    if type(v) is not Term or v.op not in ("s2f", "i2f") or v.args[1] != 64:
        return None
    x = norm(unbv(TLIST[v.args[0]]), 64)
    if any(norm_bit(b) != 0 for b in bits(x, 64)[53:]):
        return None
    return (x, n)


def shl_exact(x, n):
    x, m = x
    if type(x) is int:
        return x << (n - m) if (x << (n - m)) < 1 << 63 else None
    b = bits(x, 64)
    k = n - m
    if k and any(norm_bit(t) != 0 for t in b[64 - k - 1:]):
        return None
    return mk((0,) * k + tuple(b[: 64 - k])) if k else x


def ucmp2(a, b, op):
    if op in ("Eq", "Ne"):
        r = eq_decide(a, b, 64)
        return r if op == "Eq" else r ^ 1
    return ucmp(a, b, 64, op)


# ---------------------------------------------------------------------------------------------- scalar operations
def sx(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def o_add(a, b, w):
    if type(a) is int and type(b) is int:
        return (a + b) & ((1 << w) - 1)
    if b == 0:
        return a
    if a == 0:
        return b
    # disjoint bits: addition is or
    ba, bb = bits(a, w), bits(b, w)
    if all(x == 0 or y == 0 for x, y in zip(ba, bb)):
        return mk(tuple(x | y for x, y in zip(ba, bb)))
    ca, ia = lin_of(recog(a, w), w)
    cb, ib = lin_of(recog(b, w), w)
    for t, k in ib.items():
        ia[t] = ia.get(t, 0) + k
    return reg_lin(mk_lin(ca + cb, ia, w))


def o_sub(a, b, w):
    if type(a) is int and type(b) is int:
        return (a - b) & ((1 << w) - 1)
    if b == 0:
        return a
    if a == b:
        return 0
    if a == 0:
        bb = bits(b, w)
        if all(x == 0 for x in bb[1:]):
            return mk((bb[0],) * w)  # -(bit)
        if len(set(bb)) == 1:
            return mk((bb[0],) + (0,) * (w - 1))  # -(all ones or zero)
    if type(b) is int and b == 1:
        ba = bits(a, w)
        if all(x == 0 for x in ba[1:]):  # bit - 1
            return mk((ba[0] ^ 1,) * w)
    ca, ia = lin_of(recog(a, w), w)
    cb, ib = lin_of(recog(b, w), w)
    for t, k in ib.items():
        ia[t] = ia.get(t, 0) - k
    return reg_lin(mk_lin(ca - cb, ia, w))


def reg_lin(t):
    if type(t) is Term and t.op == "lin" and t not in S.lins:
        S.lins.append(t)
    return t


def recog(v, w):
    """the sum a bit vector is, when its bits are those of a sum formed earlier on this trace"""
    if type(v) is not BV or not S.lins:
        return v
    nb = None
    for t in S.lins:
        if t.nb != w:
            continue
        if nb is None:
            nb = [norm_bit(x) for x in bits(v, w)]
        for x, y in zip(tbits(t, w), nb):
            if norm_bit(x) != y:
                break
        else:
            return t
    return v


def o_mul(a, b, w):
    if type(a) is int and type(b) is int:
        return (a * b) & ((1 << w) - 1)
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return o_shl(a, b.bit_length() - 1, w)
        c, it = lin_of(a, w)
        return mk_lin(c * b, {t: k * b for t, k in it.items()}, w)
    x, y = sorted((vkey(a), vkey(b)))
    return term("mul", (x, y), w)


def vkey(v):
    if type(v) is int:
        return term("const", v, max(1, v.bit_length())).id
    if type(v) is BV:
        return term("bv", v.b, len(v.b)).id
    return v.id


def o_div(a, b, w, sg):
    if type(a) is int and type(b) is int:
        if sg:
            x, y = sx(a, w), sx(b, w)
            q = abs(x) // abs(y)
            return (q if (x < 0) == (y < 0) else -q) & ((1 << w) - 1)
        return a // b
    if type(b) is int and b & (b - 1) == 0 and b:
        if not sg or norm_bit(bits(a, w)[w - 1]) == 0:
            return o_shr(a, b.bit_length() - 1, w, False)
    return term("div" if not sg else "sdiv", (vkey(a), vkey(b)), w)


def o_rem(a, b, w, sg):
    if type(a) is int and type(b) is int:
        if sg:
            x, y = sx(a, w), sx(b, w)
            r = abs(x) % abs(y)
            return (-r if x < 0 else r) & ((1 << w) - 1)
        return a % b
    if type(b) is int and b & (b - 1) == 0 and b:
        if not sg or norm_bit(bits(a, w)[w - 1]) == 0:
            return o_and(a, b - 1, w)
    if type(b) is int and not sg:
        return term("rem", (vkey(a), vkey(b)), max(1, (b - 1).bit_length()))
    return term("srem" if sg else "rem", (vkey(a), vkey(b)), w)


def o_and(a, b, w):
    if type(a) is int and type(b) is int:
        return a & b
    return mk(tuple(band(x, y) for x, y in zip(bits(a, w), bits(b, w))))


def o_or(a, b, w):
    if type(a) is int and type(b) is int:
        return a | b
    return mk(tuple(bor(x, y) for x, y in zip(bits(a, w), bits(b, w))))


def o_xor(a, b, w):
    if type(a) is int and type(b) is int:
        return a ^ b
    return mk(tuple(bxor(x, y) for x, y in zip(bits(a, w), bits(b, w))))


def o_not(a, w):
    if type(a) is Term and a.op == "lin" and a.nb == w:
        c, it = lin_of(a, w)
        return mk_lin(-1 - c, {t: -k for t, k in it.items()}, w)
    if type(a) is int:
        return a ^ ((1 << w) - 1)
    return mk(tuple(x ^ 1 for x in bits(a, w)))


def o_shl(a, n, w):
    if n >= w:
        n %= w
    if type(a) is int:
        return (a << n) & ((1 << w) - 1)
    return mk((0,) * n + bits(a, w)[: w - n])


def o_shr(a, n, w, sg):
    if n >= w:
        n %= w
    if type(a) is int:
        if sg:
            return (sx(a, w) >> n) & ((1 << w) - 1)
        return a >> n
    b = bits(a, w)
    return mk(b[n:] + ((b[w - 1] if sg else 0),) * n)


def shamt(n, wn):
    """shift amount"""
    if type(n) is int:
        return n
    return concretize(n, wn, "shift amount")


def i2i(v, wf, sf, wt):
    if type(v) is int:
        if wt <= wf:
            return v & ((1 << wt) - 1)
        if sf and v >> (wf - 1):
            return v | (((1 << wt) - 1) ^ ((1 << wf) - 1))
        return v
    if type(v) is Agg:
        raise Undecided("cast of enum")
    b = bits(v, wf)
    if wt <= wf:
        if type(v) is Term and v.op == "lin" and wt < wf:
            # truncation of a sum is the sum of truncations
            c, it = v.args[0], dict(v.args[1])
            if all(TLIST[t].nb <= wt for t in it):
                return mk_lin(c, it, wt)
        return mk(b[:wt])
    return mk(b + ((b[wf - 1] if sf else 0),) * (wt - wf))


def _fl(v, w):
    return i2f(v) if w == 64 else i2f32(v)


def _fi(x, w):
    return f2i(x) if w == 64 else f2i32(x)


def fbin(op, a, b, w):
    if op == "Div" and w == 64 and type(b) is int and type(a) is not int and b & ((1 << 52) - 1) == 0 and 1 <= (b >> 52) & 0x7FF <= 2045:
        # dividing by a power of two is multiplying by its reciprocal
        op, b = "Mul", b & (1 << 63) | (2046 - ((b >> 52) & 0x7FF)) << 52
    if op == "Mul" and w == 64 and b == 0x3FF << 52 and type(a) is not int:
        return a
    if op == "Mul" and w == 64 and a == 0x3FF << 52 and type(b) is not int:
        return b
    if type(a) is int and type(b) is int:
        x, y = _fl(a, w), _fl(b, w)
        try:
            if op == "Add":
                r = x + y
            elif op == "Sub":
                r = x - y
            elif op == "Mul":
                r = x * y
            elif op == "Div":
                if y == 0:
                    if x == 0 or x != x:
                        r = math.nan
                    else:
                        r = math.copysign(math.inf, x) * math.copysign(1.0, y)
                else:
                    r = x / y
            else:
                r = math.fmod(x, y) if y != 0 and not math.isinf(x) else math.nan
        except OverflowError:
            r = math.inf
        return _fi(r, w)
    x, y = vkey(norm(a, w)), vkey(norm(b, w))
    if op in ("Add", "Mul") and x > y:
        x, y = y, x
    return term("f" + op.lower(), (x, y), w)


def i2fl(v, w, sg, wt):
    if type(v) is int:
        return _fi(float(sx(v, w) if sg else v), wt)
    v = norm(v, w)
    if type(v) is int:
        return i2fl(v, w, sg, wt)
    if sg and bits(v, w)[w - 1] == 0:
        sg = False
    if type(v) is BV and not sg:
        v = mk(v.b)
    return term("s2f" if sg else "i2f", (vkey(v), wt), wt)


def fl2i(v, wf, w, sg):
    if type(v) is int:
        x = _fl(v, wf)
        if x != x:
            return 0
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        if x == math.inf:
            r = hi
        elif x == -math.inf:
            r = lo
        else:
            r = min(hi, max(lo, int(x)))
        return r & ((1 << w) - 1)
    return term("f2i", (vkey(norm(v, wf)), w, sg), w)


# ---------------------------------------------------------------------------------------------- memory
def cp(v):
    t = type(v)
    if t is Agg:
        if not v.f:
            return v
        return Agg(v.v, [cp(x) for x in v.f])
    if t is Arr:
        f = v.f
        if f and type(f[0]) in (Agg, Arr):
            return Arr([cp(x) for x in f])
        return Arr(list(f))
    return v


def st(c, k, v, w=None):
    if S.J is not None:
        S.J.append((c, k, c[k], w))
    c[k] = v


def ld(p, t):
    if type(p) is not Ptr:
        raise (UB if type(p) is int else Undecided)("load through %r" % (p,))
    if p.s is not None:
        return ld_view(p, t)
    i = p.i
    try:
        if i < 0:
            raise IndexError
        v = p.c[i]
    except IndexError:
        raise UB("read outside the allocation (index %d of %d)" % (i, len(p.c)), where())
    if v is UNINIT:
        if sizeof(t) == 0:
            return UNIT
        raise UB("read of uninitialised memory (index %d)" % i, where())
    return v


def sto(p, v, t):
    if type(p) is not Ptr:
        raise (UB if type(p) is int else Undecided)("store through %r" % (p,))
    if p.s is not None:
        return st_view(p, v, t)
    i = p.i
    c = p.c
    if i >= len(c):
        if i > len(c) + 70000:
            raise UB("write far outside the allocation (index %d of %d)" % (i, len(c)), where())
        if S.J is not None:
            raise NoMerge()
        while len(c) < i:
            c.append(UNINIT)
        c.append(v)
        return
    if i < 0:
        raise UB("write outside the allocation", where())
    if S.J is not None:
        S.J.append((c, i, c[i], TW.get(t)))
    c[i] = v


TW = {}  # type id -> bit width of scalar types
SZ = {}


def sizeof(t):
    r = SZ.get(t)
    if r is None:
        r = SZ[t] = S.prog.tys[t].get("size", 0)
    return r


def canon(t):
    """type id with erased wrappers stripped"""
    r = CANON.get(t)
    if r is None:
        ty = S.prog.tys[t]
        k = ty["k"]
        if k == "pat":
            r = canon(ty["elem"])
        elif k in ("struct", "union") and ty["path"] in ERASED:
            r = canon(ty["variants"][0][2][ERASED[ty["path"]]][1])
        elif k == "struct" and len(ty["variants"][0][2]) == 1 and S.prog.tys[ty["variants"][0][2][0][1]]["k"] in ("int", "uint", "float") and False:
            r = t
        else:
            r = t
        CANON[t] = r
    return r


CANON = {}
ERASED = {
    "std::mem::MaybeUninit": 1,
    "std::mem::ManuallyDrop": 0,
    "std::mem::MaybeDangling": 0,
    "std::ptr::NonNull": 0,
    "std::ptr::Unique": 0,
    "std::boxed::Box": 0,
    "core::ptr::unique::Unique": 0,
    "core::mem::maybe_dangling::MaybeDangling": 0,
    "core::mem::MaybeDangling": 0,
}


def bits_of(v, t):
    """the value's bits in memory (padding: 0; None if uninitialised)"""
    t = canon(t)
    ty = S.prog.tys[t]
    k = ty["k"]
    if v is UNINIT:
        return [None] * (8 * sizeof(t))
    if k in ("int", "uint", "float", "bool", "char"):
        w = TW[t]
        b = bits(v, w)
        if w == 1:
            b = b + (0,) * 7
        return list(b)
    if k == "array":
        r = []
        for x in v.f:
            r += bits_of(x, ty["elem"])
        return r
    if k in ("struct", "tuple", "closure"):
        fts = [f[1] for f in ty["variants"][0][2]] if k == "struct" else ty["elems"] if k == "tuple" else ty["up"]
        r = [0] * (8 * sizeof(t))
        for x, ft, o in zip(v.f, fts, ty.get("off", [])):
            b = bits_of(x, ft)
            r[8 * o: 8 * o + len(b)] = b
        return r
    if k == "enum":
        r = [0] * (8 * sizeof(t))
        if "single" in ty and not v.f:
            return r
        if "tag" in ty:
            to, ts, enc = ty["tag"]
            if enc[0] == "direct":
                d = ty["variants"][v.v][1] & ((1 << (8 * ts)) - 1)
                r[8 * to: 8 * to + 8 * ts] = bits(d, 8 * ts)
                for x, (fn, ft), o in zip(v.f, ty["variants"][v.v][2], ty["voff"][v.v]):
                    b = bits_of(x, ft)
                    r[8 * o: 8 * o + len(b)] = b
                return r
    raise Undecided("bytes of %s" % ty["name"])


def of_bits(b, t):
    t = canon(t)
    ty = S.prog.tys[t]
    k = ty["k"]
    if k in ("int", "uint", "float", "bool", "char"):
        w = TW[t]
        b = b[:w]
        if None in b:
            return UNINIT
        return mk(tuple(b))
    if k == "array":
        n = 8 * sizeof(ty["elem"])
        return Arr([of_bits(b[i * n: i * n + n], ty["elem"]) for i in range(ty["n"])])
    if k in ("struct", "tuple"):
        fts = [f[1] for f in ty["variants"][0][2]] if k == "struct" else ty["elems"]
        return Agg(0, [of_bits(b[8 * o: 8 * o + 8 * sizeof(ft)], ft) for ft, o in zip(fts, ty.get("off", [0] * len(fts)))])
    if k == "enum" and "tag" in ty and ty["tag"][2][0] == "direct":
        to, ts, enc = ty["tag"]
        tv = b[8 * to: 8 * to + 8 * ts]
        d = mk(tuple(tv))
        if type(d) is not int:
            d = concretize(d, 8 * ts, "enum tag")
        for vi, (nm, dv, fs) in enumerate(ty["variants"]):
            if dv & ((1 << (8 * ts)) - 1) == d:
                return Agg(vi, [of_bits(b[8 * o: 8 * o + 8 * sizeof(ft)], ft) for (fn, ft), o in zip(fs, ty["voff"][vi])])
        raise UB("invalid enum tag %d for %s" % (d, ty["name"]), where())
    if k in ("fndef",):
        return FnV(ty["fn"])
    if sizeof(t) == 0:
        return UNIT
    raise Undecided("value of type %s from bytes" % ty["name"])


def ld_view(p, t):
    n = sizeof(t)
    if n == 0:
        return UNIT
    r = of_bits(view_bits(p, n), t)
    if r is UNINIT:
        raise UB("read of uninitialised memory", where())
    return r


def view_bits(p, n):
    """the bits of n bytes behind a reinterpreting pointer"""
    ss = sizeof(p.s)
    need = p.o + n
    out = []
    i = p.i
    c = p.c
    while need > 0:
        if i < 0 or i >= len(c):
            raise UB("read outside the allocation", where())
        v = c[i]
        if ss == 1 and type(v) is not Agg and v is not UNINIT:
            out += bits(v, 8)
        elif v is UNINIT:
            raise UB("read of uninitialised memory", where())
        else:
            out += bits_of(v, p.s)
        need -= ss
        i += 1
    return out[8 * p.o: 8 * (p.o + n)]


def st_view(p, v, t):
    n = sizeof(t)
    if n == 0:
        return
    ss = sizeof(p.s)
    b = bits_of(v, t)
    i, o = p.i, p.o
    c = p.c
    while b:
        k = min(ss - o, len(b) // 8)
        while i >= len(c):
            if S.J is not None:
                raise NoMerge()
            c.append(UNINIT)
        if k == ss:
            nv = of_bits(b[: 8 * k], p.s)
        else:
            old = bits_of(c[i], p.s)
            old[8 * o: 8 * (o + k)] = b[: 8 * k]
            nv = of_bits_partial(old, p.s)
        st(c, i, nv, TW.get(p.s))
        b = b[8 * k:]
        o = 0
        i += 1


def of_bits_partial(b, t):
    if None in b:
        b = [0 if x is None else x for x in b]
    return of_bits(b, t)


def same_layout(a, b):
    a, b = canon(a), canon(b)
    if a == b:
        return True
    x, y = S.prog.tys[a], S.prog.tys[b]
    if x["k"] == "array" and y["k"] == "array" and x["n"] == y["n"]:
        return same_layout(x["elem"], y["elem"])
    if x["k"] in ("ref", "ptr", "fnptr") and y["k"] in ("ref", "ptr", "fnptr"):
        return True
    if x["k"] in ("slice", "str") and y["k"] in ("slice", "str"):
        ex = x.get("elem")
        ey = y.get("elem")
        if ex is None or ey is None:
            return (ex is None or sizeof(ex) == 1) and (ey is None or sizeof(ey) == 1)
        return same_layout(ex, ey)
    if x["k"] == "dyn" or y["k"] == "dyn":
        return True
    if x["k"] in ("int", "uint") and y["k"] in ("int", "uint") and x["bits"] == y["bits"]:
        return True
    if x["k"] in ("struct", "enum", "union") and y["k"] == x["k"] and x["path"] == y["path"] and x.get("size") == y.get("size"):
        return True
    return False


def pcast(p, f, t):
    """pointer cast: f, t pointee types"""
    if type(p) is not Ptr:
        return p
    ff, tt = S.prog.tys[canon(f)], S.prog.tys[canon(t)]
    fe = ff["elem"] if ff["k"] == "slice" else f
    te = tt["elem"] if tt["k"] == "slice" else t
    m = p.m
    if ff["k"] in ("slice", "str") and tt["k"] not in ("slice", "str"):
        m = None
    if ff["k"] == "array" and tt["k"] == "array" and not same_layout(f, t):
        fe, te = ff["elem"], tt["elem"]
    if p.s is not None:
        if same_layout(p.s, te) and p.o == 0:
            return Ptr(p.c, p.i, m)
        st_ = S.prog.tys[canon(p.s)]
        return Ptr(p.c, p.i, m, p.s, p.o)
    if ff["k"] == "str" or tt["k"] == "str":
        return Ptr(p.c, p.i, m)
    if same_layout(fe, te):
        return Ptr(p.c, p.i, m) if m is not p.m else p
    fk = S.prog.tys[canon(fe)]
    if fk["k"] == "array" and sizeof(fe) and S.prog.tys[canon(te)]["k"] != "array":
        # to the first element
        return pcast(Ptr(p.c[p.i].f, 0, m), fk["elem"], te)
    # single-field struct around the target
    if fk["k"] == "struct" and sizeof(fe) == sizeof(te):
        nz = [(i, x[1]) for i, x in enumerate(fk["variants"][0][2]) if sizeof(x[1])]
        if len(nz) == 1 and same_layout(nz[0][1], te):
            return Ptr(p.c[p.i].f, nz[0][0], m)
    tk = S.prog.tys[canon(te)]
    if sizeof(fe) == 0 or sizeof(te) == 0:
        return Ptr(p.c, p.i, m)
    return Ptr(p.c, p.i, m, canon(fe), 0)


def padd(p, n, t):
    """pointer + n elements of type t (n signed)"""
    if type(p) is not Ptr:
        if type(p) is int and type(n) is int:
            return (p + n * sizeof(t)) & M64
        raise Undecided("pointer arithmetic on %r" % (p,))
    if type(n) is not int:
        n = sx(concretize(n, 64, "pointer offset"), 64)
    if n == 0:
        return p
    if p.s is None:
        return Ptr(p.c, p.i + n, p.m)
    ss = sizeof(p.s)
    o = p.i * ss + p.o + n * sizeof(t)
    return Ptr(p.c, o // ss, p.m, p.s, o % ss)


def el(p, i, t):
    """&p[i] for a slice pointer p with elements of type t"""
    if type(i) is not int:
        i = concretize(i, 64, "index")
    if type(p) is not Ptr:
        raise Undecided("index into %r" % (p,))
    if p.s is None:
        return Ptr(p.c, p.i + i)
    return padd(Ptr(p.c, p.i, None, p.s, p.o), i, t)


def idx(i, n=None):
    if type(i) is int:
        return i
    return concretize(i, 64, "index")


def paddr(p, t):
    """(container, byte position)"""
    if type(p) is int:
        return (0, p)
    ss = sizeof(p.s) if p.s is not None else max(sizeof(t), 1)
    return (id(p.c), p.i * ss + p.o)


def pcmp(op, a, b, t):
    if type(a) is FnV or type(b) is FnV:
        raise Undecided("function pointer comparison")
    x, y = paddr(a, t), paddr(b, t)
    if op == "Eq":
        return 1 if x == y else 0
    if op == "Ne":
        return 1 if x != y else 0
    if x[0] != y[0]:
        raise Undecided("ordering of unrelated pointers")
    return 1 if {"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op] else 0


def pdiff(a, b, t):
    if type(a) is Ptr and type(b) is Ptr and a.c is b.c:
        if a.s is None and b.s is None:
            return a.i - b.i
        x, y = paddr(a, t), paddr(b, t)
        return (x[1] - y[1]) // max(1, sizeof(t))
    raise Undecided("difference of unrelated pointers")


# ---------------------------------------------------------------------------------------------- code generation
class CFn:
    __slots__ = ("rec", "blocks", "n", "argc", "cfg", "ipdom")


def scalar(ty):
    return ty["k"] in ("int", "uint", "float", "bool", "char")


class Gen:
    def __init__(self, it, f):
        self.it = it
        self.p = it.prog
        self.f = f
        self.K = []
        self.lt = f["locals"]

    def const(self, v):
        self.K.append(v)
        return "K[%d]" % (len(self.K) - 1)

    # -- places: returns (form, type, variant)
    #   form = ("L", n) | ("E", cexpr, kexpr) | ("D", pexpr) | ("V", expr)
    def place(self, pl):
        form = ("L", pl[0])
        t = self.lt[pl[0]]
        var = None
        for e in pl[1]:
            ty = self.p.tys[t]
            k = e[0]
            if k == "*":
                ct = self.p.tys[canon(t)]
                form = ("D", self.read(form, t))
                t = ct["elem"]
                var = None
            elif k == "f":
                i, ft = e[1], e[2]
                if ty["k"] in ("struct", "union") and ty["path"] in ERASED:
                    if i == ERASED[ty["path"]]:
                        pass
                    else:
                        form = ("V", "UNIT")
                elif ty["k"] == "pat":
                    pass
                elif ty["k"] == "union":
                    form = ("E", self.read(form, t, True) + ".f", "0")
                elif self.p.tys[ft]["k"] == "slice":
                    form = ("D", "tailsl(%s.f[%d])" % (self.read(form, t, True), i))
                else:
                    form = ("E", self.read(form, t, True) + ".f", str(i))
                t = ft
                var = None
            elif k == "i":
                if ty["k"] == "array":
                    form = ("E", self.read(form, t, True) + ".f", "idx(L[%d])" % e[1])
                    t = ty["elem"]
                else:
                    t = ty["elem"]
                    form = ("D", "el(%s,L[%d],%d)" % (self.ptr(form), e[1], t))
                var = None
            elif k == "c":
                off, mn, fe = e[1], e[2], e[3]
                if ty["k"] == "array":
                    i = ty["n"] - off if fe else off
                    form = ("E", self.read(form, t, True) + ".f", str(i))
                    t = ty["elem"]
                else:
                    t = ty["elem"]
                    pe = self.ptr(form)
                    form = ("D", ("el2(%s,%d,%d)" if fe else "el(%s,%d,%d)") % (pe, off, t))
                var = None
            elif k == "s":
                fr, to, fe = e[1], e[2], e[3]
                if ty["k"] == "array":
                    form = ("V", "subarr(%s,%d,%d,%r)" % (self.read(form, t, True), fr, to, fe))
                else:
                    form = ("D", "subsl(%s,%d,%d,%r,%d)" % (self.ptr(form), fr, to, fe, ty["elem"]))
                var = None
            elif k == "d":
                var = e[1]
            else:
                pass
        return form, t

    def ptr(self, form):
        """expression for a pointer to the place"""
        if form[0] == "L":
            return "Ptr(L,%d)" % form[1]
        if form[0] == "E":
            return "Ptr(%s,%s)" % (form[1], form[2])
        if form[0] == "D":
            return form[1]
        return "Ptr([%s],0)" % form[1]

    def read(self, form, t, mut=False):
        if form[0] == "L":
            return "L[%d]" % form[1]
        if form[0] == "E":
            return "%s[%s]" % (form[1], form[2])
        if form[0] == "D":
            return "ld(%s,%d)" % (form[1], t)
        return form[1]

    def write(self, form, t, expr):
        if form[0] == "L":
            return "L[%d]=%s" % (form[1], expr)
        if form[0] == "E":
            return "st(%s,%s,%s,%r)" % (form[1], form[2], expr, TW.get(canon(t)))
        if form[0] == "D":
            return "sto(%s,%s,%d)" % (form[1], expr, t)
        return "0"

    def is_agg(self, t):
        return self.p.tys[canon(t)]["k"] in ("struct", "tuple", "enum", "array", "closure", "union")

    def op(self, o):
        """-> (expr, type)"""
        if o[0] in ("c", "m"):
            form, t = self.place(o[1])
            e = self.read(form, t)
            if o[0] == "c" and self.is_agg(t):
                e = "cp(%s)" % e
            return e, t
        if o[0] == "k":
            return self.konst(o[1])
        if o[0] == "rc":
            # runtime checks (ub_checks etc.): off
            return ("1" if "verflow" in o[1] else "0"), None
        raise RuntimeError(o)

    def konst(self, c):
        t = c[1]
        if c[0] == "F":
            return self.const(FnV(c[2])), t
        if c[0] == "Z":
            return self.zst(t), t
        if c[0] == "U":
            return "undef(%d)" % t, t
        v = self.it.const_value(t, c[2])
        if type(v) is int:
            return str(v), t
        k = self.const(v)
        if type(v) in (Agg, Arr):
            return "cp(%s)" % k, t
        return k, t

    def zst(self, t):
        ty = self.p.tys[t]
        if ty["k"] == "fndef":
            return self.const(FnV(ty["fn"]))
        return self.const(self.it.zst_value(t)) if ty["k"] != "array" else "Arr([])"

    def width(self, t):
        return TW.get(canon(t))

    def rvalue(self, r, dt):
        k = r[0]
        if k == "use":
            return self.op(r[1])[0]
        if k == "ref":
            form, t = self.place(r[2])
            if form[0] == "L":
                return "Ptr(L,%d)" % form[1]
            return self.ptr(form)
        if k == "agg":
            ak = r[1]
            ops = [self.op(o)[0] for o in r[2]]
            if ak[0] == "arr":
                return "Arr([%s])" % ",".join(ops)
            if ak[0] == "tup":
                return "Agg(0,[%s])" % ",".join(ops) if ops else "UNIT"
            if ak[0] == "adt":
                ty = self.p.tys[ak[1]]
                if ty["k"] in ("struct", "union") and ty["path"] in ERASED:
                    if ty["k"] == "union":
                        return ops[0] if ak[3] == ERASED[ty["path"]] else "UNINIT"
                    return ops[ERASED[ty["path"]]]
                if ty["k"] == "union":
                    return "Agg(%d,[%s])" % (max(0, ak[3]), ",".join(ops))
                return "Agg(%d,[%s])" % (ak[2], ",".join(ops))
            if ak[0] == "clo":
                return "Agg(0,[%s])" % ",".join(ops)
            if ak[0] == "rawptr":
                return "mkfat(%s,%s)" % (ops[0], ops[1])
            return "undef(%d)" % dt
        if k in ("bin", "cbin"):
            return self.binop(k, r, dt)
        if k == "un":
            a, t = self.op(r[2])
            if r[1] == "PtrMetadata":
                return "pmeta(%s)" % a
            if r[1] == "Not":
                return "o_not(%s,%d)" % (a, self.width(t))
            if r[1] == "Neg":
                ty = self.p.tys[canon(t)]
                w = self.width(t)
                if ty["k"] == "float":
                    return "o_xor(%s,%d,%d)" % (a, 1 << (w - 1), w)
                return "o_sub(0,%s,%d)" % (a, w)
            return "undef(%d)" % dt
        if k == "cast":
            return self.cast(r, dt)
        if k == "disc":
            form, t = self.place(r[1])
            return "disc(%s,%d)" % (self.read(form, t), t)
        if k == "len":
            form, t = self.place(r[1])
            ty = self.p.tys[t]
            if ty["k"] == "array":
                return str(ty["n"])
            return "%s.m" % self.ptr(form)
        if k == "rep":
            a, t = self.op(r[1])
            if self.is_agg(t):
                return "Arr([cp(_x) for _ in range(%d) for _x in (%s,)])" % (r[2], a)
            return "Arr([%s]*%d)" % (a, r[2])
        return "undef(%d)" % dt

    def binop(self, k, r, dt):
        op = r[1]
        a, ta = self.op(r[2])
        b, tb = self.op(r[3])
        if ta is None:
            ta = tb
        ty = self.p.tys[canon(ta)]
        kd = ty["k"]
        w = self.width(ta)
        if op == "Offset":
            pt = self.p.tys[canon(ta)]["elem"]
            if self.p.tys[canon(tb)]["k"] == "int":
                return "padds(%s,%s,%d)" % (a, b, pt)
            return "padd(%s,%s,%d)" % (a, b, pt)
        if kd in ("ptr", "ref", "fnptr") or (kd == "struct"):
            pt = ty.get("elem", 0)
            return "pcmp(%r,%s,%s,%d)" % (op, a, b, pt)
        if kd == "tuple" or kd == "enum":
            return "undef(%d)" % dt
        if kd == "float":
            if op in OPREL:
                return "fcmp(%s,%s,%d,%r)" % (a, b, w, op)
            return "fbin(%r,%s,%s,%d)" % (op, a, b, w)
        sg = kd == "int"
        if k == "cbin":
            return "chk(%r,%s,%s,%d,%r)" % (op, a, b, w, sg)
        if op in ("Eq", "Ne"):
            return ("eqv(%s,%s,%d)" if op == "Eq" else "nev(%s,%s,%d)") % (a, b, w)
        if op in ("Lt", "Le", "Gt", "Ge"):
            return "%s(%s,%s,%d,%r)" % ("scmpv" if sg else "ucmpv", a, b, w, op)
        if op in ("Add", "AddUnchecked"):
            return "o_add(%s,%s,%d)" % (a, b, w)
        if op in ("Sub", "SubUnchecked"):
            return "o_sub(%s,%s,%d)" % (a, b, w)
        if op in ("Mul", "MulUnchecked"):
            return "o_mul(%s,%s,%d)" % (a, b, w)
        if op == "Div":
            return "o_div(%s,%s,%d,%r)" % (a, b, w, sg)
        if op == "Rem":
            return "o_rem(%s,%s,%d,%r)" % (a, b, w, sg)
        if op == "BitAnd":
            return "o_and(%s,%s,%d)" % (a, b, w)
        if op == "BitOr":
            return "o_or(%s,%s,%d)" % (a, b, w)
        if op == "BitXor":
            return "o_xor(%s,%s,%d)" % (a, b, w)
        if op in ("Shl", "ShlUnchecked"):
            return "o_shl(%s,shamt(%s,%d)&%d,%d)" % (a, b, self.width(tb), w - 1, w)
        if op in ("Shr", "ShrUnchecked"):
            return "o_shr(%s,shamt(%s,%d)&%d,%d,%r)" % (a, b, self.width(tb), w - 1, w, sg)
        if op == "Cmp":
            return "cmp3(%s,%s,%d,%r)" % (a, b, w, sg)
        raise RuntimeError(op)

    def cast(self, r, dt):
        k = r[1]
        a, t = self.op(r[2])
        tt = r[3]
        ft = self.p.tys[canon(t)]
        to = self.p.tys[canon(tt)]
        if k == "IntToInt":
            if ft["k"] == "enum":
                return "i2i(disc(%s,%d),%d,%r,%d)" % (a, canon(t), 64, True, self.width(tt))
            return "i2i(%s,%d,%r,%d)" % (a, self.width(t), ft["k"] == "int", self.width(tt))
        if k == "IntToFloat":
            return "i2fl(%s,%d,%r,%d)" % (a, self.width(t), ft["k"] == "int", self.width(tt))
        if k == "FloatToInt":
            return "fl2i(%s,%d,%d,%r)" % (a, self.width(t), self.width(tt), to["k"] == "int")
        if k == "FloatToFloat":
            return "f2f(%s,%d,%d)" % (a, self.width(t), self.width(tt))
        if k in ("PtrToPtr", "PointerCoercion(MutToConstPointer)", "PointerCoercion(ArrayToPointer)"):
            if ft["k"] in ("ptr", "ref") and to["k"] in ("ptr", "ref"):
                if canon(ft["elem"]) == canon(to["elem"]):
                    return a
                return "pcast(%s,%d,%d)" % (a, ft["elem"], to["elem"])
            return a
        if k == "PointerCoercion(Unsize)":
            return "unsize(%s,%d,%d)" % (a, canon(t), canon(tt))
        if k.startswith("PointerCoercion"):
            return "reify(%s,%d)" % (a, t)
        if k in ("Transmute", "BoxDerefTransmute"):
            return "transmute(%s,%d,%d)" % (a, t, tt)
        if k in ("PointerExposeAddress", "PointerExposeProvenance"):
            return "expose(%s)" % a
        return "undef(%d)" % tt

    def gen(self):
        f = self.f
        src = []
        for bi, (stmts, term_) in enumerate(f["blocks"]):
            body = []
            falses = set()
            for si, s in enumerate(stmts):
                if s[0] == "a":
                    form, t = self.place(s[1])
                    e = self.rvalue(s[2], t)
                    if form[0] == "L" and s[2][0] == "bin" and s[2][1] == "Eq":
                        # division overflow check: (divisor == -1) & (dividend == MIN) with a constant divisor
                        x, y = self.op(s[2][2])[0], self.op(s[2][3])[0]
                        if x.isdigit() and y.isdigit() and x != y:
                            falses.add("L[%d]" % form[1])
                        elif falses and si + 1 < len(stmts):
                            n = stmts[si + 1]
                            if n[0] == "a" and n[2][0] == "bin" and n[2][1] == "BitAnd" and {self.op(n[2][2])[0], self.op(n[2][3])[0]} & falses and "L[%d]" % form[1] in (self.op(n[2][2])[0], self.op(n[2][3])[0]):
                                e = "0"
                    body.append(self.write(form, t, e))
                elif s[0] == "dead":
                    pass
                elif s[0] == "sd":
                    form, t = self.place(s[1])
                    body.append("setdisc(%s,%d,%d)" % (self.ptr(form), s[2], t))
                elif s[0] == "cno":
                    pt = self.p.tys[canon(self.op(s[1])[1])]["elem"]
                    body.append("cno(%s,%s,%s,%d)" % (self.op(s[1])[0], self.op(s[2])[0], self.op(s[3])[0], pt))
            k = term_[0]
            if k == "goto":
                body.append("return %d" % term_[1])
            elif k == "ret":
                body.append("return -1")
            elif k == "drop":
                body.append("return %d" % term_[2])
            elif k == "sw":
                o, t = self.op(term_[1])
                w = self.width(t)
                br = {v: b for v, b in term_[2]}
                self.K.append(br)
                body.append("v=%s" % o)
                body.append("if type(v) is int: return K[%d].get(v,%d)" % (len(self.K) - 1, term_[3]))
                body.append("return switch(F,%d,v,%d,K[%d],%d,L,%d)" % (bi, w, len(self.K) - 1, term_[3], term_[4]))
            elif k == "assert":
                o, t = self.op(term_[1])
                exp = 1 if term_[2] else 0
                body.append("v=%s" % o)
                body.append("if v!=%d: check(v,%d,%r,%d)" % (exp, exp, term_[3], term_[5]))
                body.append("return %d" % term_[4])
            elif k == "call":
                callee, args, dest, target, ln = term_[1:6]
                av = []
                for a in args:
                    av.append(self.op(a)[0])
                if isinstance(callee, int):
                    ce = "call(%d,[%s],%d)" % (callee, ",".join(av), ln)
                else:
                    ce = "callv(%s,[%s],%d)" % (self.op(callee)[0], ",".join(av), ln)
                if target < 0:
                    body.append(ce)
                    body.append("raise Undecided('diverging call returned')")
                else:
                    form, t = self.place(dest)
                    body.append(self.write(form, t, ce))
                    body.append("return %d" % target)
            elif k == "unreach":
                body.append("raise UB('unreachable code reached',where())")
            elif k in ("resume", "abort"):
                body.append("raise Undecided('unwinding')")
            else:
                body.append("raise Undecided(%r)" % k)
            src.append("def b%d(L):\n" % bi + "".join("    %s\n" % x for x in body))
        src.append("B=[%s]\n" % ",".join("b%d" % i for i in range(len(f["blocks"]))))
        return "".join(src)


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "drop":
        return [t[2]]
    if k == "sw":
        return sorted(set([b for _, b in t[2]] + [t[3]]))
    if k == "assert":
        return [t[4]]
    if k == "call":
        return [t[4]] if t[4] >= 0 else []
    return []


def ipdoms(f):
    """immediate post-dominator of every block (None: none)"""
    n = len(f["blocks"])
    succ = [succs(b[1]) for b in f["blocks"]]
    EXIT = n
    live = set()
    st_ = [0]
    while st_:
        x = st_.pop()
        if x in live:
            continue
        live.add(x)
        st_ += succ[x]
    # blocks that diverge are ignored (they do not reach the exit)
    exits = [i for i in live if f["blocks"][i][1][0] == "ret"]
    pred = {i: [] for i in range(n + 1)}
    for i in live:
        for s in succ[i]:
            pred[s].append(i)
    for e in exits:
        pred[EXIT].append(e)
    reach = set()
    st_ = [EXIT]
    while st_:
        x = st_.pop()
        if x in reach:
            continue
        reach.add(x)
        st_ += pred[x]
    full = frozenset(reach)
    pd = {i: full for i in reach}
    pd[EXIT] = frozenset([EXIT])
    ch = True
    order = sorted(reach - {EXIT}, reverse=True)
    while ch:
        ch = False
        for i in order:
            ss = [s for s in (succ[i] if i not in exits else [EXIT]) if s in reach]
            r = None
            for s in ss:
                r = pd[s] if r is None else r & pd[s]
            r = (r or frozenset()) | {i}
            if r != pd[i]:
                pd[i] = r
                ch = True
    ip = {}
    for i in order:
        c = pd[i] - {i}
        # the closest: the one whose pd set is largest
        best = None
        for x in c:
            if best is None or len(pd[x]) > len(pd[best]):
                best = x
        ip[i] = None if best in (None, EXIT) else best
    return ip


class Interp:
    def __init__(self, prog):
        self.prog = prog
        S.prog = prog
        TW.clear()
        SZ.clear()
        CANON.clear()
        for t in prog.tys.values():
            k = t["k"]
            if k in ("int", "uint", "float"):
                TW[t["id"]] = t["bits"]
            elif k == "bool":
                TW[t["id"]] = 1
            elif k == "char":
                TW[t["id"]] = 32
        for t in list(prog.tys):
            c = canon(t)
            if c in TW:
                TW[t] = TW[c]
        self.cf = {}
        self.handlers = {}
        self.allocs = {}
        self.models = {}
        self.model_prefix = []
        self.counts = {}
        self.env = {k: globals()[k] for k in globals() if not k.startswith("__")}
        self.env.update(
            call=self.call, callv=self.callv, disc=self.disc, undef=self.undef, switch=self.switch, check=self.check,
            chk=chk, eqv=eqv, nev=nev, ucmpv=ucmpv, scmpv=scmpv, cmp3=cmp3, pmeta=pmeta, mkfat=mkfat, padds=padds,
            unsize=self.unsize, reify=self.reify, transmute=self.transmute, expose=self.expose, setdisc=self.setdisc,
            cno=cno, el2=el2, subarr=subarr, subsl=subsl, f2f=f2f,
        )
        self.DISC = {}
        import models

        models.register(self)

    # -- constants
    def const_value(self, t, al):
        byts, prov = al
        return self.from_alloc(t, byts, {o: a for o, a in prov}, 0)

    def zst_value(self, t):
        ty = self.prog.tys[t]
        k = ty["k"]
        if k in ("struct", "union") and ty["path"] in ERASED:
            return self.zst_value(ty["variants"][0][2][ERASED[ty["path"]]][1])
        if k == "fndef":
            return FnV(ty["fn"])
        if k == "struct":
            return Agg(0, [self.zst_value(x[1]) for x in ty["variants"][0][2]])
        if k == "tuple":
            return Agg(0, [self.zst_value(x) for x in ty["elems"]])
        if k == "closure":
            return Agg(0, [self.zst_value(x) for x in ty["up"]])
        if k == "array":
            return Arr([self.zst_value(ty["elem"])] * ty["n"])
        if k == "enum":
            return Agg(ty.get("single", 0), [])
        return UNIT

    def from_alloc(self, t, byts, prov, off):
        tys = self.prog.tys
        t = canon(t)
        ty = tys[t]
        k = ty["k"]
        n = sizeof(t)
        if n == 0:
            return self.zst_value(t)
        if scalar(ty):
            bs = byts[off: off + n]
            if any(b is None for b in bs):
                return UNINIT
            return int.from_bytes(bytes(bs), "little")
        if k in ("ref", "ptr", "fnptr"):
            if off in prov:
                a = prov[off]
                base = int.from_bytes(bytes(byts[off: off + 8]), "little")
                pt = tys[canon(ty["elem"])] if k != "fnptr" else None
                al = self.prog.allocs[a]
                if al[0] == "fn":
                    return FnV(al[1])
                if pt is None:
                    return Nat("ptr")
                meta = None
                if n == 16:
                    if pt["k"] == "dyn":
                        va = self.prog.allocs[prov[off + 8]]
                        meta = ("vt", va[1])
                        return self.alloc_ptr(a, base, va[1], meta)
                    meta = int.from_bytes(bytes(byts[off + 8: off + 16]), "little")
                return self.alloc_ptr(a, base, ty["elem"], meta)
            v = int.from_bytes(bytes(b or 0 for b in byts[off: off + 8]), "little")
            if n == 16:
                return Ptr([], 0, int.from_bytes(bytes(b or 0 for b in byts[off + 8: off + 16]), "little"))
            return v
        if k == "array":
            es = sizeof(ty["elem"])
            return Arr([self.from_alloc(ty["elem"], byts, prov, off + i * es) for i in range(ty["n"])])
        if k in ("struct", "tuple", "closure"):
            fts = [f[1] for f in ty["variants"][0][2]] if k == "struct" else ty["elems"] if k == "tuple" else ty["up"]
            if k == "struct" and ty["path"] in ("std::vec::Vec", "alloc::raw_vec::RawVec"):
                if ty["path"] == "std::vec::Vec":
                    return Agg(0, [RV([]), 0])
                return RV([])
            offs = ty.get("off", [0] * len(fts))
            return Agg(0, [self.from_alloc(ft, byts, prov, off + o) for ft, o in zip(fts, offs)])
        if k == "union":
            return UNINIT
        if k == "enum":
            if "tag" not in ty:
                vi = ty.get("single", 0)
                fs = ty["variants"][vi][2]
                return Agg(vi, [self.from_alloc(ft, byts, prov, off + o) for (nm, ft), o in zip(fs, ty.get("off", [0] * len(fs)))])
            to, ts, enc = ty["tag"]
            bs = byts[off + to: off + to + ts]
            hasp = (off + to) in prov
            m = (1 << (8 * ts)) - 1
            tv = None if hasp else int.from_bytes(bytes(b or 0 for b in bs), "little")
            if enc[0] == "direct":
                vi = next(i for i, v in enumerate(ty["variants"]) if v[1] & m == tv)
            else:
                _, unt, a, b, start = enc
                vi = unt
                if tv is not None:
                    rel = (tv - start) & m
                    if rel <= b - a:
                        vi = a + rel
            fs = ty["variants"][vi][2]
            return Agg(vi, [self.from_alloc(ft, byts, prov, off + o) for (nm, ft), o in zip(fs, ty["voff"][vi])])
        raise Undecided("constant of type %s" % ty["name"])

    def alloc_ptr(self, a, base, pt, meta):
        al = self.prog.allocs[a]
        key = (a, canon(pt), base)
        c = self.allocs.get(key)
        if c is None:
            if al[0] == "mem":
                byts, prov = al[1]
            elif al[0] == "static":
                if al[3] is None:
                    raise Undecided("static")
                byts, prov = al[3]
            else:
                raise Undecided("pointer to %s" % al[0])
            prov = {o: x for o, x in prov}
            ty = self.prog.tys[canon(pt)]
            if ty["k"] in ("slice", "str"):
                et = ty.get("elem")
                if et is None:
                    c = list(byts[base:])
                else:
                    es = sizeof(et)
                    n = (len(byts) - base) // es if es else 0
                    c = [self.from_alloc(et, byts, prov, base + i * es) for i in range(n)]
            else:
                es = sizeof(pt)
                n = (len(byts) - base) // es if es else 1
                c = [self.from_alloc(pt, byts, prov, base + i * es) for i in range(max(1, n))]
            self.allocs[key] = c
        return Ptr(c, 0, meta)

    # -- dynamic helpers
    def undef(self, t):
        raise Undecided("unsupported value of type %s at %s" % (self.prog.tys[t]["name"], where()))

    def disc(self, v, t):
        if type(v) is not Agg:
            raise Undecided("discriminant of %r (%s) at %s" % (v, self.prog.tys[t]["name"], where()))
        d = self.DISC.get(t)
        if d is None:
            ty = self.prog.tys[t]
            d = self.DISC[t] = [x[1] & M64 for x in ty["variants"]] if ty["k"] == "enum" else [0]
        x = v.v
        if type(x) is not int:
            x = concretize(x, 8, "variant")
        return d[x]

    def setdisc(self, p, v, t):
        o = ld(p, t)
        o.v = v

    def unsize(self, p, ft, tt):
        tys = self.prog.tys
        f, t = tys[ft], tys[tt]
        if f["k"] == "struct":
            return p
        fe, te = tys[canon(f["elem"])], tys[canon(t["elem"])]
        if te["k"] == "slice":
            if fe["k"] == "array":
                if type(p) is not Ptr:
                    return p
                if p.s is not None:
                    return Ptr(p.c, p.i, fe["n"], p.s, p.o)
                if fe["n"] == 0 or sizeof(fe["elem"]) == 0:
                    a = p.c[p.i]
                    return Ptr(a.f if type(a) is Arr else [UNIT] * fe["n"], 0, fe["n"])
                return Ptr(p.c[p.i].f, 0, fe["n"])
            return p
        if te["k"] == "dyn":
            if fe["k"] == "dyn":
                return p
            if type(p) is Ptr:
                return Ptr(p.c, p.i, ("vt", f["elem"]), p.s, p.o)
            return Nat("dynzst", f["elem"])
        return p

    def reify(self, v, t):
        ty = self.prog.tys[canon(t)]
        if type(v) is FnV:
            return v
        if ty["k"] == "closure":
            return Nat("cfn", (ty["fn"], v))
        return v

    def expose(self, p):
        if type(p) is int:
            return p
        raise Undecided("address of %r" % (p,))

    def transmute(self, v, f, t):
        tys = self.prog.tys
        cf_, ct = canon(f), canon(t)
        if cf_ == ct:
            return v
        a, b = tys[cf_], tys[ct]
        if a["k"] in ("ref", "ptr", "fnptr") and b["k"] in ("ref", "ptr", "fnptr"):
            if type(v) is Ptr and "elem" in a and "elem" in b:
                return pcast(v, a["elem"], b["elem"])
            return v
        if type(v) in (Ptr, FnV) and b["k"] in ("uint", "int"):
            return self.expose(v)
        if type(v) is Ptr and b["k"] == "struct":
            nz = [x[1] for x in b["variants"][0][2] if sizeof(x[1])]
            if len(nz) == 1:
                i = [x[1] for x in b["variants"][0][2]].index(nz[0])
                fs = [self.zst_value(x[1]) if not sizeof(x[1]) else v for x in b["variants"][0][2]]
                return Agg(0, fs)
        if type(v) is Ptr and b["k"] == "enum" and sizeof(t) in (8, 16):
            # Option<NonNull<..>>
            for vi, vv in enumerate(b["variants"]):
                if vv[2]:
                    return Agg(vi, [v])
        if type(v) is Agg and b["k"] in ("ref", "ptr"):
            x = v
            while type(x) is Agg and len(x.f) >= 1:
                nz = [y for y in x.f if not (type(y) is Agg and not y.f)]
                if len(nz) != 1:
                    break
                x = nz[0]
            if type(x) in (Ptr, int):
                return x
        if type(v) is Ptr and a["k"] in ("struct", "union") and b["k"] in ("ref", "ptr"):
            return v
        if same_layout(f, t):
            return v
        if type(v) is Nat or v is UNINIT:
            return v
        return of_bits(bits_of(v, f), t)

    def check(self, v, exp, msg, ln):
        if type(v) is not int:
            v = decide(v, msg)
            if v == exp:
                return
        S.stack[-1] = (S.stack[-1][0], ln)
        raise Panic(msg, where())

    # -- branching
    def switch(self, F, bi, v, w, br, other, L, ln):
        if type(v) not in (Term, BV):
            raise Undecided("switch on %r" % (v,))
        v = norm(v, w)
        if type(v) is int:
            return br.get(v, other)
        if w == 1:
            b = bits(v, 1)[0]
            t0 = br.get(0, other)
            t1 = br.get(1, other)
            if (F.rec["id"], bi) not in S.nomerge:
                j = F.ipdom.get(bi)
                if j is not None:
                    r = self.try_merge(F, bi, b, t0, t1, j, L)
                    if r:
                        return j
            return t1 if choose_bit(b) else t0
        # integer switch
        cands = []
        rest = v
        bv = bits(v, w)
        for c, tgt in br.items():
            ok = True
            for i in range(w):
                if bv[i] < 2 and bv[i] != (c >> i) & 1:
                    ok = False
                    break
            if ok and 0 in relset("u%d" % w, v, c):
                cands.append((c, tgt))
        unk = sum(1 for x in bv if x >= 2)
        covered = unk <= 16 and len(cands) == (1 << unk)
        n = len(cands) + (0 if covered else 1)
        if n == 1:
            r = 0
        else:
            r = choose(n, "switch %s" % show(v, 60))
        if r < len(cands):
            c, tgt = cands[r]
            for i in range(w):
                assume_bit(bv[i], (c >> i) & 1)
            return tgt
        for c, tgt in cands:
            S.ne.add(("u%d" % w, _node(v), _node(c)))
        return other

    def try_merge(self, F, bi, b, t0, t1, j, L):
        if S.merge > 6:
            return False
        key = (F.rec["id"], bi)
        saveJ, saveL = S.J, list(L)
        savep = S.pos
        res = []
        S.merge += 1
        ok = True
        nst = len(S.stack)
        sub, nbc, edges, ne, nan = S.sub, S.nb_cache, S.edges, S.ne, S.nan
        try:
            for val, tgt in ((0, t0), (1, t1)):
                S.J = []
                S.sub = dict(sub)
                S.nb_cache = {}
                try:
                    assume_bit(b, val)
                    bb = tgt
                    blocks = F.blocks
                    n = 0
                    while bb != j:
                        if bb < 0:
                            raise NoMerge()
                        n += 1
                        if n > 300:
                            raise NoMerge()
                        bb = blocks[bb](L)
                except (NoMerge, Panic, UB, Undecided, Endless, Infeasible, Restart):
                    ok = False
                    del S.stack[nst:]
                fin = {}
                for c, k, old, w in S.J:
                    kk = (id(c), k)
                    if kk not in fin:
                        fin[kk] = [c, k, old, w]
                for e in fin.values():
                    e.append(e[0][e[1]])
                endL = list(L)
                for c, k, old, w in reversed(S.J):
                    c[k] = old
                L[:] = saveL
                res.append((endL, fin))
                if not ok:
                    break
        finally:
            S.merge -= 1
            S.J = saveJ
            S.sub, S.nb_cache, S.edges, S.ne, S.nan = sub, nbc, edges, ne, nan
        if not ok:
            S.nomerge.add(key)
            return False
        (L0, f0), (L1, f1) = res
        newL = list(saveL)
        lt = F.rec["locals"]
        for i in range(len(L)):
            x, y = L0[i], L1[i]
            if x is y:
                newL[i] = x
                continue
            w = TW.get(lt[i])
            if w is not None and type(x) in (int, Term, BV) and type(y) in (int, Term, BV):
                newL[i] = ite(b, y, x, w)
            elif (x is UNINIT or y is UNINIT) and i != 0:
                newL[i] = UNINIT  # a temporary of one arm
            elif saveL[i] is UNINIT and i != 0 and i not in self.live_after(F, j):
                newL[i] = UNINIT
            else:
                m = None if x is UNINIT or y is UNINIT else merge_val(b, y, x)
                if m is None:
                    newL[i] = UNINIT if i != 0 and i not in self.live_after(F, j) else None
                    if newL[i] is None:
                        S.nomerge.add(key)
                        return False
                else:
                    newL[i] = m
        out = []
        for kk in set(f0) | set(f1):
            e0, e1 = f0.get(kk), f1.get(kk)
            e = e0 or e1
            c, k, old, w = e[:4]
            if c is L:
                continue
            x = e0[4] if e0 else old
            y = e1[4] if e1 else old
            if x is y:
                out.append((c, k, x, w))
                continue
            if w is not None and type(x) in (int, Term, BV) and type(y) in (int, Term, BV):
                out.append((c, k, ite(b, y, x, w), w))
            else:
                m = merge_val(b, y, x)
                if m is None:
                    S.nomerge.add(key)
                    return False
                out.append((c, k, m, w))
        L[:] = newL
        for c, k, x, w in out:
            st(c, k, x, w)
        return True

    def live_after(self, F, j):
        """locals read in blocks reachable from j"""
        key = ("live", F.rec["id"], j)
        r = self.counts.get(key)
        if r is None:
            seen = set()
            st_ = [j]
            r = set()

            def scan(o):
                if isinstance(o, list):
                    if len(o) == 2 and isinstance(o[0], int) and isinstance(o[1], list):
                        r.add(o[0])
                    for x in o:
                        scan(x)

            while st_:
                x = st_.pop()
                if x in seen:
                    continue
                seen.add(x)
                b = F.rec["blocks"][x]
                for s in b[0]:
                    if s[0] == "a":
                        scan(s[2])
                        if s[1][1]:
                            r.add(s[1][0])
                    elif s[0] != "dead":
                        scan(s)
                t = b[1]
                if t[0] == "call":
                    scan(t[2])
                    if t[3][1]:
                        r.add(t[3][0])
                elif t[0] == "drop":
                    pass
                else:
                    scan(t)
                st_ += succs(t)
            r.add(0)
            self.counts[key] = r
        return r

    # -- calls
    def compile(self, fid):
        f = self.prog.fns[fid]
        g = Gen(self, f)
        src = g.gen()
        F = CFn()
        env = dict(self.env)
        env["K"] = g.K
        env["F"] = F
        exec(compile(src, "<mir %s>" % f["npath"], "exec"), env)
        F.rec = f
        F.blocks = env["B"]
        F.n = len(f["locals"])
        F.argc = f["argc"]
        F.ipdom = ipdoms(f)
        return F

    def handler(self, fid):
        h = self.handlers.get(fid)
        if h is None:
            h = self.handlers[fid] = self.make_handler(fid)
        return h

    def make_handler(self, fid):
        f = self.prog.fns[fid]
        m = self.models.get(f["npath"])
        if m is None and f["ntr"]:
            m = self.models.get("@" + f["ntr"]) if "blocks" not in f else None
        if m is None:
            for p, mm in self.model_prefix:
                if f["npath"].startswith(p):
                    m = mm
                    break
        if m is not None:
            return lambda args: m(self, f, args)
        if f["kind"] == "virtual":
            return lambda args: self.virtual(f, args)
        if f["shim"] in ("ClosureOnceShim", "FnPtrShim", "ReifyShim", "VTableShim", "CloneShim"):
            return lambda args: self.shim(f, args)
        if f["shim"] == "Virtual":
            return lambda args: self.virtual(f, args)
        if f.get("ctor", -1) >= 0 and "blocks" not in f:
            return lambda args: Agg(f["ctor"], list(args))
        if "blocks" not in f:
            return lambda args: self.nomodel(f)
        return self.body(fid)

    def body(self, fid):
        box = []
        f = self.prog.fns[fid]
        argc = f["argc"]
        clo = f["clo"]
        spread = f["spread"]

        def run(args):
            if not box:
                box.append(self.compile(fid))
                if S.visited is not None:
                    pass
            F = box[0]
            if clo:
                args = [args[0]] + list(args[1].f)
            L = [UNINIT] * F.n
            if len(args) != argc:
                raise Undecided("argument count of %s: %d for %d" % (f["npath"], len(args), argc))
            L[1: 1 + argc] = args
            blocks = F.blocks
            bb = 0
            n = 0
            while bb >= 0:
                n += 1
                bb = blocks[bb](L)
                if not n & 4095:
                    spent(4096, f)
            S.fuel += n & 4095
            if S.fuel > S.fuel_max:
                spent(0, f)
            r = L[0]
            return UNIT if r is UNINIT else r

        return run

    def call(self, fid, args, ln=0):
        h = self.handlers.get(fid)
        if h is None:
            h = self.handler(fid)
        st_ = S.stack
        if st_:
            st_[-1] = (st_[-1][0], ln)
        f = self.prog.fns[fid]
        if len(st_) > 180:
            raise Undecided("call depth")
        st_.append((f, f.get("line", 0)))
        if S.visited is not None and f["local"]:
            S.visited.add(fid)
        S.fuel += 1
        r = h(args)
        st_.pop()
        return r

    def callv(self, fv, args, ln=0):
        if type(fv) is FnV:
            return self.call(fv.id, args, ln)
        if type(fv) is Nat and fv.k == "cfn":
            return self.call_closure_fn(fv.d[0], fv.d[1], args)
        raise Undecided("call through %r" % (fv,))

    def call_closure_fn(self, fid, env, args):
        f = self.prog.fns[fid]
        return self.call(fid, [env, Agg(0, list(args))] if True else None)

    def call_fn_obj(self, t, obj, args, byref):
        """call a callable value of type t.  obj: the value (byref=False) or a pointer to it"""
        ty = self.prog.tys[canon(t)]
        k = ty["k"]
        if k == "closure":
            fid = ty["fn"]
            ck = ty["ck"]
            if ck == "FnOnce":
                env = ld(obj, t) if byref else obj
            else:
                env = obj if byref else Ptr([obj], 0)
            return self.call(fid, [env, Agg(0, list(args))])
        if k == "fndef":
            return self.call(ty["fn"], list(args))
        if k == "fnptr":
            fv = ld(obj, t) if byref else obj
            return self.callv(fv, list(args))
        if k == "ref":
            inner = ld(obj, t) if byref else obj
            return self.call_fn_obj(ty["elem"], inner, args, True)
        if k == "dyn":
            o = obj
            return self.call_fn_obj(o.m[1], Ptr(o.c, o.i), args, True)
        if ty["k"] == "ptr" or (k == "struct" and ty.get("box")):
            return self.call_fn_obj(ty["elem"], obj, args, True)
        raise Undecided("callable of type %s" % ty["name"])

    def shim(self, f, args):
        sh = f["shim"]
        if sh == "ClosureOnceShim":
            t = f["targs"][0] if f["targs"] else None
            return self.call_fn_obj(t, args[0], args[1].f, False)
        if sh in ("FnPtrShim", "ReifyShim"):
            t = f["targs"][0]
            nm = f["npath"].rsplit("::", 1)[-1]
            return self.call_fn_obj(t, args[0], args[1].f, nm in ("call", "call_mut"))
        if sh == "CloneShim":
            return self.clone_val(f["targs"][0], args[0])
        return self.nomodel(f)

    def clone_val(self, t, p):
        ty = self.prog.tys[canon(t)]
        k = ty["k"]
        v = ld(p, t)
        if k == "tuple":
            return Agg(0, [self.clone_of(et, Ptr(v.f, i)) for i, et in enumerate(ty["elems"])])
        if k == "array":
            return Arr([self.clone_of(ty["elem"], Ptr(v.f, i)) for i in range(len(v.f))])
        if k == "closure":
            return Agg(0, [self.clone_of(et, Ptr(v.f, i)) for i, et in enumerate(ty["up"])])
        return cp(v)

    def clone_of(self, t, p):
        m = self.prog.impls.get(t, {}).get("clone") or self.prog.impls.get(canon(t), {}).get("clone")
        ty = self.prog.tys[canon(t)]
        if m is not None:
            return self.call(m, [p])
        return self.clone_val(t, p)

    def virtual(self, f, args):
        o = args[0]
        if type(o) is not Ptr or type(o.m) is not tuple:
            raise Undecided("virtual call %s on %r" % (f["npath"], o))
        t = o.m[1]
        nm = f["npath"].rsplit("::", 1)[-1]
        thin = Ptr(o.c, o.i)
        if nm in ("call", "call_mut", "call_once"):
            return self.call_fn_obj(t, thin, args[1].f, True)
        m = self.prog.impls.get(t, {}).get(nm)
        if m is None:
            raise Undecided("virtual call %s on %s" % (f["npath"], self.prog.tys[t]["name"]))
        return self.call(m, [thin] + args[1:])

    def nomodel(self, f):
        raise Undecided("no model for %s (called at %s)" % (f["npath"], where()))

    # -- exploration
    def explore(self, root, max_paths=4000):
        """root(): runs one trace; yields (outcome, value, trace log) for each feasible trace"""
        work = [[]]
        n = 0
        while work:
            tr = work.pop()
            while True:
                S.trail = list(tr)
                S.pos = 0
                S.alts = []
                S.sub = {}
                S.nb_cache = {}
                S.edges = {}
                S.ne = set()
                S.nes = []
                S.lins = []
                S.nz = []
                S.nan = {}
                S.log = []
                S.fuel = 0
                S.J = None
                S.merge = 0
                S.stack = []
                base = len(tr)
                try:
                    v = root()
                    out = ("ok", v)
                except Panic as e:
                    out = ("panic", e)
                except UB as e:
                    out = ("ub", e)
                except Undecided as e:
                    S.ustack = [(f["npath"], ln) for f, ln in S.stack]
                    out = ("undecided", e)
                except Endless as e:
                    out = ("endless", e)
                except RecursionError as e:
                    out = ("undecided", Undecided("recursion"))
                except Infeasible:
                    out = ("infeasible", None)
                except Restart:
                    continue
                try:
                    consistent()
                except Infeasible:
                    out = ("infeasible", None)
                break
            for pos, k in S.alts:
                for c in range(1, k):
                    work.append(S.trail[:pos] + [c])
            n += 1
            if out[0] != "infeasible":
                yield out
            if S.fuel > S.fuel_seen:
                S.fuel_seen = S.fuel
            if S.deadline is not None and time.time() > S.deadline:
                raise TimeUp()
            if n > max_paths:
                yield ("undecided", Undecided("more than %d traces" % max_paths))
                return


def spent(n, f):
    S.fuel += n
    if S.deadline is not None and time.time() > S.deadline:
        raise TimeUp()
    if S.fuel > S.fuel_max:
        raise Endless("more than %d basic blocks on one trace, in %s" % (S.fuel_max, f["npath"]))


def merge_val(b, y, x):
    """merge two structurally equal values (b ? y : x), None if impossible"""
    if x is y:
        return x
    tx, ty = type(x), type(y)
    if tx is int and ty is int and x == y:
        return x
    if tx in (Term, BV) and ty is tx and x == y:
        return x
    if tx is BV and ty is BV and len(x.b) == len(y.b):
        return ite(b, y, x, len(x.b))
    if tx is Agg and ty is Agg and x.v == y.v and len(x.f) == len(y.f):
        fs = []
        for p, q in zip(x.f, y.f):
            m = merge_val(b, q, p)
            if m is None:
                return None
            fs.append(m)
        return Agg(x.v, fs)
    if tx is Ptr and ty is Ptr and x.c is y.c and x.i == y.i and x.m == y.m and x.s == y.s and x.o == y.o:
        return x
    if tx is FnV and ty is FnV and x.id == y.id:
        return x
    return None


def ite(c, t, f, w):
    return mk(tuple(bite(c, p, q) for p, q in zip(bits(t, w), bits(f, w))))


def eqv(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if a == b else 0
    if w == 1:
        return mk((bxor(bxor(bits(a, 1)[0], bits(b, 1)[0]), 1),))
    # a comparison of a one-bit quantity gives that bit
    ba, bb = bits(a, w), bits(b, w)
    d = [norm_bit(bxor(x, y)) for x, y in zip(ba, bb) if x != y]
    d = [x for x in d if x != 0]
    if not d:
        return 1
    if 1 in d:
        return 0
    if len(set(d)) == 1:
        return mk((d[0] ^ 1,))
    return eq_decide(a, b, w)


def nev(a, b, w):
    r = eqv(a, b, w)
    return r ^ 1 if type(r) is int else o_not(r, 1)


def ucmpv(a, b, w, op):
    if type(a) is int and type(b) is int:
        if op == "Lt":
            return 1 if a < b else 0
        if op == "Le":
            return 1 if a <= b else 0
        if op == "Gt":
            return 1 if a > b else 0
        return 1 if a >= b else 0
    return ucmp(a, b, w, op)


def scmpv(a, b, w, op):
    return scmp(a, b, w, op)


def cmp3(a, b, w, sg):
    if sg:
        if scmp(a, b, w, "Lt"):
            return Agg(0, [])
    elif ucmp(a, b, w, "Lt"):
        return Agg(0, [])
    if eq_decide(a, b, w):
        return Agg(1, [])
    return Agg(2, [])


def chk(op, a, b, w, sg):
    """checked operation -> (value, overflowed)"""
    if type(a) is int and type(b) is int:
        x, y = (sx(a, w), sx(b, w)) if sg else (a, b)
        r = x + y if op == "Add" else x - y if op == "Sub" else x * y
        m = r & ((1 << w) - 1)
        ov = (sx(m, w) if sg else m) != r
        return Agg(0, [m, 1 if ov else 0])
    if op == "Add":
        r = o_add(a, b, w)
    elif op == "Sub":
        r = o_sub(a, b, w)
        if not sg:
            # a subtraction that certainly underflows is reported; one that may is assumed not to (recorded)
            na, nb = norm(a, w), norm(b, w)
            if ucmp_known_lt(na, nb, w):
                return Agg(0, [r, 1])
            if type(r) is Term and r.op == "lin":
                S.log.append(("assumed no overflow", 0))
    else:
        r = o_mul(a, b, w)
    return Agg(0, [r, 0])


def ucmp_known_lt(a, b, w):
    ba, bb = bits(a, w), bits(b, w)
    ahi = sum(1 << k for k in range(w) if ba[k] != 0)
    blo = sum(1 << k for k in range(w) if bb[k] == 1)
    return ahi < blo


def pmeta(p):
    if type(p) is Ptr:
        return p.m if p.m is not None else UNIT
    raise Undecided("metadata of %r" % (p,))


def tailsl(v):
    """the slice tail of an unsized struct"""
    if type(v) is Arr:
        return Ptr(v.f, 0, len(v.f))
    raise Undecided("unsized tail %r" % (v,))


def mkfat(p, m):
    if type(p) is int:
        return Ptr([], 0, m)
    if type(m) is not int and type(m) in (Term, BV):
        m = concretize(m, 64, "slice length")
    return Ptr(p.c, p.i, m if m is not UNIT and not (type(m) is Agg and not m.f) else None, p.s, p.o)


def padds(p, n, t):
    if type(n) is not int:
        n = concretize(n, 64, "offset")
    return padd(p, sx(n, 64), t)


def cno(src, dst, n, t):
    n = concretize(n, 64, "copy length") if type(n) is not int else n
    if n > 1 << 20:
        raise UB("copy of %d elements" % n, where())
    if n == 0:
        return
    if src.s is None:
        vals = [cp(ld(padd(src, i, t), t)) for i in range(n)]
    else:
        vals = view_vals(src, n, t)
    if dst.s is None and S.J is None and 0 <= dst.i and dst.i + n <= len(dst.c):
        dst.c[dst.i: dst.i + n] = vals
        return
    for i, v in enumerate(vals):
        sto(padd(dst, i, t), v, t)


def view_vals(p, n, t):
    """n consecutive values of type t read through a reinterpreting pointer"""
    if p.s is None:
        return [ld(padd(p, i, t), t) for i in range(n)]
    sz = sizeof(t)
    if sz == 0:
        return [UNIT] * n
    b = view_bits(p, n * sz)
    r = [of_bits(b[8 * sz * i: 8 * sz * (i + 1)], t) for i in range(n)]
    for x in r:
        if x is UNINIT:
            raise UB("read of uninitialised memory", where())
    return r


def el2(p, off, t):
    return el(p, p.m - off, t)


def subarr(a, fr, to, fe):
    n = len(a.f)
    return Arr(a.f[fr: (n - to) if fe else to])


def subsl(p, fr, to, fe, t):
    q = padd(p, fr, t)
    return Ptr(q.c, q.i, (p.m - to - fr) if fe else (to - fr), q.s, q.o)


def f2f(v, wf, wt):
    if type(v) is int:
        return _fi(_fl(v, wf), wt)
    return term("f2f", (vkey(v), wt), wt)


def dump_src(it, name):
    for f in it.prog.find(name):
        if "blocks" in f:
            print(f["npath"], f["locals"])
            print(Gen(it, f).gen())
