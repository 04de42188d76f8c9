"""Abstract value domain of the analyser.

A scalar abstract value is
  int   every bit known
  Term  an opaque quantity (an input, or the result of an operation the domain does not interpret); bit i is an atom
  BV    a tuple of bits; each bit is an affine combination over GF(2) of atoms (constants 0 and 1 included)
Integers are kept modulo 2^w.  Sums are kept as linear forms modulo 2^w over terms (op "lin").
Floats are their 64/32 bit patterns; float operations on unknown operands give opaque terms.

There is no solver: what a branch establishes is kept as a triangular substitution atom -> affine combination and as
a finite table of ordering facts between terms (class Facts).
"""
import struct

SETS = [frozenset()]
SETID = {frozenset(): 0}
ATOMS = [None]
ATOMID = {}
_xor = {}


def setid(s):
    i = SETID.get(s)
    if i is None:
        i = len(SETS)
        SETS.append(s)
        SETID[s] = i
    return i


def atom(desc):
    i = ATOMID.get(desc)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(desc)
        ATOMID[desc] = i
    return i


def bit_of_atom(desc):
    return setid(frozenset((atom(desc),))) << 1


def bxor(a, b):
    if a < 2:
        return b ^ a
    if b < 2:
        return a ^ b
    k = (a, b)
    r = _xor.get(k)
    if r is None:
        r = (setid(SETS[a >> 1] ^ SETS[b >> 1]) << 1) | ((a ^ b) & 1)
        _xor[k] = r
    return r


def band(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1 or a == b:
        return a
    if a == b ^ 1:
        return 0
    if a > b:
        a, b = b, a
    return bit_of_atom(("and", a, b))


def bor(a, b):
    if a == 0:
        return b
    if b == 0 or a == b:
        return a
    if a == 1 or b == 1:
        return 1
    return band(a ^ 1, b ^ 1) ^ 1


def bite(c, t, f):
    """if c then t else f"""
    if t == f:
        return t
    if c == 1:
        return t
    if c == 0:
        return f
    if t == 1 and f == 0:
        return c
    if t == 0 and f == 1:
        return c ^ 1
    return bxor(f, band(c, bxor(t, f)))


class Term:
    __slots__ = ("op", "args", "id", "nb", "lo", "hi", "_bits")

    def __repr__(self):
        return show(self)


TERMS = {}
TLIST = []


def term(op, args, nb=64, lo=None, hi=None):
    """nb: number of significant bits, the value lies in [0,2^nb)."""
    k = (op, args, nb)
    t = TERMS.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.nb = nb
        t.id = len(TLIST)
        t.lo = lo if lo is not None else 0
        t.hi = hi if hi is not None else (1 << nb) - 1
        t._bits = {}
        TLIST.append(t)
        TERMS[k] = t
    return t


def tbits(t, w):
    b = t._bits.get(w)
    if b is None:
        n = min(w, t.nb)
        b = tuple(bit_of_atom(("t", t.id, i)) for i in range(n)) + (0,) * (w - n)
        t._bits[w] = b
    return b


class BV:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    def __eq__(self, o):
        return isinstance(o, BV) and o.b == self.b

    def __hash__(self):
        return hash(self.b)

    def __repr__(self):
        return show(self)


_ib = {}


def bits(v, w):
    ty = type(v)
    if ty is int or ty is bool:
        if w <= 8:
            k = (v, w)
            r = _ib.get(k)
            if r is None:
                r = _ib[k] = tuple((v >> i) & 1 for i in range(w))
            return r
        return tuple((v >> i) & 1 for i in range(w))
    if ty is BV:
        b = v.b
        if len(b) == w:
            return b
        if len(b) < w:
            return b + (0,) * (w - len(b))
        return b[:w]
    if ty is Term:
        return tbits(v, w)
    raise TypeError("bits of %r" % (v,))


def mk(b):
    """bits -> canonical value"""
    v = 0
    for i, x in enumerate(b):
        if x == 1:
            v |= 1 << i
        elif x != 0:
            break
    else:
        return v
    x = b[0]
    if x >= 2 and not (x & 1):
        s = SETS[x >> 1]
        if len(s) == 1:
            (a,) = s
            d = ATOMS[a]
            if d[0] == "t" and d[2] == 0:
                t = TLIST[d[1]]
                if len(b) >= t.nb and tbits(t, len(b)) == tuple(b):
                    return t
    return BV(tuple(b))


# ---- linear forms modulo 2^w ---------------------------------------------------------------------------------
def lin_of(v, w):
    """value -> (const, {termid: coef}), meaning modulo 2^w"""
    if type(v) is int:
        return v, {}
    if type(v) is BV:
        v = mk(v.b)
        if type(v) is int:
            return v, {}
        if type(v) is BV:
            b = v.b[:w]
            nz = len(b)
            while nz > 0 and b[nz - 1] == 0:
                nz -= 1
            c = 0
            if any(x == 1 for x in b[:nz]):
                # the known ones are a constant summand
                for i in range(nz):
                    if b[i] == 1:
                        c |= 1 << i
                b = tuple(0 if x == 1 else x for x in b[:nz])
                while nz > 0 and b[nz - 1] == 0:
                    nz -= 1
                v = mk(b[:nz])
                if type(v) is Term:
                    return c, {v.id: 1}
                return c, {term("bv", b[:nz], nz).id: 1}
            v = term("bv", b[:nz], nz)
    if v.op == "lin" and v.nb == w:
        return v.args[0], dict(v.args[1])
    if v.nb > w:
        return 0, {term("bv", tbits(v, w), w).id: 1}
    return 0, {v.id: 1}


def mk_lin(c, items, w):
    m = (1 << w) - 1
    c &= m
    items = {t: k & m for t, k in items.items() if k & m}
    if not items:
        return c
    if c == 0 and len(items) == 1:
        ((t, k),) = items.items()
        if k == 1:
            return unbv(TLIST[t])
        if k & (k - 1) == 0:  # a power of two: a shift
            s = k.bit_length() - 1
            b = bits(unbv(TLIST[t]), w)
            return mk((0,) * s + b[: w - s])
    if len(items) == 1:
        ((t, k),) = items.items()
        if k == 1:
            b = bits(unbv(TLIST[t]), w)
            if all(x == 0 or not (c >> i) & 1 for i, x in enumerate(b)):
                return mk(tuple(1 if (c >> i) & 1 else x for i, x in enumerate(b)))
    # bounds, when no wrap is possible
    lo = hi = c if c < 1 << (w - 1) else c - (1 << w)
    for tid, k in items.items():
        if k >> (w - 1):
            k -= 1 << w
        t = TLIST[tid]
        if k > 0:
            lo += k * t.lo
            hi += k * t.hi
        else:
            lo += k * t.hi
            hi += k * t.lo
    key = (c, tuple(sorted(items.items())))
    if lo >= 0 and hi <= m:
        return term("lin", key, w, lo, hi)
    return term("lin", key, w)


def unbv(t):
    if t.op == "bv":
        return mk(t.args)
    return t


def f2i(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def i2f(v):
    return struct.unpack("<d", struct.pack("<Q", v))[0]


def f2i32(x):
    return struct.unpack("<I", struct.pack("<f", x))[0]


def i2f32(v):
    return struct.unpack("<f", struct.pack("<I", v))[0]


def show_bit(x):
    if x < 2:
        return str(x)
    s = SETS[x >> 1]
    r = "^".join(sorted(show_atom(a) for a in s))
    return ("!" if x & 1 else "") + r


def show_atom(a):
    d = ATOMS[a]
    if d[0] == "t":
        return "%s[%d]" % (show(TLIST[d[1]]), d[2])
    if d[0] == "and":
        return "(%s&%s)" % (show_bit(d[1]), show_bit(d[2]))
    return str(d)


def _single(x):
    """(term id, bit index, inverted) of a one-atom bit"""
    s = SETS[x >> 1]
    if len(s) == 1:
        (a,) = s
        d = ATOMS[a]
        if d[0] == "t":
            return d[1], d[2], x & 1
    return None


_depth = 0


def show(v, lim=400):
    global _depth
    if _depth >= 3:
        return "…"
    _depth += 1
    try:
        r = _show(v)
    finally:
        _depth -= 1
    return r if len(r) <= lim else r[:lim] + "..."


def _show(v):
    if type(v) is int:
        return "%#x" % v
    if type(v) is Term:
        if v.op == "in":
            return str(v.args)
        if v.op == "lin":
            m = 1 << v.nb
            sg = lambda k: k if k < m // 2 else k - m
            return "(" + " + ".join(([str(sg(v.args[0]))] if v.args[0] else []) + ["%s%s" % ("" if k == 1 else "%d*" % sg(k), show(TLIST[t])) for t, k in v.args[1]]) + ")"
        if v.op == "bv":
            return show(BV(v.args))
        return "%s(%s)" % (v.op, ",".join(show(a) if isinstance(a, (Term, BV, int)) else str(a) for a in (v.args if isinstance(v.args, tuple) else (v.args,))))
    if type(v) is BV:
        out = []
        b = v.b
        i = len(b) - 1
        while i >= 0:
            x = b[i]
            if x < 2:
                j = i
                while j >= 0 and b[j] == x:
                    j -= 1
                out.append("%d{%d}" % (x, i - j))
                i = j
                continue
            s = _single(x)
            if s:
                j = i - 1
                k = s[1] - 1
                while j >= 0 and b[j] >= 2 and _single(b[j]) == (s[0], k, s[2]):
                    j -= 1
                    k -= 1
                if i - j > 1:
                    out.append("%s%s[%d..%d]" % ("!" if s[2] else "", show(TLIST[s[0]]), s[1], k + 1))
                    i = j
                    continue
            out.append(show_bit(x))
            i -= 1
        return "<" + " ".join(out) + ">"
    return repr(v)
