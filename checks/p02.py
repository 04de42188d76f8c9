"""Bit packing contract.  BitPack (growable, fixed buffer, reader) is analysed on unknown data against the LSB-first
bit-sequence specification: for every alignment and width the packed bytes, the returned field and the reported position
are those of the specification, and a field that does not fit is refused with its width, position unchanged."""
from main import *

ASSUMPTIONS = ["widths 1..32 (write/read), 1..8 (write_bits/read_bits); byte-wise operations start on a byte boundary",
               "buffers of up to 12 bytes; longer buffers only repeat the alignment classes"]


def scenarios(e):
    r = []
    for k in range(0, 18):
        r.append(("vec/%d" % k, "vec", k))
        r.append(("mut/%d" % k, "mut", k))
        r.append(("read/%d" % k, "read", k))
        r.append(("skip/%d" % k, "skip", k))
    for h in range(16 if e.tier != "thorough" else 120):
        r.append(("history/%d" % h, "history", h))
    r.append(("bytes", "bytes"))
    for k in range(1, 33):
        r.append(("rt/%d" % k, "rt", k))
    return r


def run(e, sc):
    globals()["s_" + sc[1]](e, *sc[2:])


def lo(n, w):
    """LSB first"""
    return list(bits(sym(n, 32), 32)[:w])


def pack(seq, nbytes=None):
    out = []
    for i in range(0, len(seq), 8):
        ch = list(seq[i: i + 8])
        out.append(mk(tuple(ch + [0] * (8 - len(ch)))))
    if nbytes is not None:
        out += [0] * (nbytes - len(out))
    return out


def eqbytes(got, want):
    return len(got) == len(want) and same_all(zip(got, want), 8)


def val(seq, w=32):
    return mk(tuple(seq) + (0,) * (w - len(seq)))


def okres(e, r, key, what):
    """Result<(), usize> must be Ok"""
    return e.expect(r.v == 0, key + ":ok", lambda: "%s returns Err, expected Ok" % what)


def errres(e, r, n, key, what):
    return e.expect(r.v == 1 and r.f[0] == n, key + ":refused", lambda: "%s returns %s(%s), expected Err(%d)" % (what, "Err" if r.v == 1 else "Ok", r.f, n))


def pre(e, w, fn, k):
    """k bits of prefix"""
    seq = []
    i = 0
    while k > 0:
        n = min(7, k)
        okres(e, e.call(fn, w, sym("p%d" % i, 32), n), "prefix", "write(%d)" % n)
        seq += lo("p%d" % i, n)
        k -= n
        i += 1
    return seq


def s_vec(e, k):
    def one(fn, n):
        for ctor, a in (("bp_new", ()), ("bp_with_capacity", (5,))):
            w = cell(e.call(ctor, *a))
            seq = pre(e, w, "bp_write", k)
            r = e.call(fn, w, sym("x", 32), n)
            what = "%s(x, %d) at bit %d" % (fn, n, k)
            if n > 32:
                errres(e, r, n, fn, what)
                e.expect(e.call("bp_sum_bits", w) == len(seq), fn + ":position", what + ": position moved by a refused write")
                continue
            okres(e, r, fn, what)
            seq = seq + lo("x", n)
            sb = e.call("bp_sum_bits", w)
            e.expect(sb == len(seq), fn + ":position", lambda: "%s: sum_bits is %s, expected %d" % (what, sb, len(seq)))
            okres(e, e.call("bp_write", w, sym("y", 32), 9), fn, what + " then write")
            seq += lo("y", 9)
            got = unbox(e.call("bp_into_vec", w.c[0]))
            e.expect(eqbytes(got, pack(seq)), fn + ":content", lambda: "%s: bytes are %s, expected %s" % (what, got, pack(seq)))

    for fn, ns in (("bp_write", list(range(1, 34)) + [64]), ("bp_write_bits", range(1, 9))):
        for n in ns:
            for _ in e.explore(lambda: one(fn, n), key=fn):
                pass


def s_mut(e, k):
    def one(fn, n, nb):
        buf = [0] * nb
        w = cell(e.call("bpm_new", Ptr(buf, 0, nb)))
        seq = pre(e, w, "bpm_write", k)
        r = e.call(fn, w, sym("x", 32), n)
        what = "%s(x, %d) at bit %d of %d" % (fn, n, k, nb * 8)
        if n > 32 or k + n > nb * 8:
            errres(e, r, n, fn, what)
        else:
            okres(e, r, fn, what)
            seq = seq + lo("x", n)
        e.expect(eqbytes(buf, pack(seq, nb)), fn + ":content", lambda: "%s: bytes are %s, expected %s" % (what, buf, pack(seq, nb)))
        # the next write continues there
        if len(seq) + 5 <= nb * 8:
            r = e.call("bpm_write", w, sym("y", 32), 5)
            okres(e, r, fn, what + " then write")
            seq = seq + lo("y", 5)
            e.expect(eqbytes(buf, pack(seq, nb)), fn + ":content", lambda: "%s then write: bytes are %s, expected %s" % (what, buf, pack(seq, nb)))

    base = (k + 7) // 8
    for nb in sorted(set([base, base + 1, base + 4, base + 5])):
        for fn, ns in (("bpm_write", list(range(1, 34))), ("bpm_write_bits", range(1, 9))):
            for n in ns:
                for _ in e.explore(lambda: one(fn, n, nb), key=fn):
                    pass


def rseq(nb):
    s = []
    for i in range(nb):
        s += list(bits(sym("m%d" % i, 8), 8))
    return s


def rd(e, nb):
    return cell(e.call("bpr_new", slicep([sym("m%d" % i, 8) for i in range(nb)])))


def chk(e, r, want, w, n, key, what):
    if want is None:
        return errres(e, r, n, key, what)
    return e.expect(r.v == 0 and same(r.f[0], want, w), key + ":value", lambda: "%s returns %s(%s), expected Ok(%s)" % (what, "Ok" if r.v == 0 else "Err", show(r.f[0]), show(want)))


def tail(e, p, seq, pos, what):
    sb = e.call("bpr_sum_bits", p)
    e.expect(sb == pos, "position", lambda: "%s: position is %s, expected %d" % (what, sb, pos))
    while pos < len(seq):
        n = min(5, len(seq) - pos)
        if not chk(e, e.call("bpr_read", p, n), val(seq[pos: pos + n]), 32, n, "position", "%s; read(%d) at bit %d" % (what, n, pos)):
            return
        pos += n
    errres(e, e.call("bpr_read", p, 1), 1, "position", what + "; read(1) at the end")


def s_read(e, k):
    def one(nb, fn, n):
        p = rd(e, nb)
        seq = rseq(nb)
        pos = 0
        while pos < k:
            m = min(7, k - pos)
            chk(e, e.call("bpr_read_bits", p, m), val(seq[pos: pos + m], 8), 8, m, "read_bits", "read_bits(%d) at bit %d" % (m, pos))
            pos += m
        what = "%s(%d) at bit %d of %d" % (fn, n, pos, len(seq))
        wd = 32 if fn == "bpr_read" else 8
        fits = n <= 32 and pos + n <= len(seq)
        if chk(e, e.call(fn, p, n), val(seq[pos: pos + n], wd) if fits else None, wd, n, fn, what):
            tail(e, p, seq, pos + n if fits else pos, what)

    base = (k + 7) // 8
    for nb in sorted(set([base, base + 1, base + 5])):
        for fn, ns in (("bpr_read", range(1, 34)), ("bpr_read_bits", range(1, 9))):
            for n in ns:
                for _ in e.explore(lambda: one(nb, fn, n), key=fn):
                    pass


def s_skip(e, k):
    def one(nb, j, via):
        p = rd(e, nb)
        seq = rseq(nb)
        pos = 0
        if via == "read":
            while pos < k:
                m = min(8, k - pos)
                e.call("bpr_read_bits", p, m)
                pos += m
        else:
            r = e.call("bpr_skip", p, k)
            okres(e, r, "skip", "skip(%d)" % k)
            pos = k
        r = e.call("bpr_skip", p, j)
        what = "%s %d bits; skip(%d) of %d" % (via, k, j, len(seq))
        if pos + j <= len(seq):
            okres(e, r, "skip", what)
            pos += j
        else:
            errres(e, r, j, "skip", what)
        tail(e, p, seq, pos, what)

    for nb in ((k + 7) // 8, (k + 7) // 8 + 3):
        for j in range(0, 28):
            for via in ("read", "skip"):
                for _ in e.explore(lambda: one(nb, j, via), key="skip"):
                    pass


def s_bytes(e):
    def one(a, n):
        nb = a + n + 6
        p = rd(e, nb)
        seq = rseq(nb)
        okres(e, e.call("bpr_skip_n_byte", p, a), "skip_n_byte", "skip_n_byte(%d)" % a)
        pos = a * 8
        r = e.call("bpr_read_byte", p)
        chk(e, r, val(seq[pos: pos + 8], 8), 8, 8, "read_byte", "read_byte at byte %d" % a)
        pos += 8
        r = e.call("bpr_read_n_byte", p, n)
        want = [val(seq[pos + 8 * i: pos + 8 * i + 8], 8) for i in range(n)]
        if e.expect(r.v == 0, "read_n_byte", "read_n_byte(%d) refused" % n):
            got = unbox(r.f[0])
            e.expect(eqbytes(got, want), "read_n_byte:value", lambda: "read_n_byte(%d) gives %s" % (n, got))
        pos += 8 * n
        r = e.call("bpr_read_u32", p)
        chk(e, r, val(seq[pos: pos + 32]), 32, 32, "read_u32", "read_u32 at byte %d" % (pos // 8))
        pos += 32
        r = e.call("bpr_read_u32", p)
        chk(e, r, None, 32, 32, "read_u32", "read_u32 near the end")
        tail(e, p, seq, pos, "byte-wise reads")

    def wr(nbyte, m):
        w = cell(e.call("bp_new"))
        for i in range(nbyte):
            e.call("bp_write_byte", w, sym("c%d" % i, 8))
        e.call("bp_finish_write_byte", w)
        sb = e.call("bp_sum_bits", w)
        e.expect(sb == nbyte * 8, "finish_write_byte", "sum_bits after %d bytes: %s" % (nbyte, sb))
        seq = []
        for i in range(nbyte):
            seq += list(bits(sym("c%d" % i, 8), 8))
        for j in range(3):
            okres(e, e.call("bp_write_bits", w, sym("d%d" % j, 32), m), "write_bits", "write_bits(%d)" % m)
            seq += lo("d%d" % j, m)
        got = unbox(e.call("bp_into_vec", w.c[0]))
        e.expect(eqbytes(got, pack(seq)), "write_byte:content", lambda: "%d bytes then 3 x %d bits: %s, expected %s" % (nbyte, m, got, pack(seq)))

    for a in range(0, 4):
        for n in range(0, 4):
            for _ in e.explore(lambda: one(a, n), key="bytes"):
                pass
    for a in range(0, 5):
        for m in range(1, 9):
            for _ in e.explore(lambda: wr(a, m), key="write_byte"):
                pass


def s_rt(e, k):
    def one(b):
        w = cell(e.call("bp_new"))
        for nm, n in (("x", k), ("y", b), ("z", k)):
            okres(e, e.call("bp_write", w, sym(nm, 32), n), "roundtrip", "write(%d)" % n)
        got = unbox(e.call("bp_into_vec", w.c[0]))
        p = cell(e.call("bpr_new", slicep(got)))
        for nm, n in (("x", k), ("y", b), ("z", k)):
            chk(e, e.call("bpr_read", p, n), val(lo(nm, n)), 32, n, "roundtrip", "field %s of widths (%d,%d,%d) read back" % (nm, k, b, k))

    for b in range(1, 33):
        for _ in e.explore(lambda: one(b), key="roundtrip"):
            pass


def s_history(e, h):
    """long sequences of fields, packed into a growing and into a fixed buffer, and unpacked with reads, skips and refused reads"""
    import random
    r = random.Random("p02-%d" % h)
    nbits = (700, 2100, 4200, 2600)[h % 4]
    ops, n = [], 0
    while n < nbits:
        k = r.choice((r.randrange(1, 33), r.randrange(1, 9), 32, 1, 8))
        ops.append((("write_bits" if k <= 8 and r.random() < 0.5 else "write"), k))
        n += k

    def go():
        seq = []
        for i, (_, k) in enumerate(ops):
            seq += lo("x%d" % i, k)
        nb = (len(seq) + 7) // 8
        w = cell(e.call("bp_with_capacity", nb // 2) if h % 2 else e.call("bp_new"))
        buf = [0] * (nb + 1)
        m = cell(e.call("bpm_new", Ptr(buf, 0, nb + 1)))
        for i, (fn, k) in enumerate(ops):
            okres(e, e.call("bp_" + fn, w, sym("x%d" % i, 32), k), "history", "%s(%d), field %d" % (fn, k, i))
            okres(e, e.call("bpm_" + fn, m, sym("x%d" % i, 32), k), "history", "%s(%d), field %d" % (fn, k, i))
        got = unbox(e.call("bp_into_vec", w.c[0]))
        e.expect(eqbytes(got, pack(seq)), "history:content", "%d fields are packed differently" % len(ops))
        e.expect(eqbytes(buf, pack(seq, nb + 1)), "history:content", "%d fields are packed differently into a slice" % len(ops))
        p = cell(e.call("bpr_new", slicep(got)))
        seq += [0] * (-len(seq) % 8)
        pos, bitwise = 0, False
        for i in range(3 * len(ops)):
            op = r.choice(("read", "read_bits", "read", "skip", "bytes")) if i > 12 else "bytes"
            k = r.randrange(1, 9) if op == "read_bits" else r.choice((r.randrange(1, 33), 32, 33, 40)) if op == "read" else r.randrange(0, 70)
            what = "%s(%d) at bit %d of %d" % (op, k, pos, len(seq))
            fits = pos + k <= len(seq)
            bitwise = bitwise or op != "bytes"
            if op == "skip":
                x = e.call("bpr_skip", p, k)
                okres(e, x, "history", what) if fits else errres(e, x, k, "history", what)
            elif op == "bytes":
                # byte-wise reads come before the first bit-wise one (the byte columns of a chunk precede its bit columns)
                if i > 12 or bitwise or pos + 80 > len(seq):
                    continue
                k = r.choice((8, 32, 24))
                fits = True
                if k == 8:
                    chk(e, e.call("bpr_read_byte", p), val(seq[pos: pos + 8], 8), 8, 8, "history", "read_byte at bit %d" % pos)
                elif k == 32:
                    chk(e, e.call("bpr_read_u32", p), val(seq[pos: pos + 32]), 32, 32, "history", "read_u32 at bit %d" % pos)
                else:
                    x = e.call("bpr_read_n_byte", p, 3)
                    e.expect(x.v == 0 and eqbytes(unbox(x.f[0]), pack(seq[pos: pos + 24])), "history", "read_n_byte(3) at bit %d gives other bytes" % pos)
            else:
                wd = 8 if op == "read_bits" else 32
                fits = fits and k <= 32
                if not chk(e, e.call("bpr_" + op, p, k), val(seq[pos: pos + k], wd) if fits else None, wd, k, "history", what):
                    return
            if fits:
                pos += k
        tail(e, p, seq, pos, "after the history")

    for _ in e.explore(go, key="history"):
        pass


def post(e, stats, und):
    if stats.get("obligations", 0) < 1000 and not und:
        yield "floor", "only %d obligations" % stats.get("obligations", 0)
