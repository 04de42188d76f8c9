"""Bit stream contract.  BufferedBitWriter / BufferedBitReader are analysed on unknown data against the bit-sequence
specification: for every alignment, every field width and every operation, the abstract contents (bit by bit, as
provenance of input bits), the bit count and the cursor must be those of the specification."""
from main import *

ASSUMPTIONS = ["field widths 0..64 (write) and 1..64 (read)", "every operation pair on buffers of up to 12 bytes; long histories (up to 400 operations, 750 bytes) from a fixed set of pseudo-random operation sequences, the data unknown"]


def scenarios(e):
    r = []
    deep = e.tier == "thorough"
    for k in list(range(0, 18)) + ([23, 24, 31, 64, 65] if deep else []):
        for via in ("bw_", "bwr_"):
            r.append(("write/%s/%d" % (via, k), "write", via, k))
            r.append(("cursor/%s/%d" % (via, k), "cursor", via, k))
    for k in range(0, 18):
        for via in ("br_", "brr_"):
            r.append(("read/%s/%d" % (via, k), "read", via, k))
        r.append(("skip/%d" % k, "skip", k))
    for h in range(24 if not deep else 200):
        r.append(("history/write/%d" % h, "whistory", h))
        r.append(("history/read/%d" % h, "rhistory", h))
    r.append(("ctor", "ctor"))
    for a in range(0, 65, 1 if deep else 3):
        r.append(("rt/%d" % a, "rt", a))
    return r


def xbits(n, w):
    """specification: the low w bits of input n, first written first (MSB first)"""
    b = bits(sym(n), 64)
    return [b[i] for i in range(w - 1, -1, -1)]


def pack(seq):
    """bit sequence -> bytes, zero padded"""
    out = []
    for i in range(0, len(seq), 8):
        ch = list(seq[i: i + 8])
        ch += [0] * (8 - len(ch))
        out.append(mk(tuple(reversed(ch))))
    return out


def eqbytes(got, want):
    return len(got) == len(want) and same_all(zip(got, want), 8)


def state(e, w, seq, what, key):
    """compare the writer's observable state with the specified bit sequence"""
    n = e.call("bw_count", w)
    e.expect(n == len(seq), key + ":count", lambda: "%s: number_of_bits_written is %s, expected %d" % (what, n, len(seq)))
    got = unbox(e.call("bw_slice", w))
    e.expect(eqbytes(got, pack(seq)), key + ":content", lambda: "%s: buffer is %s, expected %s" % (what, got, pack(seq)))
    return n


def run(e, sc):
    globals()["s_" + sc[1]](e, *sc[2:])


def mkw(e, k):
    w = cell(e.call("bw_new"))
    seq = []
    if k:
        if k <= 64:
            e.call("bw_write_bits", w, sym("p"), k)
            seq = xbits("p", k)
        else:
            e.call("bw_write_bits", w, sym("p"), 64)
            e.call("bw_write_bits", w, sym("q"), k - 64)
            seq = xbits("p", 64) + xbits("q", k - 64)
    return w, seq


def s_write(e, via, k):
    def one(n):
        w, seq = mkw(e, k)
        state(e, w, seq, "after write_bits(p,%d) on a new writer" % k, "write_bits")
        e.call(via + "write_bits", w, sym("x"), n)
        seq = seq + xbits("x", n)
        state(e, w, seq, "write_bits(x,%d) at bit %d" % (n, k), "write_bits")
        e.call(via + "write_bit", w, sym("b", 1))
        seq = seq + [bits(sym("b", 1), 1)[0]]
        state(e, w, seq, "write_bit after write_bits(x,%d) at bit %d" % (n, k), "write_bit")
        e.call(via + "write_byte", w, sym("c", 8))
        seq = seq + list(reversed(bits(sym("c", 8), 8)))
        state(e, w, seq, "write_byte after %d bits" % (k + n + 1), "write_byte")
        if via == "bwr_":
            c = e.call("bwr_count", w)
            e.expect(c == len(seq), "count:ref", "number_of_bits_written through &mut: %s, expected %d" % (c, len(seq)))
            c = e.call("bwr_slice_len", w)
            e.expect(c == len(pack(seq)), "as_slice:ref", "as_slice().len() through &mut: %s, expected %d" % (c, len(pack(seq))))
        bx = unbox(e.call("bw_close", w.c[0]))
        e.expect(eqbytes(bx, pack(seq)), "close:content", lambda: "close() gives %s, expected %s" % (bx, pack(seq)))

    for n in range(0, 65):
        for _ in e.explore(lambda: one(n), key="write"):
            pass
    e.samples.append({"prefix_bits": k, "via": via, "widths": "0..64"})


def s_cursor(e, via, k):
    def one(c, pre):
        w, seq = mkw(e, k)
        for i in range(pre):
            e.call("bw_write_byte", w, sym("d%d" % i, 8))
            seq = seq + list(reversed(bits(sym("d%d" % i, 8), 8)))
        e.call(via + "set_cursor", w, c)
        seq = seq[:c] + [0] * (c - len(seq))
        state(e, w, seq, "set_cursor_at_in_bit(%d) of %d bits" % (c, k + 8 * pre), "set_cursor")
        e.call("bw_write_bits", w, sym("x"), 11)
        seq = seq + xbits("x", 11)
        state(e, w, seq, "write_bits after set_cursor_at_in_bit(%d)" % c, "set_cursor:write")
        e.call(via + "reset", w)
        state(e, w, [], "reset", "reset")
        e.call("bw_write_bits", w, sym("y"), 5)
        state(e, w, xbits("y", 5), "write_bits after reset", "reset:write")

    for pre in (0, 2):
        for c in range(0, k + 8 * pre + 12):
            for _ in e.explore(lambda: one(c, pre), key="set_cursor"):
                pass


def s_ctor(e):
    def one(nm, args):
        w = cell(e.call(nm, *args))
        state(e, w, [], nm, "ctor")
        e.call("bw_write_bit", w, sym("b", 1))
        e.call("bw_write_bits", w, sym("x"), 9)
        state(e, w, [bits(sym("b", 1), 1)[0]] + xbits("x", 9), nm + " then writes", "ctor")

    for nm, args in (("bw_new", ()), ("bw_default", ()), ("bw_with_capacity", (16,)), ("bw_with_capacity", (0,))):
        for _ in e.explore(lambda: one(nm, args), key="ctor"):
            pass
    for _ in e.explore(lambda: one("bw_from_vec", (vecv([sym("old%d" % i, 8) for i in range(3)]),)), key="ctor"):
        pass


def rbits(nbytes):
    seq = []
    for i in range(nbytes):
        seq += list(reversed(bits(sym("m%d" % i, 8), 8)))
    return seq


def val(seq):
    return mk(tuple(reversed(seq)) + (0,) * (64 - len(seq)))


def chkopt(e, r, want, w, what, key):
    """r: Option<..>; want: None or value"""
    if want is None:
        e.expect(r.v == 0, key + ":end", lambda: "%s returns Some(%s), expected None" % (what, r.f))
        return r.v == 0
    e.expect(r.v == 1 and same(r.f[0], want, w), key + ":value", lambda: "%s returns %s, expected Some(%s)" % (what, "None" if r.v == 0 else "Some(%s)" % show(r.f[0]), show(want)))
    return r.v == 1


def reader(e, nbytes):
    return cell(e.call("br_new", vecv([sym("m%d" % i, 8) for i in range(nbytes)])))


def tail(e, rd, seq, pos, what):
    """the reader must now be at bit `pos`: read everything that is left"""
    left = len(seq) - pos
    p = pos
    while left > 0:
        n = min(64, left)
        r = e.call("br_read_bits", rd, n)
        if not chkopt(e, r, val(seq[p: p + n]), 64, "%s; then read_bits(%d) at bit %d" % (what, n, p), "position"):
            return
        p += n
        left -= n
    r = e.call("br_read_bit", rd)
    chkopt(e, r, None, 1, "%s; read_bit at the end" % what, "position")


def s_read(e, via, k):
    def one(nb, op, n):
        rd = reader(e, nb)
        seq = rbits(nb)
        pos = 0
        # advance to bit k with reads of at most 13 bits
        while pos < k:
            m = min(13, k - pos)
            r = e.call("br_read_bits", rd, m)
            chkopt(e, r, val(seq[pos: pos + m]) if pos + m <= len(seq) else None, 64, "read_bits(%d) at bit %d of %d" % (m, pos, len(seq)), "read_bits")
            pos += m
        w = {"read_bit": 1, "read_byte": 8}.get(op, n)
        okk = pos + w <= len(seq)
        args = (n,) if op in ("read_bits", "peak_bits") else ()
        r = e.call(via + op, rd, *args)
        what = "%s(%s) at bit %d of %d" % (op, n if args else "", pos, len(seq))
        wd = 1 if op == "read_bit" else 8 if op == "read_byte" else 64
        want = val(seq[pos: pos + w]) if okk else None
        if not chkopt(e, r, want, wd, what, op):
            return
        if okk and op != "peak_bits":
            pos += w
        tail(e, rd, seq, pos, what)
        e.call("br_reset", rd)
        if nb:
            r = e.call("br_read_byte", rd)
            chkopt(e, r, val(seq[:8]), 8, "read_byte after reset", "reset")

    nbs = sorted(set([(k + 7) // 8, (k + 7) // 8 + 1, (k + 7) // 8 + 8, (k + 7) // 8 + 9]))
    for nb in nbs:
        for op in ("read_bit", "read_byte"):
            for _ in e.explore(lambda: one(nb, op, 0), key=op):
                pass
        lim = min(64, nb * 8 - k + 2)
        for n in sorted(set(list(range(1, lim + 1)) if nb == nbs[-1] or e.tier == "thorough" else [1, 7, 8, 9, lim - 2, lim - 1, lim, 63, 64])):
            if 1 <= n <= 64:
                for op in ("read_bits", "peak_bits"):
                    for _ in e.explore(lambda: one(nb, op, n), key=op):
                        pass


def s_skip(e, k):
    def one(nb, j, mode):
        rd = reader(e, nb)
        seq = rbits(nb)
        if k:
            e.call("br_skip_bits", rd, k)
        e.call("br_skip_bits", rd, j)
        pos = k + j
        what = "skip_bits(%d), skip_bits(%d) of %d" % (k, j, len(seq))
        if mode == "peek":
            for n in (1, 8, 9, 64):
                r = e.call("br_peak_bits", rd, n)
                if not chkopt(e, r, val(seq[pos: pos + n]) if pos + n <= len(seq) else None, 64, "%s; peak_bits(%d)" % (what, n), "skip"):
                    return
            r = e.call("br_read_byte", rd)
            chkopt(e, r, val(seq[pos: pos + 8]) if pos + 8 <= len(seq) else None, 8, "%s; read_byte" % what, "skip")
        else:
            if pos < len(seq):
                b = e.call("br_read_bit_unchecked", rd)
                e.expect(same(b, mk((seq[pos],)), 1), "unchecked:bit", lambda: "%s; read_bit_unchecked gives %s" % (what, show(b)))
                pos += 1
            if pos + 8 <= len(seq):
                b = e.call("br_read_byte_unchecked", rd)
                e.expect(same(b, val(seq[pos: pos + 8]), 8), "unchecked:byte", lambda: "%s; read_byte_unchecked gives %s, expected %s" % (what, show(b), show(val(seq[pos: pos + 8]))))
                pos += 8
            tail(e, rd, seq, min(pos, len(seq)), what) if pos <= len(seq) else None

    for nb in (0, 1, 2, 3, 4):
        for j in range(0, 26):
            for mode in ("peek", "unchecked"):
                for _ in e.explore(lambda: one(nb, j, mode), key="skip"):
                    pass


def s_rt(e, a):
    """three fields written, then read back from the closed buffer"""
    def one(b, c):
        w = cell(e.call("bw_new"))
        for nm, n in (("x", a), ("y", b), ("z", c)):
            e.call("bw_write_bits", w, sym(nm), n)
        bx = unbox(e.call("bw_close", w.c[0]))
        rd = cell(e.call("br_new", vecv(bx)))
        for nm, n in (("x", a), ("y", b), ("z", c)):
            if n:
                r = e.call("br_read_bits", rd, n)
                chkopt(e, r, val(xbits(nm, n)), 64, "field %s of widths (%d,%d,%d) read back" % (nm, a, b, c), "roundtrip")

    for b in (0, 1, 5, 8, 33, 64) if e.tier == "quick" else range(0, 65, 3):
        for c in (1, 7, 12, 64):
            for _ in e.explore(lambda: one(b, c), key="roundtrip"):
                pass


def rng(*a):
    import random
    return random.Random(repr(a))


def s_whistory(e, h):
    """long histories of writes with rewinding and resets, then read back"""
    r = rng("w", h)
    limit = (900, 2100, 4300, 6000)[h % 4]

    def go():
        w = cell(e.call(*(("bw_new",), ("bw_with_capacity", 300), ("bw_default",))[h % 3]))
        seq, i = [], 0
        while len(seq) < limit and i < 400:
            i += 1
            via = r.choice(("bw_", "bwr_"))
            k = r.random()
            if k < 0.2:
                e.call(via + "write_bit", w, sym("b%d" % i, 1))
                seq.append(bits(sym("b%d" % i, 1), 1)[0])
            elif k < 0.4:
                e.call(via + "write_byte", w, sym("c%d" % i, 8))
                seq += list(reversed(bits(sym("c%d" % i, 8), 8)))
            elif k < 0.93:
                n = r.choice((r.randrange(0, 65), r.randrange(0, 65), 64, 8, 32, 63))
                e.call(via + "write_bits", w, sym("x%d" % i), n)
                seq += xbits("x%d" % i, n)
            elif k < 0.99:
                c = max(0, len(seq) + r.choice((-1, -7, -8, -9, -64, -100, 0, 3, 9, 20)))
                e.call(via + "set_cursor", w, c)
                seq = seq[:c] + [0] * (c - len(seq))
            elif i < 40:
                e.call(via + "reset", w)
                seq = []
            if i % 50 == 0:
                state(e, w, seq, "after %d operations" % i, "history")
        state(e, w, seq, "after %d operations" % i, "history")
        bx = unbox(e.call("bw_close", w.c[0]))
        e.expect(eqbytes(bx, pack(seq)), "history:close", lambda: "close() after %d operations gives other bytes" % i)
        rd = cell(e.call("br_new", vecv(bx)))
        tail(e, rd, seq + [0] * (-len(seq) % 8), 0, "%d bits written by %d operations" % (len(seq), i))

    for _ in e.explore(go, key="history"):
        pass


def s_rhistory(e, h):
    """long histories of reads, peeks, skips, refused reads and resets"""
    r = rng("r", h)
    nb = (130, 260, 300, 530)[h % 4]

    def go():
        rd = reader(e, nb)
        seq = rbits(nb)
        pos = 0
        for i in range(260):
            via = r.choice(("br_", "brr_"))
            op = r.choice(("read_bits", "read_bits", "read_bits", "peak_bits", "read_bit", "read_byte", "skip", "reset" if r.random() < 0.15 else "read_bits"))
            what = "%s at bit %d of %d, operation %d" % (op, pos, len(seq), i)
            if op == "skip":
                n = r.randrange(0, 90)
                if pos + n > len(seq):
                    n = len(seq) - pos
                e.call("br_skip_bits", rd, n)
                pos += n
                continue
            if op == "reset":
                e.call("br_reset", rd)
                pos = 0
                continue
            n = {"read_bit": 1, "read_byte": 8}.get(op) or r.choice((r.randrange(1, 65), 64, 57))
            fits = pos + n <= len(seq)
            x = e.call(via + op, rd, *((n,) if op.endswith("bits") else ()))
            if not chkopt(e, x, val(seq[pos: pos + n]) if fits else None, 1 if op == "read_bit" else 8 if op == "read_byte" else 64, what, "history"):
                return
            if fits and op != "peak_bits":
                pos += n
            if not fits and r.random() < 0.5:
                e.call("br_reset", rd)
                pos = 0
        tail(e, rd, seq, pos, "after 260 operations")

    for _ in e.explore(go, key="history"):
        pass


def post(e, stats, und):
    if stats.get("obligations", 0) < 1000 and not und:
        yield "floor", "only %d obligations" % stats.get("obligations", 0)
