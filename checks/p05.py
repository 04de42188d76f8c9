"""Fixed-point conversion.  The conversion is analysed for every exponent and number of fraction bits with the mantissa
unknown; the result must be the truncation of |v| * 2^n, bit for bit from the mantissa, in two's complement for negative v.
The table of fraction bits per decimal digits is compared with exact arithmetic (enough bits for half a unit of the last
decimal, monotone)."""
from ebi import *

ASSUMPTIONS = ["|v| * 2^n < 2^63 (beyond, the value does not fit the fixed representation)"]


def scenarios(e):
    return [("table", "table"), ("flip", "flip")] + [("fixed/%d" % n, "fixed", n) for n in range(0, 63)]


def run(e, sc):
    globals()["s_" + sc[1]](e, *sc[2:])


def s_table(e):
    n = e.call("fx_nbits")
    prev = -1
    e.expect(n >= 13, "table:length", "%d entries" % n)
    for d in range(n):
        b = e.call("fx_bits", d)
        need = (10 ** d).bit_length() + 1 if d else 0
        e.expect(type(b) is int and b >= need, "table:bits", lambda: "%s fraction bits for %d decimals; an error below half a unit needs %d" % (b, d, need))
        e.expect(type(b) is int and b > prev and b <= 62, "table:order", lambda: "%s fraction bits for %d decimals, %s for one less" % (b, d, prev))
        prev = b


def s_flip(e):
    x = sym("x", 8)
    for out in e.explore(lambda: e.call("fx_flip", x), key="flip"):
        if out[0] == "ok":
            e.expect(same(out[1], o_xor(x, 0x80, 8), 8), "flip", lambda: "the order-preserving byte is %s" % out[1])


def s_fixed(e, n):
    m = bits(f64("v"), 64)[:52]
    exps = range(-1023, 63 - n)
    if e.tier != "thorough":
        exps = [x for x in exps if x >= -n - 3 or x in (-1023, -1022, -1021, -600, -64, -65, -63)]
    for ex in exps:
        for sg in (0, 1):
            v = mk(m + bits(ex + 1023, 11) + (sg,))
            if ex < -n:
                want = 0
            else:
                full = (0,) * 11 + m + (1,)
                sh = 63 - ex - n
                mag = mk(full[sh:] + (0,) * sh)
                want = o_sub(0, mag, 64) if sg else mag
            for out in e.explore(lambda: e.call("fx_fixed", v, n), key="fixed"):
                if out[0] == "ok":
                    e.expect(proves(out[1], want, 64) or o_sub(norm(out[1], 64), want, 64) == 0 or same(out[1], want, 64), "fixed",
                             lambda: "a %s number with exponent %d and %d fraction bits becomes %s, expected %s" % ("negative" if sg else "positive", ex, n, out[1], want))


def post(e, stats, und):
    if stats.get("obligations", 0) < 4000 and not und:
        yield "floor", "only %d obligations" % stats.get("obligations", 0)
