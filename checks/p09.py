"""Scheme tags and configurations.  For every scheme and unknown configuration contents: the stored form has the announced
size, reading it back under the scheme's tag gives a configuration that stores the same bytes, the compressor built from it is
of that scheme, and the scale of the quantizing schemes is what was set.  Tags, field types and chunk kinds that are not part
of the format are refused when a file is opened."""
from ebi import *

ASSUMPTIONS = ["compressors are built from default capacities (a capacity is only an allocation hint)"]


def scenarios(e):
    return [(s, "cfg", s) for s in SCHEMES] + [("tags", "tags"), ("header", "header")]


def run(e, sc):
    globals()["s_" + sc[1]](e, *sc[2:])


def stored(e, c):
    m = cell(mem(e, []))
    ok = e.call("cfg_serialize", c, m)
    return ok, unbox(e.call("mem_slice", m))


def s_cfg(e, s):
    t = TAG[s]

    def default():
        c = e.call("cfg_" + s)
        e.expect(e.call("cfg_scheme", cell(c)) == t, "tag", "the configuration of %s has tag %s" % (s, e.call("cfg_scheme", cell(c))))
        n = e.call("cfg_serialized_size", cell(c))
        ok, b = stored(e, e.call("cfg_" + s))
        if not e.expect(ok == 1 and len(b) == n and b[0] == n - 1, "size", lambda: "%s: serialized_size %s, %d bytes stored, size byte %s" % (s, n, len(b), b[:1])):
            return
        g = e.call("cfg_build", e.call("cfg_" + s))
        e.expect(e.call("c_scheme", cell(g)) == t, "build", "the configuration of %s builds a compressor of scheme %s" % (s, e.call("c_scheme", cell(g))))

    def unknown():
        n = e.call("cfg_serialized_size", cell(e.call("cfg_" + s))) - 1
        raw = [sym("c%d" % i, 8) for i in range(n)]
        r = e.call("cfg_from_le_bytes", t, slicep(list(raw)))
        if not e.expect(r.v == 1, "read", "tag %d is not accepted" % t):
            return
        e.expect(e.call("cfg_scheme", cell(r.f[0])) == t, "read:tag", "tag %d reads a configuration of scheme %s" % (t, e.call("cfg_scheme", cell(r.f[0]))))
        ok, b = stored(e, r.f[0])
        e.expect(ok == 1 and len(b) == n + 1 and b[0] == n and same_all(zip(b[1:], raw), 8), "roundtrip",
                 lambda: "%s: configuration bytes %s are stored again as %s" % (s, raw, b[1:]))

    def scale():
        x = sym("scale", 64)
        c = e.call("cfg_set_scale", e.call("cfg_" + s), x)
        r = e.call("cfg_scale", cell(c))
        if s in SCALED:
            e.expect(r.v == 1 and same(r.f[0], x, 64), "scale", lambda: "%s: scale %s after setting it to an unknown value" % (s, r))
            ok, b = stored(e, c)
            q = e.call("cfg_from_le_bytes", t, slicep(b[1:]))
            r = e.call("cfg_scale", cell(q.f[0])) if q.v == 1 else NONE
            e.expect(r.v == 1 and same(r.f[0], x, 64), "scale:stored", lambda: "%s: scale read back as %s" % (s, r))
        else:
            e.expect(r.v == 0, "scale", "%s reports a scale" % s)
            ok, b = stored(e, c)
            ok2, b2 = stored(e, e.call("cfg_" + s))
            e.expect(len(b) == len(b2) and same_all(zip(b, b2), 8), "scale", "%s: setting a scale changes the configuration" % s)

    for f in (default, unknown, scale):
        for _ in e.explore(f, key=f.__name__):
            pass


def s_tags(e):
    def one(t):
        r = e.call("cfg_from_le_bytes", t, slicep([0] * 64))
        e.expect(r.v == (1 if t in TAG.values() else 0), "tags", "tag %d is %s" % (t, "refused" if t in TAG.values() else "accepted"))

    for t in range(256):
        for _ in e.explore(lambda: one(t), key="tags"):
            pass


def s_header(e):
    def base():
        ok, b = encode(e, lebytes([f64("a"), f64("b")]), config(e, "uncompressed"), ("count", 1))
        return b

    def field(i, good, x):
        b = base()
        b[i] = x
        d = decode(e, b)
        e.expect(d is None, "header:refused", lambda: "a file with byte %d = %s in its header is accepted" % (i, x if type(x) is int else "any value from %s" % good))

    def hi(k):
        """an unknown byte of at least 2^k"""
        u = list(bits(sym("h", 8), 8))
        u[k] = 1
        return mk(tuple(u))

    for i, good in ((4, 1), (5, 13), (6, 3)):
        k = max(j for j in range(8) if 1 << j <= max(good, 1)) + (0 if good & (good - 1) == 0 else 1)
        xs = [hi(j) for j in range(k, 8)] + list(range(good, 1 << k))
        for x in xs:
            for _ in e.explore(lambda: field(i, good, x), key="header"):
                pass

    def keep():
        """header fields the decoder reports"""
        b = base()
        for i in (0, 1, 2, 3) + tuple(range(24, 30)):
            b[i] = sym("k%d" % i, 8)
        d = decode(e, b)
        if d is None:
            return
        v = e.call("dec_version", d)
        got = []
        for x in (v.f if hasattr(v, "f") else v):
            got += bytes_of(x, 2)
        e.expect(all(same(got[j], b[24 + j], 8) for j in range(6)), "header:version", lambda: "version bytes are read as %s" % got)

    for _ in e.explore(keep, key="header"):
        pass


def post(e, stats, und):
    if stats.get("obligations", 0) < 300 and not und:
        yield "floor", "only %d obligations" % stats.get("obligations", 0)
