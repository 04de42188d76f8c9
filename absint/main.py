"""python3 absint/main.py <property id> [--tier quick|thorough] [--only SCENARIO] [-v]

Decides one property on /repo's current tree.  Exit 0: no violation on anything analysed.  Exit 1: VIOLATION line.
"""
import importlib, json, multiprocessing, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "checks"))
sys.setrecursionlimit(30000)

import build, load  # noqa
import interp  # noqa
from interp import *  # noqa
import witness  # noqa


class Anchor(Exception):
    """an entry point the property is anchored at is missing"""


class Enough(Exception):
    """a scenario has shown enough violations; the rest of it is not analysed"""


class Env:
    """what a check module sees"""

    def __init__(self, prog, tier):
        self.prog = prog
        self.tier = tier
        self.it = Interp(prog)
        self._roots = {}
        self.findings = []
        self.stats = {"traces": 0, "obligations": 0, "undecided": 0, "panics": 0}
        self.undecided = {}
        self.cur = None
        self.samples = []

    def root(self, n):
        r = self._roots.get(n)
        if r is None:
            fs = [f for m in build.ROOTS for f in self.prog.find(m + "::" + n) if "blocks" in f]
            if not fs and (n in self.prog.meta["dropped"] or self.prog.meta["part"]):
                raise Undecided("entry point %s does not fit this tree" % n)
            if len(fs) != 1:
                raise Anchor("entry point %s: %d bodies" % (n, len(fs)))
            r = self._roots[n] = fs[0]["id"]
        return r

    def call(self, n, *a):
        return self.it.call(self.root(n), list(a))

    # -- obligations
    def bad(self, key, detail):
        """key: stable identity of the violation (no line numbers)"""
        if S.pos is not None:
            consistent()
        loc = []
        for fid in sorted(S.visited or ()):
            f = self.prog.fns[fid]
            if "verif_roots" in f["npath"] or "verif_full" in f["npath"] or "file" not in f:
                continue
            loc.append("%s (%s:%d)" % (f["npath"], short(f["file"]), f["line"]))
        w = None
        if S.pos is not None:
            m = witness.member()
            if m is None:
                # no input found that follows this trace: it may not exist, so it decides nothing
                self.stats["undecided"] += 1
                k = "no member found for a trace that breaks %s" % key
                self.undecided[k] = self.undecided.get(k, 0) + 1
                return
            w = witness.describe(m)
        self.findings.append({
            "key": key, "detail": detail, "scenario": self.cur, "functions": loc[:12], "member": w,
            "trace": ["%s -> %s" % (w, r) for w, r in S.log if w][:40],
        })
        if len(self.findings) >= 200:
            raise Enough()

    def ok(self, n=1):
        self.stats["obligations"] += n

    def expect(self, cond, key, detail):
        self.stats["obligations"] += 1
        if not cond:
            self.bad(key, detail() if callable(detail) else detail)
        return cond

    def explore(self, fn, on_panic=None, on_ub=None, max_paths=4000, key=""):
        """analyse fn() on every trace; an unexpected panic / out-of-bounds access is a violation unless handled"""
        res = []

        def root():
            S.visited = set()
            r = fn()
            if res is not None:
                pass
            return r

        for out in self.it.explore(root, max_paths):
            self.stats["traces"] += 1
            if out[0] == "undecided":
                self.stats["undecided"] += 1
                m = str(out[1])
                self.undecided[m] = self.undecided.get(m, 0) + 1
            elif out[0] == "panic":
                self.stats["panics"] += 1
                if on_panic is not None:
                    on_panic(out[1])
                else:
                    self.stats["obligations"] += 1
                    self.bad("panic:%s" % key, "panics: %s" % out[1])
            elif out[0] == "endless":
                self.stats["obligations"] += 1
                self.bad("endless:%s" % key, "does not finish: %s" % out[1])
                if len(self.findings) >= 3:
                    raise Enough()
            elif out[0] == "ub":
                if on_ub is not None:
                    on_ub(out[1])
                else:
                    self.stats["obligations"] += 1
                    self.bad("ub:%s" % key, "invalid memory access: %s" % out[1])
            yield out


def same(a, b, w):
    """are two abstract scalars equal on this trace?  Established: True; refuted by a member of the trace: False"""
    return same_any(a, (b,), w)


def proves(a, b, w):
    """True: certainly equal; False: certainly different; None: neither established"""
    a = norm(a, w)
    b = norm(b, w)
    if a is b or (type(a) is type(b) and a == b):
        return True
    if type(a) is int and type(b) is int:
        return a == b
    ds = [norm_bit(bxor(x, y)) for x, y in zip(bits(a, w), bits(b, w))]
    if all(d == 0 for d in ds):
        return True
    if 1 in ds:
        return False
    if w == 64:
        x, y = exact_int(a), exact_int(b)
        if x and y:
            n = max(x[1], y[1])
            p, q = shl_exact(x, n), shl_exact(y, n)
            if p is not None and q is not None:
                ds = [norm_bit(bxor(s, t)) for s, t in zip(bits(p, 64), bits(q, 64))]
                if all(d == 0 for d in ds):
                    return True
                if 1 in ds:
                    return False
    return None


def same_any(a, cs, w):
    """is a equal to one of cs?"""
    r = [proves(a, c, w) for c in cs]
    if True in r:
        return True
    for p, c in zip(r, cs):
        if p is None and witness.agree(a, c, w) is not False:
            # not established, and no member of the trace refutes it
            raise Undecided("not established: %s == %s" % (show(a, 120), show(c, 120)))
    return False


def same_all(pairs, w):
    """are all pairs equal?"""
    pairs = list(pairs)
    r = [proves(a, b, w) for a, b in pairs]
    if False in r:
        return False
    open_ = [(a, b) for p, (a, b) in zip(r, pairs) if p is None]
    left = None
    for a, b in open_:
        if witness.agree(a, b, w) is not False:
            left = (a, b)
        else:
            return False
    if left:
        raise Undecided("not established: %s == %s" % (show(left[0], 120), show(left[1], 120)))
    return True


def differ_possible(a, b, w):
    """could the two values differ?  False only if certainly equal"""
    return not same(a, b, w)


def sym(n, w=64):
    return term("in", n, w)


def vecv(vals):
    return Agg(0, [RV(list(vals)), len(vals)])


def slicep(vals):
    return Ptr(list(vals), 0, len(vals))


def cell(v):
    return Ptr([v], 0)


def unbox(p):
    """elements of a slice/box/vec value"""
    if type(p) is Agg and type(p.f[0]) is RV:
        return p.f[0].a[: p.f[1]]
    if type(p) is Ptr:
        if p.s is not None:
            import models
            return models.slice_vals(p, models.u8ty())
        return p.c[p.i: p.i + p.m]
    raise Undecided("not a sequence: %r" % (p,))


ENV = None
MOD = None


def _work(args):
    i, sc = args
    e = ENV
    e.findings = []
    e.stats = {"traces": 0, "obligations": 0, "undecided": 0, "panics": 0}
    e.undecided = {}
    e.samples = []
    e.cur = sc[0]
    S.nomerge = set()
    t = time.time()
    err = None
    S.visited = set()
    S.fuel_seen = 0
    try:
        MOD.run(e, sc)
    except Anchor as x:
        e.findings.append({"key": "anchor", "detail": str(x), "scenario": sc[0], "functions": [], "trace": []})
    except Undecided as x:
        e.stats["undecided"] += 1
        e.undecided[str(x)] = e.undecided.get(str(x), 0) + 1
    except Enough:
        pass
    except TimeUp:
        e.stats["undecided"] += 1
        e.undecided["time limit"] = 1
    except Exception as x:
        err = traceback.format_exc()
    vis = sorted(x for x in (S.visited or ()))
    return {"i": i, "sc": sc[0], "findings": e.findings, "stats": e.stats, "undecided": e.undecided, "samples": e.samples[:2], "wall": time.time() - t, "err": err, "vis": vis, "fuel": S.fuel_seen}


def main():
    global ENV, MOD
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    verbose = "-v" in sys.argv
    MOD = importlib.import_module(pid.lower().replace("-", "_"))
    try:
        dump = build.ensure_dump()
        prog = load.Prog(dump)
        prog.meta = json.load(open(dump + ".meta"))
    except Exception as x:
        f = {"key": "build", "detail": "the tree cannot be analysed: " + str(x)[-3000:], "scenario": "build", "functions": [], "trace": []}
        sys.exit(finish(pid, tier, t0, [f], {}, {}, [], 0, 0, None))
    ENV = Env(prog, tier)
    if tier != "quick":
        S.fuel_max *= 4
    S.deadline = t0 + float(os.environ.get("VERIF_LIMIT", 600 if tier == "quick" else 7200))
    err = None
    try:
        if hasattr(MOD, "prepare"):
            MOD.prepare(ENV)
        scs = MOD.scenarios(ENV)
    except Anchor as x:
        f = {"key": "anchor", "detail": str(x), "scenario": "prepare", "functions": [], "trace": []}
        sys.exit(finish(pid, tier, t0, [f], {}, {}, [], 0, 0, prog))
    if only:
        scs = [s for s in scs if s[0].startswith(only)]
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    results = []
    if jobs > 1 and len(scs) > 1:
        with multiprocessing.get_context("fork").Pool(jobs) as pool:
            cs = max(1, min(16, len(scs) // (jobs * 8)))
            for r in pool.imap_unordered(_work, list(enumerate(scs)), chunksize=cs):
                results.append(r)
                if r["findings"] and os.environ.get("VERIF_FIRST"):
                    pool.terminate()
                    break
    else:
        for x in enumerate(scs):
            results.append(_work(x))
    results.sort(key=lambda r: r["i"])
    findings, stats, und, samples = [], {}, {}, []
    vis = set()
    for r in results:
        findings += r["findings"]
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
        for k, v in r["undecided"].items():
            und[k] = und.get(k, 0) + v
        samples += r["samples"]
        vis.update(r["vis"])
        if r["err"]:
            # an internal error of the analyser decides nothing
            und["analyser: " + r["err"].strip().splitlines()[-1]] = und.get("analyser: " + r["err"].strip().splitlines()[-1], 0) + 1
            stats["undecided"] = stats.get("undecided", 0) + 1
            if verbose:
                print(r["sc"], r["err"])
    if verbose:
        for r in sorted(results, key=lambda r: -r["wall"])[:8]:
            print("  %-50s %.2fs %s" % (r["sc"], r["wall"], r["stats"]))
        print("  longest trace: %d blocks" % max([r["fuel"] for r in results] or [0]))
        for k, v in sorted(und.items(), key=lambda x: -x[1])[:30]:
            print("  undecided x%d: %s" % (v, k))
    if hasattr(MOD, "post") and not only:
        for k, d in MOD.post(ENV, stats, und):
            findings.append({"key": k, "detail": d, "scenario": "post", "functions": [], "trace": []})
    names = sorted(set(prog.fns[v]["npath"] for v in vis))
    sys.exit(finish(pid, tier, t0, findings, stats, und, samples, len(scs), names, prog, verbose, only))


def known():
    p = os.path.join(VERIF, "known_findings.jsonl")
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                r.append(json.loads(l))
    return r


def finish(pid, tier, t0, findings, stats, und, samples, nsc, names, prog, verbose=False, only=None):
    kf = {(k["property"], k["key"]): k for k in known() if k.get("status") == "known"}
    seen = {}
    for f in findings:
        seen.setdefault(f["key"], []).append(f)
    viol = [(k, fs) for k, fs in seen.items() if (pid, k) not in kf]
    kn = [(k, fs) for k, fs in seen.items() if (pid, k) in kf]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rp = os.path.join(VERIF, "evidence", pid + ".violations.json")
    for k, fs in kn:
        print("KNOWN-FINDING: property=%s %s" % (pid, kf[(pid, k)]["what"]))
    if viol:
        with open(rp, "w") as fh:
            json.dump([{"key": k, "count": len(fs), "first": fs[0], "details": sorted(set(f["detail"][:200] for f in fs))[:400], "replay": "python3 absint/main.py %s --only '%s' -v" % (pid, fs[0]["scenario"])} for k, fs in viol], fh, indent=1)
        for k, fs in viol[: (50 if verbose else 6)]:
            f = fs[0]
            print("violation %s [%s] (x%d): %s" % (k, f["scenario"], len(fs), f["detail"][:1500]))
            for x in f["functions"][:6]:
                print("    in %s" % x)
            for x in f["trace"][:10]:
                print("    when %s" % x[:160])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    else:
        if os.path.exists(rp):
            os.remove(rp)
    if only is None:
        rule = (MOD.__doc__ or "").strip() if MOD else ""
        cov = {
            "explanation": rule,
            "evaluations": stats.get("traces", 0),
            "distinct_nontrivial": stats.get("obligations", 0),
            "rule": "one evaluation = one abstract trace (partition) analysed; an obligation = one comparison of an abstract result with the rule's expectation on such a trace",
            "obligations": stats.get("obligations", 0),
            "scenarios": nsc,
            "undecided_traces": stats.get("undecided", 0),
            "undecided_reasons": [{"reason": k[:300], "count": v} for k, v in sorted(und.items(), key=lambda x: -x[1])[:12]],
            "functions_analysed": names if isinstance(names, list) else [],
            "samples": samples[:6] or [{"scenarios": nsc}],
        }
        if prog is not None:
            cov["mir"] = {k: prog.end[k] for k in ("fns", "tys", "roots", "generic")}
        if MOD is not None and hasattr(MOD, "coverage"):
            cov.update(MOD.coverage(ENV))
        ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
              "coverage": cov, "assumptions": getattr(MOD, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    print("%s: %d scenarios, %d traces, %d obligations, %d undecided, %d violations, %.1fs" % (pid, nsc, stats.get("traces", 0), stats.get("obligations", 0), stats.get("undecided", 0), len(viol), time.time() - t0))
    return 1 if viol else 0


if __name__ == "__main__":
    sys.modules["main"] = sys.modules["__main__"]
    main()
