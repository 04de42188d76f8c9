"""Loads the JSON-lines MIR dump written by the mirdump driver."""
import json, re


class Prog:
    def __init__(self, path):
        self.fns = {}
        self.tys = {}
        self.allocs = {}
        self.impls = {}
        self.generic = []
        self.end = None
        with open(path) as fh:
            for l in fh:
                r = json.loads(l)
                k = r[0]
                if k == "fn":
                    self.fns[r[1]["id"]] = r[1]
                elif k == "ty":
                    self.tys[r[1]["id"]] = r[1]
                elif k == "alloc":
                    self.allocs[r[1]] = r[2]
                elif k == "impls":
                    self.impls.setdefault(r[1], {}).update({n: f for n, f in r[2]})
                elif k == "generic":
                    self.generic.append(r[1])
                elif k == "end":
                    self.end = r[1]
        if self.end is None:
            raise RuntimeError("incomplete MIR dump")
        self.by_path = {}
        for f in self.fns.values():
            f["npath"] = norm_path(f["path"])
            f["ntr"] = norm_path(f["tr"]) if f["tr"] else ""
            self.by_path.setdefault(f["npath"], []).append(f)
        self.name_ty = {}
        for t in self.tys.values():
            self.name_ty.setdefault(t["name"], t["id"])

    def find(self, suffix, crate=None):
        """Functions whose normalised path ends with `suffix` (on a path boundary)."""
        r = []
        for p, fs in self.by_path.items():
            if p == suffix or p.endswith("::" + suffix):
                r += [f for f in fs if crate is None or f["crate"] == crate]
        return r

    def one(self, suffix, crate=None):
        r = [f for f in self.find(suffix, crate) if "blocks" in f]
        if len(r) != 1:
            raise KeyError("%d bodies for %s" % (len(r), suffix))
        return r[0]


_gen = re.compile(r"::<[^<>]*>")


def norm_path(p):
    """Drops generic arguments `::<..>` and lifetimes: std::vec::Vec::<T, A>::push -> std::vec::Vec::push."""
    # remove balanced ::<...> that are turbofish (but keep leading '<impl .. as ..>')
    out = []
    i = 0
    n = len(p)
    while i < n:
        if p.startswith("::<impl", i):
            out.append(p[i])
            i += 1
            continue
        if p.startswith("::<", i):
            d = 0
            j = i + 2
            while j < n:
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    s = "".join(out)
    s = re.sub(r"'[a-z_]+,? ?", "", s)
    return s
