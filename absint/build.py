"""Builds the MIR dump of /repo's current working tree (never executes it).

/repo/{ebi,alp-binding,cuda-binding}/src are copied next to the shadow manifests (the full workspace does not build in
this sandbox: the C++ submodule is missing; the shadow replaces only the `autocxx` binding generator by a stub), the
module roots/verif_roots.rs is appended to the copy of lib.rs and the crate is type-checked by the mirdump driver.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
PARTS = ["ebi", "alp-binding", "cuda-binding"]
ROOTS = ["verif_roots", "verif_full"]
MIRI_SYSROOT = "/root/.cache/miri"


class BuildError(Exception):
    pass


def _files(d):
    r = []
    for b, ds, fs in os.walk(d):
        ds.sort()
        if os.path.basename(b) == "target":
            ds[:] = []
            continue
        for f in sorted(fs):
            r.append(os.path.join(b, f))
    return r


def _hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


def _sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, check=True).stdout.strip()


def ensure_driver():
    exe = os.path.join(VERIF, "driver", "target", "debug", "mirdump")
    key = _hash([os.path.join(VERIF, "driver", x) for x in ("Cargo.toml", "src/main.rs")])
    stamp = exe + ".key"
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe
    env = dict(os.environ)
    for k in ("RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "RUSTC_WRAPPER"):
        env.pop(k, None)
    r = subprocess.run(["cargo", "+nightly", "build", "--offline"], cwd=os.path.join(VERIF, "driver"), capture_output=True, text=True, env=env)
    if r.returncode:
        raise BuildError("driver: " + r.stderr[-3000:])
    with open(stamp, "w") as fh:
        fh.write(key)
    return exe


def std_sysroot():
    """a sysroot whose std carries MIR (prebuilt for miri); built offline with `cargo miri setup` when absent"""
    if os.path.isdir(os.path.join(MIRI_SYSROOT, "lib")):
        return MIRI_SYSROOT
    r = subprocess.run(["cargo", "+nightly", "miri", "setup", "--print-sysroot"], capture_output=True, text=True)
    if r.returncode == 0 and r.stdout.strip():
        return r.stdout.strip()
    raise BuildError("no std with MIR: " + r.stderr[-500:])


def ensure_dump():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = ensure_driver()
        srcs = []
        for p in PARTS:
            srcs += _files(os.path.join(REPO, p, "src"))
        aux = _files(os.path.join(VERIF, "shadow")) + _files(os.path.join(VERIF, "roots")) + [os.path.join(VERIF, "driver", "stops.txt"), os.path.join(VERIF, "driver", "src", "main.rs"), os.path.join(VERIF, "absint", "build.py")]
        key = _hash(srcs + aux)
        out = os.path.join(BUILD, "dump-%s.jsonl" % key)
        if os.path.exists(out):
            return out
        sh = os.path.join(BUILD, "shadow")
        os.makedirs(sh, exist_ok=True)
        for f in _files(os.path.join(VERIF, "shadow")):
            d = os.path.join(sh, os.path.relpath(f, os.path.join(VERIF, "shadow")))
            _put(f, d)
        for p in PARTS:
            dst = os.path.join(sh, p, "src")
            want = set()
            for f in _files(os.path.join(REPO, p, "src")):
                rel = os.path.relpath(f, os.path.join(REPO, p, "src"))
                want.add(rel)
                if p == "ebi" and rel == "lib.rs":
                    with open(f) as fh:
                        txt = fh.read()
                    txt += "".join("\n#[path = \"%s.rs\"]\n#[allow(warnings)]\npub mod %s;\n" % (m, m) for m in ROOTS)
                    _puttext(txt, os.path.join(dst, rel))
                else:
                    _put(f, os.path.join(dst, rel))
            if p == "ebi":
                want.update(m + ".rs" for m in ROOTS)
            for f in _files(dst):
                if os.path.relpath(f, dst) not in want:
                    os.remove(f)
        tmp = out + ".tmp"
        meta = {"dropped": [], "part": False, "why": ""}
        try:
            _compile(exe, sh, os.path.join(sh, "ebi", "src"), ROOTS, tmp, meta)
        except BuildError as e:
            # the whole crate does not compile: analyse the modules the official build compiles
            meta.update(part=True, why=str(e)[-3000:], dropped=[])
            _compile(exe, *_part(), ROOTS[:1], tmp, meta)
        for o in os.listdir(BUILD):
            if o.startswith("dump-") and not o.endswith(".tmp"):
                os.remove(os.path.join(BUILD, o))
        with open(out + ".meta", "w") as fh:
            json.dump(meta, fh)
        os.rename(tmp, out)
        return out


def _part():
    """crate with only io and compression_common (the part of ebi the sandbox's official build compiles)"""
    d = os.path.join(BUILD, "part")
    src = os.path.join(d, "src")
    if os.path.isdir(src):
        shutil.rmtree(src)
    os.makedirs(src)
    for f in _files(os.path.join(REPO, "ebi", "src")):
        rel = os.path.relpath(f, os.path.join(REPO, "ebi", "src"))
        if rel.split(os.sep)[0] in ("io", "io.rs", "compression_common", "compression_common.rs"):
            _put(f, os.path.join(src, rel))
    _puttext("#![allow(dead_code)]\npub mod compression_common;\npub mod io;\n#[allow(warnings)]\npub mod %s;\n" % ROOTS[0], os.path.join(src, "lib.rs"))
    _puttext("[package]\nname = \"ebi\"\nversion = \"0.0.0\"\nedition = \"2021\"\n[workspace]\n", os.path.join(d, "Cargo.toml"))
    return d, src


def _compile(exe, sh, src, roots, tmp, meta):
    """type-check with the dumping driver; an entry point that no longer fits the crate's internal API is dropped"""
    texts = {}
    for m in roots:
        with open(os.path.join(VERIF, "roots", m + ".rs")) as fh:
            texts[m] = fh.read().split("\n")
    env = dict(os.environ)
    env.pop("RUSTC_WRAPPER", None)
    env.update(
        LD_LIBRARY_PATH=_sysroot() + "/lib",
        RUSTC_WORKSPACE_WRAPPER=exe,
        MIRDUMP_OUT=tmp,
        MIRDUMP_CRATE="ebi",
        MIRDUMP_STOPS=os.path.join(VERIF, "driver", "stops.txt"),
        RUSTFLAGS="--sysroot %s -Zalways-encode-mir -Zmir-opt-level=0 -Zub-checks=no -Awarnings" % std_sysroot(),
        CARGO_TARGET_DIR=os.path.join(BUILD, "target"),
    )
    for attempt in range(8):
        for m in roots:
            _puttext("\n".join(texts[m]), os.path.join(src, m + ".rs"))
        os.utime(os.path.join(src, "lib.rs"))
        if os.path.exists(tmp):
            os.remove(tmp)
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "-p", "ebi", "--lib", "--target", "x86_64-unknown-linux-gnu", "--message-format=json"], cwd=sh, capture_output=True, text=True, env=env)
        if r.returncode == 0 and os.path.exists(tmp):
            return
        errs, text = [], []
        for l in r.stdout.splitlines():
            try:
                o = json.loads(l)
            except ValueError:
                continue
            o = o.get("message") or {}
            if o.get("level") == "error" and o.get("spans"):
                errs.append([(os.path.basename(x["file_name"])[:-3], x["line_start"]) for x in o["spans"] if x.get("is_primary")])
                text.append(o.get("rendered") or "")
        msg = "\n".join(text)[-5000:] or r.stderr[-3000:]
        if not errs or not all(sp and all(m in texts for m, _ in sp) for sp in errs):
            raise BuildError(msg)
        hit = False
        for sp in errs:
            for m, ln in sp:
                hit |= _drop(texts[m], ln - 1, meta)
        if not hit:
            raise BuildError(msg)
    raise BuildError("entry points do not fit: " + msg)


def _drop(lines, i, meta):
    """blank the top-level item around line i (a one-line or brace-delimited `pub fn`)"""
    a = i
    while a >= 0 and not re.match(r"(pub )?(fn|use|struct|impl|type|mod) ?", lines[a]):
        a -= 1
    if a < 0:
        return False
    m = re.match(r"(?:pub )?fn (\w+)", lines[a])
    if not m:
        return False
    b = a
    if not lines[a].rstrip().endswith("}"):
        while b < len(lines) and lines[b] != "}":
            b += 1
    if not any(lines[a: b + 1]):
        return False
    for k in range(a, min(b + 1, len(lines))):
        lines[k] = ""
    if m.group(1) not in meta["dropped"]:
        meta["dropped"].append(m.group(1))
    return True


def _put(a, b):
    with open(a, "rb") as fh:
        _puttext(fh.read(), b)


def _puttext(x, b):
    if isinstance(x, str):
        x = x.encode()
    os.makedirs(os.path.dirname(b), exist_ok=True)
    if os.path.exists(b):
        with open(b, "rb") as fh:
            if fh.read() == x:
                return
    with open(b, "wb") as fh:
        fh.write(x)


if __name__ == "__main__":
    try:
        print(ensure_dump())
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(1)
