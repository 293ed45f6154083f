"""C03: stored wave functions, operators and fields damaged by structured mutations (truncation, bit flips, extreme length fields, deleted/duplicated/zeroed ranges, edited metadata), read under AddressSanitizer: either an error, or only values that are really in the file, in full."""
import bz2, glob, os, zlib
from common import *
from runner import Sub
import c01, c02

BUILD = [("asan", ["qdrv"])]
EXT = [0, 1, 2, 3, 0x7f, 0x80, 0xff, 0x7fff, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff0, 2**32, 2**60, 2**61, 2**63, 2**64 - 1, 2**64 - 16, 1000000, 100000000]


@st.composite
def mutation(draw):
    k = draw(st.sampled_from(["trunc", "trunc", "flip", "flip", "byte", "u32", "u64", "del", "dup", "zero", "append", "swap", "magic", "rand"]))
    p = draw(st.one_of(st.integers(0, 120).map(lambda i: ["abs", i]), flt(0, 1).map(lambda f: ["frac", f]), st.integers(0, 40).map(lambda i: ["end", i])))
    m = dict(k=k, p=p)
    if k in ("flip",):
        m["b"] = draw(st.integers(0, 7))
    elif k == "byte":
        m["b"] = draw(st.integers(0, 255))
    elif k in ("u32", "u64"):
        m["v"] = draw(st.one_of(st.sampled_from(EXT), st.integers(0, 2**20)))
    elif k in ("del", "dup", "zero", "append", "rand"):
        m["n"] = draw(st.one_of(st.integers(1, 16), st.integers(1, 2000)))
        m["s"] = draw(seeds)
    elif k == "swap":
        m["q"] = draw(flt(0, 1))
    elif k == "magic":
        m["v"] = draw(st.sampled_from(["ZLIBCOM\0", "BZIPCOM\0", "QDngPrtoBuf\0"]))
    return m


@st.composite
def metamut(draw):
    k = draw(st.sampled_from(["value", "value", "value", "value", "delline", "dupline", "key", "bytes", "empty", "type"]))
    m = dict(k=k, i=draw(st.integers(0, 30)))
    if k == "value":
        m["v"] = draw(st.one_of(st.sampled_from(["0", "-1", "1", "2", "3", "4", "5", "7", "1000000", "2147483647", "2147483648", "-2147483648", "4294967296", "4294967297", "1e300", "-1e300", "nan", "inf", "", "abc", "3.5", "0x10", "WFLevel", "WFGridCartesian", "WFMultistate",
                                                 "99999999999999999999", "46341", "65536", "1518500250", "a" * 3000]), st.integers(0, 70).map(str)))
    elif k == "bytes":
        m["m"] = draw(mutation())
    elif k == "type":
        m["v"] = draw(st.sampled_from(["[int]", "[foo]", "[", "]", "[]"]))
    return m


def pos(b, p):
    n = len(b)
    if n == 0:
        return 0
    if p[0] == "abs":
        return min(p[1], n)
    if p[0] == "frac":
        return min(int(p[1] * n), n)
    return max(0, n - p[1])


def mutate(b, m):
    b = bytearray(b)
    i = pos(b, m["p"])
    k = m["k"]
    if k == "trunc":
        del b[i:]
    elif k in ("flip", "byte"):
        if i < len(b):
            b[i] = b[i] ^ (1 << m["b"]) if k == "flip" else m["b"]
    elif k in ("u32", "u64"):
        w = 4 if k == "u32" else 8
        b[i:i + w] = (m["v"] % (1 << (8 * w))).to_bytes(w, "little")[:max(0, len(b) - i)]
    elif k == "del":
        del b[i:i + m["n"]]
    elif k == "dup":
        b[i:i] = b[i:i + m["n"]]
    elif k == "zero":
        n = len(b[i:i + m["n"]])
        b[i:i + n] = bytes(n)
    elif k == "rand":
        n = len(b[i:i + m["n"]])
        b[i:i + n] = np.random.RandomState(m["s"]).bytes(n)
    elif k == "append":
        b += np.random.RandomState(m["s"]).bytes(m["n"])
    elif k == "swap":
        j = int(m["q"] * len(b))
        i, j = min(i, j), max(i, j)
        b = b[:i] + b[j:] + b[i:j]
    elif k == "magic":
        v = m["v"].encode()
        if i >= len(b) // 2:
            b[-len(v):] = v
        else:
            b[:len(v)] = v
    return bytes(b)


def mutate_meta(b, m):
    if m["k"] == "bytes":
        return mutate(b, m["m"])
    if m["k"] == "empty":
        return b""
    ls = b.decode("latin-1").split("\n")
    ls = [l for l in ls if l]
    if not ls:
        return b
    i = m["i"] % len(ls)
    k, _, v = ls[i].partition("=")
    if m["k"] == "value":
        ls[i] = k + "= " + m["v"]
    elif m["k"] == "delline":
        del ls[i]
    elif m["k"] == "dupline":
        ls.append(ls[i])
    elif m["k"] == "key":
        ls[i] = k.strip() + "x = " + v
    elif m["k"] == "type":
        ls[i] = k.strip() + m["v"] + " =" + v
    return ("\n".join(ls) + "\n").encode("latin-1")


@st.composite
def damage(draw, meta):
    ms = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
        if meta and draw(st.booleans()):
            ms.append(["meta", draw(st.integers(0, 5)), draw(metamut())])
        else:
            ms.append(["data", draw(st.integers(0, 5)), draw(mutation())])
    return ms


def apply(cwd, pattern, ms):
    """damages the files in place; returns (changed, only truncation of data, metadata changed, their bytes)."""
    files = sorted(glob.glob(os.path.join(cwd, pattern)))
    data = [f for f in files if not f.endswith(".meta")]
    meta = [f for f in files if f.endswith(".meta")]
    org = {f: open(f, "rb").read() for f in files}
    new = dict(org)
    for w, i, m in ms:
        l = data if w == "data" else meta
        if not l:
            continue
        f = l[i % len(l)]
        new[f] = mutate(new[f], m) if w == "data" else mutate_meta(new[f], m)
    for f in files:
        if new[f] != org[f]:
            open(f, "wb").write(new[f])
    changed = any(new[f] != org[f] for f in files)
    short = any(new[f] != org[f] and org[f].startswith(new[f]) for f in data) and all(new[f] == org[f] or org[f].startswith(new[f]) and f in data for f in files)
    mchanged = any(new[f] != org[f] for f in meta)
    return changed, short, mchanged, [new[f] for f in data]


# ------------------------------------------------------------------ wave functions
@st.composite
def wfcase(draw):
    spec = draw(wfspecs(3, 60, 2, True, True, 4))
    fmt = draw(st.sampled_from(["binary", "stream", "stream"]))
    return dict(spec=spec, seed=draw(seeds), style=draw(st.sampled_from(["gauss", "gauss", "const", "sparse"])), fmt=fmt, comp=draw(st.sampled_from(["none", "none", "ZLIB", "BZIP"])),
                into=draw(st.sampled_from(["new", "same", "other"])), other=draw(wfspecs(2, 60, 2, True, True, 4)), dam=draw(damage(fmt == "binary")), seq=draw(st.sampled_from([False, False, True])))


def run_wf(case, ctx):
    spec = case["spec"]
    v = amps(spec, case["seed"], case["style"])
    with ctx.srv("asan").case() as c:
        c(*GP)
        put(c, "w", spec, v)
        for nm in ("w", "good"):
            c("fw.new", "f" + nm, nm)
            c("fw.format", "f" + nm, case["fmt"])
            c("fw.compress", "f" + nm, case["comp"], 1e-12)
            c("fw.write", "f" + nm, "w")
        c("fw.new", "g", "good")
        c("fw.readnew", "g", "r0")
        r0 = get(c, "r0")
        m0 = c("wf.meta", "r0")
        changed, short, mchanged, files = apply(c.s.cwd, "w*", case["dam"])
        if case["into"] != "new":
            t = spec if case["into"] == "same" else case["other"]
            put(c, "r", t, amps(t, 3))
        f = "g" if case["seq"] else "h"       # the same file object as before, or a fresh one
        if f == "h":
            c("fw.new", "h", "w")
        else:
            c("fw.name", "g", "w")
        if case["fmt"] == "binary" and spec["k"] == "multi":
            pass
        try:
            c("fw.read" if case["into"] != "new" else "fw.readnew", f, "r", timeout=20)
        except qd.QdError as e:
            ctx.label("error reported" if changed else "refused")
            ctx.check(changed or case["into"] == "other", lambda: f"undamaged file refused: {e!r}")
        else:
            ctx.label("accepted" if changed else "undamaged")
            got = get(c, "r")
            meta = c("wf.meta", "r")
            multi = meta[0] == b"WFMultistate"
            sts = []
            if multi:
                for i in range(int(c("wf.states", "r")[0])):
                    c("wf.state", "s", "r", i)
                    sts.append((get(c, "s"), c("wf.meta", "s")))
            else:
                sts.append((got, meta))
            for a, m in sts:
                if m[0] == b"WFGridCartesian":
                    g = dvec(m[6])
                    n = int(np.prod(g[0::3])) if len(g) else 0
                    ctx.check(len(g) // 3 >= 1 and n == len(a), lambda: f"grid {g.tolist()} with {len(a)} amplitudes accepted")
            if not changed and case["into"] != "other":
                ctx.check(got.tobytes() == r0.tobytes(), "undamaged file read differently")
            if changed and case["into"] != "other":
                cut = case["fmt"] == "binary" and case["comp"] != "none" and any(a.nbytes == len(x) and a.tobytes() == x for a, _ in sts for x in files)
                ctx.check(not short, lambda: f"truncated file accepted ({[len(x) for x in files]} bytes of data left), {len(got)} amplitudes delivered", known="cut-to-raw-size" if cut else None)
            if case["into"] != "other":
                for a, m in sts:      # nothing may be invented
                    plain = any(a.tobytes() in x for x in files)
                    same = len(r0) >= len(a) and (any(err(r0[o:o + len(a)], a) < 1e-9 for o in range(0, len(r0) - len(a) + 1)) if len(a) else False)
                    regrid = case["comp"] != "none" and m[0] == b"WFGridCartesian" and dvec(m[6]).tolist() != dvec(m0[6]).tolist()
                    ctx.check(plain or same or regrid, lambda: f"amplitudes delivered that are not in the file: {a[:6]}… ({len(a)}), {m[0]!r}")
        # the objects are still usable
        c("fw.name", f, "good")
        put(c, "r1", spec, amps(spec, 9))
        c("fw.read", f, "r1")
        ctx.check(get(c, "r1").tobytes() == r0.tobytes(), "after a damaged file an intact one is read wrongly")


# ------------------------------------------------------------------ operators and fields
@st.composite
def opcase(draw):
    d = draw(c02.case())
    if d["k"] == "laser":
        d["n"] = min(d["n"], 200)
    d["fmt"] = d["fmt"][0]
    d["comp"] = d["comp"][0]
    d["dam"] = draw(damage(d["fmt"] == "binary"))
    d["name"] = "w"
    return d


def unpack(b):
    for tag, fn in ((b"ZLIBCOM\0", lambda x: zlib.decompressobj().decompress(x)), (b"BZIPCOM\0", lambda x: bz2.BZ2Decompressor().decompress(x))):
        if b.endswith(tag):
            try:
                return fn(b[:-8])
            except Exception:
                return b""
    return b""


def run_op(d, ctx):
    v = c02.values(d["seed"], c02.n_of(d), d["style"])
    with ctx.srv("asan").case() as c:
        c02.write(c, d, v, "w", d["fmt"], d["comp"])
        changed, short, mchanged, files = apply(c.s.cwd, "w*", d["dam"])
        try:
            r = c({"grid": "fo.readgrid", "mat": "fo.readmat", "laser": "fo.readlaser"}[d["k"]], "w", timeout=20)
        except qd.QdError as e:
            ctx.label(f"{d['k']} error" if changed else "refused")
            ctx.check(changed, lambda: f"undamaged file refused: {e!r}")
            return
        ctx.label(f"{d['k']} accepted" if changed else "undamaged")
        n = len(v) * 8                # cut to at least the size of the raw data: values are the leading bytes
        cut = short and d["fmt"] == "binary" and d["comp"] != "none" and len(files[0]) >= n
        cut = cut and dvec(r[{"grid": 0, "mat": 1, "laser": 2}[d["k"]]]).reshape((d["n"],) * 2 if d["k"] == "mat" else -1).T.tobytes() == files[0][:n]
        ctx.check(not short, lambda: f"truncated file accepted ({[len(x) for x in files]} bytes of data left)", known="cut-to-raw-size" if cut else None)
        if d["k"] == "grid":
            g = dvec(r[1])
            a = dvec(r[0])
            ctx.check(len(g) >= 3 and int(np.prod(g[0::3])) == len(a), lambda: f"grid {g.tolist()} with {len(a)} values accepted")
        elif d["k"] == "mat":
            a = dvec(r[1])
            n = int(r[0])
            ctx.check(len(a) == n * n, "matrix size")
            a = a.reshape(n, n).T.ravel()      # as stored
        else:
            a = dvec(r[2])
            ctx.check(len(a) == int(r[0]), "number of points")
            ctx.check(dbl(r[1]) > 0, lambda: f"time step {dbl(r[1])} accepted")
        ok = any(a.tobytes() in x or a.tobytes() in unpack(x) for x in files)
        w = v if d["k"] != "mat" else v.reshape(d["n"], d["n"]).T.ravel()
        ok = ok or w.tobytes() == a.tobytes() and len(w)
        ctx.check(ok, lambda: f"values delivered that are not in the file: {a[:6]}… ({len(a)}, stored {len(v)})")


nt = lambda c: True
SUBS = [
    Sub("wavefunctions", wfcase(), run_wf, (900, 40000), nt, "every damaged file"),
    Sub("operators", opcase(), run_op, (700, 30000), nt, "every damaged file", fixed=[
        {"comp": "ZLIB", "dam": [["data", 0, {"k": "trunc", "p": ["abs", 8]}]], "fmt": "binary", "gen": 1, "k": "mat", "n": 1, "name": "w", "seed": 0, "style": "gauss", "sym": False}]),
]
