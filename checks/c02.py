"""C02: generated potentials, matrices and laser fields written in both formats, plain and compressed without loss, read back, stored again in another format and read again: bitwise data and metadata; numbers of the metadata files parsed independently."""
from common import *
from runner import Sub

BUILD = [("asan", ["qdrv"])]
import c01
import os

COMPS = ["none", "none", "ZLIB", "BZIP"]


def values(seed, n, style):
    r = np.random.RandomState(seed & 0x7fffffff)
    v = r.standard_normal(n)
    if style == "const":
        v[:] = v[0] if n else 0
    elif style == "bytes":         # incompressible in every byte, no nan
        v = np.frombuffer(r.bytes(8 * n), np.float64).copy()
        v[~np.isfinite(v)] = 1.0
    elif style == "special":
        v[r.rand(n) < 0.3] = r.choice([np.inf, -np.inf, -0.0, 5e-324, np.nan])
    elif style == "smooth":
        v = np.sin(np.arange(n) / 20.0)
    elif style == "wide":
        v *= 10.0 ** r.randint(-300, 300, n)
    return v


odd = st.one_of(flt(-1e6, 1e6), flt(-1, 1), st.sampled_from([0.1, 1 / 3, -2.0 / 7, 1e-7, 12345.678901234567, 1e10 / 3]))


@st.composite
def case(draw):
    k = draw(st.sampled_from(["grid", "mat", "laser"]))
    d = dict(k=k, name=draw(c01.fnames), seed=draw(seeds), style=draw(st.sampled_from(["gauss", "gauss", "const", "bytes", "special", "smooth", "wide"])),
             fmt=[draw(st.sampled_from(["binary", "stream"])) for _ in range(3)], comp=[draw(st.sampled_from(COMPS)) for _ in range(3)], gen=draw(st.integers(1, 3)))
    if k == "grid":
        dims = draw(grids(4, 400))
        if draw(st.booleans()):
            o = []
            for n, a, b in dims:
                x, y = draw(odd), draw(odd)
                o.append([n, min(x, y), max(x, y) + (1.0 if x == y else 0)])
            dims = o
        d["dims"] = dims
    elif k == "mat":
        d["n"] = draw(st.integers(1, 20))
        d["sym"] = draw(st.booleans())
    else:
        d["n"] = draw(st.one_of(st.integers(1, 60), st.integers(1, 3000)))
        d["dt"] = draw(st.one_of(flt(1e-6, 1e4), st.sampled_from([0.1, 1 / 3, 2.0 / 7, 1e-9, 20.671])))
    return d


def n_of(d):
    return int(np.prod([x[0] for x in d["dims"]])) if d["k"] == "grid" else d["n"] ** 2 if d["k"] == "mat" else d["n"]


def write(c, d, v, name, fmt, comp):
    if d["k"] == "grid":
        c("fo.writegrid", name, fmt, comp, [x for q in d["dims"] for x in q], v.tobytes())
    elif d["k"] == "mat":
        c("fo.writemat", name, fmt, comp, d["n"], v)
    else:
        c("fo.writelaser", name, fmt, comp, float(d["dt"]), v.tobytes())


def check_read(c, ctx, d, v, name, what):
    if d["k"] == "grid":
        r = c("fo.readgrid", name)
        ctx.check(dvec(r[1]).tolist() == [float(x) for q in d["dims"] for x in q], lambda: f"{what}: grid {dvec(r[1]).tolist()}, written {d['dims']}")
        got = dvec(r[0])
    elif d["k"] == "mat":
        r = c("fo.readmat", name)
        ctx.check(int(r[0]) == d["n"], lambda: f"{what}: matrix of size {r[0]!r}, written {d['n']}")
        got = dvec(r[1])
    else:
        r = c("fo.readlaser", name)
        ctx.check(int(r[0]) == d["n"], lambda: f"{what}: field of {r[0]!r} points, written {d['n']}")
        ctx.check(dbl(r[1]) == d["dt"], lambda: f"{what}: time step {dbl(r[1])!r}, written {d['dt']!r}")
        got = dvec(r[2])
    ctx.check(got.tobytes() == v.tobytes(), lambda: f"{what}: {len(got)} values differ from the {len(v)} written")


def meta_numbers(ctx, d, path):
    m = {}
    for l in open(path, encoding="latin-1"):
        if "=" in l:
            a, b = l.split("=", 1)
            m[a.strip().split("[")[0]] = b.strip()
    if d["k"] == "grid":
        for i, (n, a, b) in enumerate(d["dims"]):
            for key, w in ((f"N{i}", n), (f"xmin{i}", a), (f"xmax{i}", b)):
                ctx.check(key in m and float(m[key]) == w, lambda: f"metadata file: {key} is {m.get(key)!r}, should be {w!r}")
    elif d["k"] == "laser":
        for key, w in (("Nt", d["n"]), ("dt", d["dt"])):
            ctx.check(key in m and float(m[key]) == w, lambda: f"metadata file: {key} is {m.get(key)!r}, should be {w!r}")
    else:
        ctx.check("size" in m and int(m["size"]) == d["n"], lambda: f"metadata file: size is {m.get('size')!r}, should be {d['n']}")


def run(d, ctx):
    ctx.label(f"{d['k']} {d['fmt'][0]} {d['comp'][0]} {d['style']}")
    v = values(d["seed"], n_of(d), d["style"])
    if d["k"] == "mat" and d["sym"]:
        m = v.reshape(d["n"], d["n"])
        v = np.triu(m) + np.triu(m, 1).T
        v = v.ravel().copy()
    with ctx.srv("asan").case() as c:
        c("mkdir", "dir")
        name = d["name"]
        write(c, d, v, name, d["fmt"][0], d["comp"][0])
        check_read(c, ctx, d, v, name, f"{d['fmt'][0]} {d['comp'][0]}")
        if d["fmt"][0] == "binary":
            meta_numbers(ctx, d, os.path.join(c.s.cwd, name + ".meta"))
        for g in range(1, d["gen"]):
            to = f"copy{g}"
            c("fo.copy", d["k"], name, to, d["fmt"][g], d["comp"][g])
            check_read(c, ctx, d, v, to, f"generation {g + 1}: {d['fmt'][g - 1]} {d['comp'][g - 1]} stored again as {d['fmt'][g]} {d['comp'][g]}")
            if d["fmt"][g] == "binary":
                meta_numbers(ctx, d, os.path.join(c.s.cwd, to + ".meta"))
            check_read(c, ctx, d, v, name, "the first file after that")
            name = to


SUBS = [Sub("roundtrip", case(), run, (1200, 30000), lambda d: n_of(d) > 1, "more than one value", shards=6)]
