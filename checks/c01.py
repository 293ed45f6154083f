"""C01: generated wave functions of every class and shape written in each format and read back into new and existing objects, numbered series included: bitwise amplitudes and metadata when lossless, the bound given by the tolerance when compressed."""
from common import *
from runner import Sub

BUILD = [("opt", ["qdrv"]), ("asan", ["qdrv"])]

fnames = st.one_of(st.sampled_from(["w", "WF_0", "a_b_c", "dir/w", "x.y", "w-0", "Psi 1", "./q", "dir/a_1", "long" * 20]),
                   st.text(alphabet="abzA09_-.+ ", min_size=1, max_size=10).filter(lambda s: s.strip(" .") == s))


def special(seed, n, style):
    v = rng_amps(n, seed, "gauss" if style in ("inf", "nan", "tiny") else style).copy()
    r = np.random.RandomState((seed ^ 0x5bd1) & 0x7fffffff)
    f = v.view(float)
    if style == "inf":
        f[r.randint(0, f.size, 1 + f.size // 7)] = r.choice([np.inf, -np.inf, -0.0])
    elif style == "nan":
        f[r.randint(0, f.size, 1 + f.size // 7)] = np.nan
    elif style == "tiny":
        f *= 10.0 ** r.randint(-320, 300, f.size)
    return v


allstyles = st.sampled_from(["gauss", "gauss", "sparse", "real", "neg", "wide", "const", "one", "inf", "nan", "tiny"])
shapes = wfspecs(4, 400, 2, True, True, 12)


def check_same(c, ctx, w, spec, v, what):
    got = get(c, w)
    ctx.check(len(got) == len(v), lambda: f"{what}: {len(got)} amplitudes, written {len(v)}")
    ctx.check(got.tobytes() == v.tobytes(), lambda: f"{what}: amplitudes differ from those written, first at {np.nonzero(got.view(np.uint64) != v.view(np.uint64))[0][:1] // 2}: {got[:4]} instead of {v[:4]}")
    want = {"grid": b"WFGridCartesian", "level": b"WFLevel", "multi": b"WFMultistate"}
    m = c("wf.meta", w)
    ctx.check(m[0] == want[spec["k"]], lambda: f"{what}: class {m[0]!r}")
    ctx.check(m[3] == b"0", f"{what}: marked as being in momentum space")
    s0 = spec["states"][0] if spec["k"] == "multi" else spec
    if s0["k"] == "grid":
        g = [x for d in s0["dims"] for x in d]
        ctx.check(dvec(m[6]).tolist() == g, lambda: f"{what}: grid {dvec(m[6]).tolist()}, written {g}")
        sb = s0
    else:
        sb = s0
    ctx.check(spec["k"] == "multi" or int(m[4]) == 16 * len(v), lambda: f"{what}: announces {m[4]!r} bytes for {len(v)} amplitudes")
    if spec["k"] == "multi":
        ctx.check(int(c("wf.states", w)[0]) == len(spec["states"]), f"{what}: number of states changed")
        for i, s in enumerate(spec["states"]):
            c("wf.state", f"{w}:{i}", w, i)
            ms = c("wf.meta", f"{w}:{i}")
            ctx.check(ms[0] == want[s["k"]], lambda: f"{what}: class of state {i} is {ms[0]!r}")
            if s["k"] == "grid":
                g = [x for d in s["dims"] for x in d]
                ctx.check(dvec(ms[6]).tolist() == g, lambda: f"{what}: grid of state {i} is {dvec(ms[6]).tolist()}, written {g}")


# ------------------------------------------------------------------ lossless
@st.composite
def lossless(draw):
    spec = draw(shapes)
    into = draw(st.sampled_from(["new", "new", "same", "other", "samefile"]))
    other = None
    if into == "other":     # an object of the same class and another shape
        other = draw(wfspecs(4, 200, 2, False, False)) if spec["k"] == "grid" else {"k": "level", "n": draw(st.integers(1, 40))} if spec["k"] == "level" else None
        if other is None:
            into = "same"
    return dict(spec=spec, seed=draw(seeds), style=draw(allstyles), fmt=draw(st.sampled_from(["binary", "stream", "default"])), name=draw(fnames), into=into, other=other,
                over=draw(st.one_of(st.none(), shapes)), suffix=draw(st.booleans()))


def run_lossless(case, ctx):
    spec = case["spec"]
    ctx.label(f"{kind(spec)} {case['fmt']} {case['into']}")
    v = special(case["seed"], wf_size(spec), case["style"])
    with ctx.srv("asan").case() as c:
        c(*GP)
        c("mkdir", "dir")
        if case["over"]:          # a file of that name exists already and is overwritten
            put(c, "old", case["over"], amps(case["over"], 7))
            c("fw.new", "fo", case["name"])
            # (a stream file is not looked for any more when a multistate wave function is stored as separate files of the same name)
            c("fw.format", "fo", "binary" if case["seed"] % 2 or case["fmt"] == "binary" and spec["k"] == "multi" else "stream")
            c("fw.write", "fo", "old")
        put(c, "w", spec, v)
        c("fw.new", "f", case["name"])
        if case["fmt"] != "default":
            c("fw.format", "f", case["fmt"])
        c("fw.write", "f", "w")
        check_same(c, ctx, "w", spec, v, "the written wave function itself")
        f = "f"
        if case["into"] != "samefile":
            c("fw.new", "g", case["name"])
            f = "g"
        if case["into"] in ("new", "samefile"):
            c("fw.readnew", f, "r")
        else:
            put(c, "r", case["other"] or spec, amps(case["other"] or spec, 3))
            c("fw.read", f, "r")
        check_same(c, ctx, "r", spec, v, "read back")
        if np.isfinite(v).all() and np.abs(v).max() < 1e100:     # the shape is used correctly by the object
            n0, n1 = dbl(c("wf.norm", "w")[0]), dbl(c("wf.norm", "r")[0])
            ctx.check(n0 == n1, f"norm of what was read is {n1}, written {n0}")
        # and a second time through the same object
        c("fw.readnew", f, "r2")
        check_same(c, ctx, "r2", spec, v, "read a second time")
        # what was read can be written again
        c("fw.new", "h", "copy")
        c("fw.format", "h", "binary" if case["seed"] % 3 else "stream")
        c("fw.write", "h", "r")
        c("fw.new", "k", "copy")
        c("fw.readnew", "k", "r3")
        check_same(c, ctx, "r3", spec, v, "second generation")


# ------------------------------------------------------------------ series
@st.composite
def series(draw):
    spec = draw(wfspecs(2, 60, 2, True, True, 4))
    n = draw(st.integers(1, 13))
    return dict(spec=spec, n=n, seed=draw(seeds), fmt=draw(st.sampled_from(["binary", "stream"])), name=draw(fnames), start=draw(st.sampled_from([0, 0, 1, 7, 98])), incr=draw(st.sampled_from([1, 1, 2, 5])),
                read=draw(st.sampled_from(["new", "into", "random", "back", "single"])), order=draw(st.lists(st.integers(0, 12), max_size=6)), comp=draw(st.sampled_from(["none", "none", "ZLIB", "BZIP"])))


def run_series(case, ctx):
    spec, n = case["spec"], case["n"]
    ctx.label(f"{case['fmt']} {case['read']} {case['comp']} {'multi' if spec['k'] == 'multi' else spec['k']}")
    vs = [amps(spec, case["seed"] + i, "gauss") for i in range(n)]
    tol = 1e-13

    def same(w, i, what):
        if case["comp"] == "none":
            check_same(c, ctx, w, spec, vs[i], what)
        else:
            g = get(c, w)
            ctx.check(err(g, vs[i]) < 1e-9, lambda: f"{what}: differs by {err(g, vs[i])}")
    with ctx.srv("asan").case() as c:
        c(*GP)
        c("mkdir", "dir")
        put(c, "w", spec, vs[0])
        c("fw.new", "f", case["name"])
        c("fw.format", "f", case["fmt"])
        if case["comp"] != "none":
            c("fw.compress", "f", case["comp"], tol)
        c("fw.counter", "f", case["start"])
        c("fw.seq", "f", case["incr"])
        for i in range(n):
            c("wf.set", "w", vs[i])
            c("fw.write", "f", "w")
            ctx.check(int(c("fw.getcounter", "f")[0]) == case["start"] + (i + 1) * case["incr"], "counter after writing")
        c("fw.new", "g", case["name"])
        mode = case["read"]
        if mode == "single":       # a member by its own file name
            for i in [o % n for o in case["order"]] or [0]:
                if spec["k"] == "multi" and case["fmt"] == "binary":
                    continue       # the states of a binary multistate member are spread over files name-<state>_<k>
                c("fw.new", f"s{i}", f"{case['name']}_{case['start'] + i * case['incr']}")
                c("fw.readnew", f"s{i}", "r")
                same("r", i, f"member {i} on its own")
            return
        c("fw.seq", "g", case["incr"] if mode != "back" else -case["incr"])
        if mode == "random":
            for i in [o % n for o in case["order"]]:
                c("fw.counter", "g", case["start"] + i * case["incr"])
                c("fw.readnew", "g", "r")
                same("r", i, f"member {i} by number")
            return
        c("fw.counter", "g", case["start"] if mode != "back" else case["start"] + (n - 1) * case["incr"])
        if mode == "into":
            put(c, "r", spec, amps(spec, 1))
        for j in range(n):
            c("fw.read" if mode == "into" else "fw.readnew", "g", "r")
            same("r", j if mode != "back" else n - 1 - j, f"member {j} in order ({mode})")
        for k in range(2):
            try:
                c("fw.read" if mode == "into" else "fw.readnew", "g", "r")
            except qd.QdError:
                pass
            else:
                ctx.fail(f"reading past the end of a series of {n} ({mode}) reports no error")


# ------------------------------------------------------------------ lossy compression
@st.composite
def lossy(draw):
    spec = draw(wfspecs(3, 600, 2, True, True, 4))
    t = draw(st.one_of(st.sampled_from([0.0, 1e-16, 1e-12, 1e-6, 1e-3, 0.1, 0.5]), flt(-14, -0.3).map(lambda x: 10 ** x)))
    return dict(spec=spec, seed=draw(seeds), style=draw(st.sampled_from(["gauss", "gauss", "smooth", "smooth", "sparse", "real", "imag", "neg", "const", "one", "zero"])), fmt=draw(st.sampled_from(["binary", "stream"])),
                method=draw(st.sampled_from(["ZLIB", "BZIP"])), tol=t, plan=draw(st.sampled_from(PLANS)), into=draw(st.sampled_from(["new", "same", "twice"])), scale=draw(st.sampled_from([1.0, 1.0, 1e-8, 1e6, -1.0])))


def smooth(spec, seed):
    r = np.random.RandomState(seed & 0x7fffffff)
    if spec["k"] == "level":
        n = spec["n"]
        return np.exp(-np.linspace(0, 30, n)) * r.choice([-1, 1], n) * (1 - 2j * (r.rand(n) < 0.5))
    g = 1
    for n, a, b in spec["dims"]:
        x = np.linspace(-1, 1, n)
        f = np.exp(-(x - r.uniform(-0.5, 0.5)) ** 2 / r.uniform(0.01, 0.2)) * np.exp(1j * x * r.uniform(-9, 9))
        g = np.multiply.outer(f, g)
    return g.ravel()


def lossy_amps(spec, seed, style):
    if spec["k"] == "multi":
        return np.concatenate([lossy_amps(s, seed + 17 * i, style if i % 3 != 2 else "zero") for i, s in enumerate(spec["states"])])
    n = wf_size(spec)
    return smooth(spec, seed) if style == "smooth" else np.zeros(n, complex) if style == "zero" else rng_amps(n, seed, style)


def bound(spec, v, tol):
    """largest change of one amplitude the tolerance allows, per amplitude, and of the sum of squares."""
    if spec["k"] == "multi":
        o, b = 0, []
        for s in spec["states"]:
            n = wf_size(s)
            b.append(bound(s, v[o:o + n], tol))
            o += n
        return np.concatenate(b)
    n = len(v)
    if spec["k"] == "level":   # real and imaginary part each: the cut-off is tol * norm / size
        return np.full(n, np.sqrt(2) * tol * np.linalg.norm(v) / n)
    sh = [d[0] for d in reversed(spec["dims"])]
    k = np.fft.fftn(v.reshape(sh)).ravel()
    thr = tol * np.abs(k).max() * (1 + 1e-9)
    drop = np.where(np.abs(k.real) < thr, np.abs(k.real), 0) ** 2 + np.where(np.abs(k.imag) < thr, np.abs(k.imag), 0) ** 2
    return np.full(n, min(np.sqrt(2) * thr, np.sqrt(drop).sum() / n) + 1e-13 * np.abs(v).max())


def run_lossy(case, ctx):
    spec, tol = case["spec"], case["tol"]
    small = wf_size(spec) <= 300
    v = lossy_amps(spec, case["seed"], case["style"]) * case["scale"]
    ctx.label(f"{kind(spec)[:6]} {case['fmt']} {case['method']} {case['style']}")
    with ctx.srv("opt").case() as c:
        c(*gp_plan(case["plan"] if small or case["plan"] != "patient" else "measure"))
        put(c, "w", spec, v)
        c("fw.new", "f", "w")
        c("fw.format", "f", case["fmt"])
        c("fw.compress", "f", case["method"], float(tol))
        c("fw.write", "f", "w")
        check_same(c, ctx, "w", spec, v, "the written wave function itself")
        c("fw.new", "g", "w")
        if case["into"] == "same":
            put(c, "r", spec, amps(spec, 5))
            c("fw.read", "g", "r")
        else:
            c("fw.readnew", "g", "r")
        if case["into"] == "twice":
            c("fw.readnew", "g", "r")
        got = get(c, "r")
        ctx.check(len(got) == len(v), f"{len(got)} amplitudes, written {len(v)}")
        b = bound(spec, v, tol) + 2e-16 * np.abs(v)
        e = np.abs(got - v)
        bad = ~(e <= b)
        if bad.any():
            i = int(np.argmax(np.where(bad, e / (b + 1e-300), 0)))
            ctx.fail(f"amplitude {i}: written {v[i]}, read {got[i]}, tolerance {tol} allows a change of {b[i]:.3g}")
        m0, m1 = c("wf.meta", "w"), c("wf.meta", "r")
        for j, fm in enumerate(("binary", "stream")):      # what was read can be stored again, without compression
            c("fw.new", f"h{j}", f"copy{j}")
            c("fw.format", f"h{j}", fm)
            c("fw.write", f"h{j}", "r")
            c("fw.new", f"k{j}", f"copy{j}")
            c("fw.readnew", f"k{j}", f"q{j}")
            check_same(c, ctx, f"q{j}", spec, got, "second generation of a compressed file")
        ctx.check([m0[i] for i in (0, 1, 3, 4)] == [m1[i] for i in (0, 1, 3, 4)] and m0[6] == m1[6], lambda: f"metadata {m1!r}, written {m0!r}")


SUBS = [
    Sub("lossless", lossless(), run_lossless, (600, 15000), lambda c: wf_size(c["spec"]) > 1, "more than one amplitude"),
    Sub("series", series(), run_series, (250, 6000), lambda c: c["n"] > 1, "at least two members"),
    Sub("lossy", lossy(), run_lossy, (600, 15000), lambda c: wf_size(c["spec"]) > 1 and c["style"] != "zero", "more than one amplitude, not all zero"),
]
