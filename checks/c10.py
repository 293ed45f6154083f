"""C10: Fourier and matrix transforms against numpy.fft and explicit matrices, with round trips over generated call sequences."""
from common import *
from runner import Sub

BUILD = [("opt", ["qdrv"])]


def flatdims(dims):
    return np.array([x for d in dims for x in d], float)


# ------------------------------------------------------------------ FFT class on a grid: sequences of forward/backward, all or one dimension
@st.composite
def fftseq(draw):
    dims = draw(grids(4, 600, nmax=64))
    d = len(dims)
    n = draw(st.integers(1, 6))
    # a sequence in which each transform reads what the previous one wrote
    seq, fwd = [], True
    for _ in range(n):
        k = draw(st.integers(-1, d - 1))
        seq.append(k if fwd else k + 100)
        fwd = not fwd if draw(st.integers(0, 4)) else fwd
    return dict(dims=dims, seed=draw(seeds), style=draw(safe_styles), seq=seq, plan=draw(st.sampled_from(["estimate"] * 6 + ["measure"] * 3 + ["patient"])))


def run_fft(case, ctx):
    dims = case["dims"]
    v = rng_amps(wf_size({"k": "grid", "dims": dims}), case["seed"], case["style"])
    a, b = nd(v, dims).copy(), nd(v * 0, dims).copy()
    sc = np.abs(v).max() + 1e-30
    bvalid = False
    n = 1
    for s in case["seq"]:
        f, k = (True, s) if s < 50 else (False, s - 100)
        axes = None if k < 0 else (ax_of(dims, k),)
        src = a if f else b
        m = src.size if k < 0 else dims[k][0]
        r = np.fft.fftn(src, axes=axes) if f else np.fft.ifftn(src, axes=axes) * m
        if f:
            b = r
        else:
            a = r
        n *= m
        sc = max(sc, np.abs(r).max())
    small = max(d[0] for d in dims) <= 8
    with ctx.srv().case() as c:
        c(*gp_plan(case["plan"] if small or case["plan"] != "patient" else "measure"))
        o = c("fft", flatdims(dims), v, [float(x) for x in case["seq"]])
    ga, gb = nd(cvec(o[0]), dims), nd(cvec(o[1]), dims)
    last_f = case["seq"][-1] < 50
    g, e = (gb, b) if last_f else (ga, a)
    tol = 1e-13 * len(case["seq"]) * 8
    ctx.check(err(g, e) <= tol * sc, f"FFT sequence {case['seq']} on grid {[d[0] for d in dims]}: off by {err(g, e)} (scale {sc})")
    # a forward transform leaves its input alone
    if last_f:
        ctx.check(err(ga, a) <= tol * sc, f"forward FFT changes its input: grid {[d[0] for d in dims]} {case['seq']}")
    elif case["seq"] == [-1, 99] or (len(case["seq"]) == 2 and case["seq"][0] == case["seq"][1] - 100):
        k = case["seq"][0]
        m = v.size if k < 0 else dims[k][0]
        ctx.check(err(ga, nd(v, dims) * m) <= 1e-13 * m * sc * 8, "backward after forward is not the number of points times the original")


@st.composite
def fft1(draw):
    return dict(n=draw(st.one_of(st.integers(1, 40), st.sampled_from([64, 100, 127, 128, 200, 243, 256, 500, 509, 1024]))), seed=draw(seeds), style=draw(safe_styles))


def run_fft1(case, ctx):
    n = case["n"]
    v = rng_amps(n, case["seed"], case["style"])
    r = v.real.copy()
    with ctx.srv().case() as c:
        c(*GP)
        o = c("fft1", v)
        f = np.fft.fft(v)
        s = np.abs(v).sum() + 1e-30
        ctx.check(err(cvec(o[0]), f) <= 1e-13 * s * 4, f"1D FFT of {n} points off by {err(cvec(o[0]), f)}")
        ctx.check(err(cvec(o[1]), v * n) <= 1e-13 * s * 8 * (1 + math.log(n)) , f"1D FFT of {n} points: backward(forward) is not n times the original")
        o = c("fftr", r)
        f = np.fft.rfft(r)
        s = np.abs(r).sum() + 1e-30
        ctx.check(err(cvec(o[0]), f) <= 1e-13 * s * 4, f"real FFT of {n} points off by {err(cvec(o[0]), f)}")
        ctx.check(err(dvec(o[1]), r * n) <= 1e-13 * s * 8 * (1 + math.log(n)), f"real FFT of {n} points: backward(forward) is not n times the original")


# ------------------------------------------------------------------ momentum grids
@st.composite
def ksp(draw):
    dims = draw(grids(3, 4000, nmax=200))
    return dict(dims=dims, dim=draw(st.integers(0, len(dims) - 1)), f=draw(st.one_of(st.sampled_from([1.0, -1.0, 0.5]), flt(0.01, 1e5))))


def run_ksp(case, ctx):
    dims, i, f = case["dims"], case["dim"], case["f"]
    k = kvec(dims[i])
    with ctx.srv().case() as c:
        for kind, e in (("d2m", k * k / (2 * f)), ("d2", -k * k * f), ("ddx", k * f)):
            o = c("kspace", flatdims(dims), i, f, kind)
            n = dims[i][0]
            dk = 2 * np.pi / (n * (dims[i][2] - dims[i][1]) / (n - 1))
            ctx.check(abs(dbl(o[0]) - dk) <= 1e-13 * dk, f"momentum spacing {dbl(o[0])}, expected {dk}")
            g = dvec(o[1])
            ctx.check(g.shape == e.shape and err(g, e) <= 1e-12 * np.abs(e).max(), lambda: f"momentum grid {kind} of {n} points: bin {np.abs(g - e).argmax()} is {g[np.abs(g - e).argmax()]}, expected {e[np.abs(g - e).argmax()]}")


# ------------------------------------------------------------------ transforms of wave functions in histories
@st.composite
def wft(draw):
    spec = {"k": "grid", "dims": draw(grids(3, 400))}
    n = draw(st.integers(1, 3))
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        ops.append([draw(st.sampled_from(["f", "f", "fd", "scale", "copy", "assign", "round"])), draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1)), draw(st.integers(0, len(spec["dims"]) - 1)), draw(flt(-2, 2))])
    return dict(spec=spec, plan=draw(st.sampled_from(["estimate", "measure"])), wfs=[[draw(seeds), draw(safe_styles)] for _ in range(n)], ops=ops)


def run_wft(case, ctx):
    """Each wave function is a (real-space, momentum-space) pair of which one side is current."""
    spec = case["spec"]
    dims = spec["dims"]
    N = wf_size(spec)
    with ctx.srv().case() as c:
        c(*gp_plan(case["plan"]))
        ref, ks, scl = [], [], []
        for i, (s, sty) in enumerate(case["wfs"]):
            v = amps(spec, s, sty)
            put(c, f"w{i}", spec, v)
            ref.append(v); ks.append(False); scl.append(np.abs(v).max() + 1e-30)
        for op, a, b, d, x in case["ops"]:
            w = f"w{a}"
            if op == "f" and not ks[a]:
                nrm = dbl(c("tr.fft", "f", w, -1)[0])
                ctx.check(abs(nrm * N - 1) < 1e-13, f"transform normalisation {nrm}, expected {1.0 / N}")
                ref[a] = np.fft.fftn(nd(ref[a], dims)).ravel(); ks[a] = True; scl[a] *= N
            elif op == "f":
                nrm = dbl(c("tr.fft", "b", w, -1)[0])
                ctx.check(abs(nrm * N - 1) < 1e-13, f"transform normalisation {nrm}, expected {1.0 / N}")
                ref[a] = np.fft.ifftn(nd(ref[a], dims)).ravel() * N; ks[a] = False
                scl[a] = max(scl[a], np.abs(ref[a]).max())
            elif op == "fd" and not ks[a]:
                c("tr.fft", "f", w, d)
                c("tr.fft", "b", w, d)
                m = dims[d][0]
                ref[a] = ref[a] * m; scl[a] *= m
            elif op == "round" and not ks[a]:
                c("tr.fft", "f", w, -1); c("tr.fft", "b", w, -1)
                ref[a] = ref[a] * N; scl[a] *= N
            elif op == "scale":
                c("wf.muld", w, x)
                ref[a] = ref[a] * x; scl[a] *= abs(x) + 1e-30
            elif op == "assign":
                c("wf.assign", w, f"w{b}")
                ref[a], ks[a], scl[a] = ref[b].copy(), ks[b], scl[b]
            elif op == "copy":
                c("wf.copy", "t", f"w{b}")
                g = get(c, "t")
                ctx.check(err(g, ref[b]) <= 1e-12 * scl[b], f"copy of a {'momentum' if ks[b] else 'real'}-space function differs")
                if ks[b]:
                    c("tr.fft", "b", "t", -1)
                    g = get(c, "t")
                    e = np.fft.ifftn(nd(ref[b], dims)).ravel() * N
                    ctx.check(err(g, e) <= 1e-12 * max(scl[b], np.abs(e).max()), "a copied momentum-space function does not transform back")
                c("wf.del", "t")
            for i in range(len(ref)):
                g = get(c, f"w{i}")
                ctx.check(err(g, ref[i]) <= 2e-13 * (1 + len(case["ops"])) * scl[i], lambda: f"after {op} on w{a}: w{i} ({'momentum' if ks[i] else 'real'} space, grid {[q[0] for q in dims]}) off by {err(g, ref[i])} of {scl[i]}")
            if max(scl) > 1e60:
                break


# ------------------------------------------------------------------ the first transform of a function that holds momentum-space data
@st.composite
def kfirst(draw):
    dims = draw(grids(3, 200))
    return dict(dims=dims, plan=draw(st.sampled_from(["estimate", "measure", "measure", "patient"])), seed=draw(seeds), style=draw(safe_styles), d=draw(st.integers(-1, len(dims) - 1)), how=draw(st.sampled_from(["set", "copy", "forward"])))


def run_kfirst(case, ctx):
    dims, d = case["dims"], case["d"]
    spec = {"k": "grid", "dims": dims}
    v = amps(spec, case["seed"], case["style"])
    axes = None if d < 0 else (ax_of(dims, d),)
    m = v.size if d < 0 else dims[d][0]
    small = max(q[0] for q in dims) <= 8
    with ctx.srv().case() as c:
        c(*gp_plan(case["plan"] if small or case["plan"] != "patient" else "measure"))
        new_wf(c, "w", spec)
        if case["how"] == "forward":
            put(c, "w", spec, v)
            c("tr.fft", "f", "w", d)
            g = get(c, "w")
            e = np.fft.fftn(nd(v, dims), axes=axes).ravel()
        else:
            c("wf.kspace", "w", 1)
            c("wf.set", "w", v.astype(np.complex128))
            w = "w"
            if case["how"] == "copy":
                c("wf.copy", "t", "w")
                w = "t"
            c("tr.fft", "b", w, d)
            g = get(c, w)
            e = (np.fft.ifftn(nd(v, dims), axes=axes) * m).ravel()
    ctx.check(err(g, e) <= 1e-12 * m * (np.abs(v).max() + 1e-300), lambda: f"first transform ({case['how']}, dimension {d}) on grid {[q[0] for q in dims]}, plan {case['plan']}: off by {err(g, e)}")


# ------------------------------------------------------------------ matrix transforms
def ortho(n, r):
    q, rr = np.linalg.qr(r.standard_normal((n, n)))
    return q * np.sign(np.diag(rr))


@st.composite
def matt(draw):
    return dict(n=draw(st.integers(1, 12)), seed=draw(seeds), style=draw(safe_styles), seq=draw(st.sampled_from(["f", "fb", "fbf", "fbfb"])))


def run_matt(case, ctx):
    n = case["n"]
    X = ortho(n, np.random.RandomState(case["seed"] & 0x7fffffff))
    spec = {"k": "level", "n": n}
    v = amps(spec, case["seed"] + 1, case["style"])
    with ctx.srv().case() as c:
        put(c, "w", spec, v)
        nrm = dbl(c("tr.mat", case["seq"], "w", n, X)[0])
        g = get(c, "w") * nrm ** (len(case["seq"]) // 2)
        e = X.T @ v if case["seq"][-1] == "f" else v
        ctx.check(err(g, e) <= 1e-12 * (np.abs(v).sum() + 1e-30), f"matrix transform {case['seq']} of {n} levels off by {err(g, e)}")


@st.composite
def msd(draw):
    return dict(dims=draw(grids(2, 60)), ns=draw(st.integers(1, 4)), seed=draw(seeds), style=draw(safe_styles), seq=draw(st.sampled_from(["f", "fb", "fbf", "fbfb"])))


def run_msd(case, ctx):
    ns = case["ns"]
    one = {"k": "grid", "dims": case["dims"]}
    spec = {"k": "multi", "states": [one] * ns}
    p = wf_size(one)
    r = np.random.RandomState(case["seed"] & 0x7fffffff)
    X = np.array([ortho(ns, r) for _ in range(p)])
    v = amps(spec, case["seed"] + 1, case["style"])
    with ctx.srv().case() as c:
        c(*GP)
        put(c, "w", spec, v)
        nrm = dbl(c("tr.msd", case["seq"], "w", ns, p, X.ravel())[0])
        g = get(c, "w").reshape(ns, p) * nrm ** (len(case["seq"]) // 2)
        V = v.reshape(ns, p)
        e = np.einsum("pij,ip->jp", X, V) if case["seq"][-1] == "f" else V
        ctx.check(err(g, e) <= 1e-12 * (np.abs(v).max() * ns + 1e-30), f"state transform {case['seq']} of {ns} states off by {err(g, e)}")


SUBS = [
    Sub("fftgrid", fftseq(), run_fft, (500, 12000), lambda c: len(c["dims"]) > 1 and len(c["seq"]) > 1, "more than one dimension and transform"),
    Sub("fft1d", fft1(), run_fft1, (150, 4000), lambda c: c["n"] > 2, "more than two points"),
    Sub("kgrid", ksp(), run_ksp, (200, 6000), lambda c: c["dims"][c["dim"]][0] > 2, "more than two points"),
    Sub("histories", wft(), run_wft, (400, 10000), lambda c: any(o[0][0] == "f" for o in c["ops"]), "history contains a transform"),
    Sub("first", kfirst(), run_kfirst, (200, 5000), lambda c: c["style"] != "one", "general data"),
    Sub("matrix", matt(), run_matt, (150, 4000), lambda c: c["n"] > 1, "more than one level"),
    Sub("multistate", msd(), run_msd, (150, 4000), lambda c: c["ns"] > 1, "more than one state"),
]
