"""C13: differential operators against dense numpy matrices: spectral derivatives from the DFT, finite differences from the exact central stencils."""
from oplib import *
from runner import Sub

BUILD = [("opt", ["qdrv"])]


@st.composite
def fdgrids(draw, order, maxdim=3, maxpts=400):
    """Grids with at least `order` points per dimension."""
    dmax = 1
    while order ** (dmax + 1) <= maxpts and dmax < maxdim:
        dmax += 1
    d = draw(st.integers(1, dmax))
    dims, tot = [], 1
    for i in range(d):
        hi = max(order, min(60, maxpts // (tot * order ** (d - i - 1))))
        n = draw(st.integers(max(2, order), max(2, hi)))
        tot *= n
        dims.append([n, *draw(bounds())])
    return dims


masses = st.one_of(flt(0.2, 5.0), flt(100.0, 20000.0), st.just(1.0))


@st.composite
def massv(draw, d, zero=True):
    m = [draw(masses) for _ in range(d)]
    if zero and d > 1 and draw(st.integers(0, 3)) == 0:
        m[draw(st.integers(0, d - 1))] = draw(st.sampled_from([0.0, -1.0]))
    return m


def compare(ctx, case, spec, dims, what, tol=1e-11, alt=None, known=None):
    wf = {"k": "grid", "dims": dims}
    v = amps(wf, case["seed"], case["style"])
    with ctx.srv().case() as c:
        c(*gp_plan("measure" if case["seed"] % 3 == 1 else "estimate"))
        put(c, "p", wf, v)
        ops = Ops(c, wf)
        load_op(c, ops, spec, "p")
        out = apply_to(c, "O", "p", wf)
        ctx.check(same_bits(get(c, "p"), v), f"{what}: applying the operator changes its argument")
        M = ops.mat(spec)
        e = M @ v
        nrm = np.abs(M).sum(axis=1).max() * np.abs(v).max()
        d = err(out, e)
        if d > tol * (nrm + 1e-300):
            # a listed finding is recognised by the exact wrong result it gives
            if alt is not None and err(out, alt @ v) > tol * nrm:
                known = None
            ctx.fail(f"{what} on grid {[x[0] for x in dims]}: off by {d:.3g} (scale {nrm:.3g})", known)
        # a second application of the same object gives the same
        out2 = apply_to(c, "O", "p", wf, "again")
        ctx.check(err(out, out2) == 0, f"{what}: a second application differs by {err(out, out2):.3g}")
        return out


# ------------------------------------------------------------------ GridNablaSq
@st.composite
def nsq(draw):
    if draw(st.booleans()):
        dims = draw(grids(4, 400, nmax=64))
        s = dict(t="nablasq", mass=draw(massv(len(dims))))
        if draw(st.booleans()):
            s["method"] = "FFT"
    else:
        order = 2 * draw(st.integers(1, draw(st.sampled_from([3, 6, 25]))))
        dims = draw(fdgrids(order))
        s = dict(t="nablasq", mass=draw(massv(len(dims))), method="HOFD", order=order)
        if draw(st.integers(0, 2)):
            s["pbc"] = draw(st.booleans())
        if order == 8 and draw(st.booleans()):
            del s["order"]
    return dict(dims=dims, op=s, seed=draw(seeds), style=draw(safe_styles))


def run_nsq(case, ctx):
    ctx.label(case["op"].get("method", "FFT"))
    s, dims = case["op"], case["dims"]
    alt = known = None
    if s.get("method") == "HOFD" and not s.get("pbc") and len(dims) == 1:
        # listed finding: at the lower end of a one-dimensional grid the stencil wraps around although pbc is off
        n, o = dims[0][0], s.get("order") or 8
        A = fd_d(dims[0], 2, o, False)
        W = fd_d(dims[0], 2, o, True)
        for i in range(o // 2):
            A[i] = W[i]
            # points beyond the upper end stay zero
        for i in range(n):
            for k in range(1, o // 2 + 1):
                if i < o // 2 and i + k >= n:
                    A[i, (i + k) % n] -= fd_coef(2, o)[o // 2 + k] / ((dims[0][2] - dims[0][1]) / (n - 1)) ** 2
        alt, known = -A / (2 * s["mass"][0]), "hofd-1d-left-edge"
    compare(ctx, case, s, dims, f"GridNablaSq {s}", alt=alt, known=known)


# ------------------------------------------------------------------ GridHOFD
@st.composite
def hofd(draw):
    order = 2 * draw(st.integers(1, draw(st.sampled_from([3, 6, 25]))))
    dims = draw(fdgrids(order))
    s = dict(t="hofd", deriv=draw(st.integers(1, 2)), order=order, pbc=draw(st.booleans()))
    if draw(st.booleans()):
        s["dim"] = draw(st.integers(-1, len(dims) - 1))
    if draw(st.booleans()):
        s["mass"] = [draw(masses) for _ in dims]
    return dict(dims=dims, op=s, seed=draw(seeds), style=draw(safe_styles))


def run_hofd(case, ctx):
    compare(ctx, case, case["op"], case["dims"], f"GridHOFD {case['op']}")


# ------------------------------------------------------------------ GridNabla, GridMomentum
@st.composite
def nabla(draw):
    dims = draw(grids(4, 400, nmax=64))
    s = dict(t=draw(st.sampled_from(["nabla", "momentum"])))
    if draw(st.booleans()):
        s["dim"] = draw(st.integers(0, len(dims) - 1))
    if draw(st.integers(0, 2)) == 0:
        s["factor"] = draw(flt(-4, 4))
    return dict(dims=dims, op=s, seed=draw(seeds), style=draw(safe_styles))


def run_nabla(case, ctx):
    compare(ctx, case, case["op"], case["dims"], f"Grid{case['op']}")


# ------------------------------------------------------------------ GridGMat
@st.composite
def gmat(draw):
    hof = draw(st.integers(0, 3)) == 0
    chain = draw(st.integers(0, 2)) == 0
    order = 2 * draw(st.integers(1, 4)) if hof or chain else None
    dims = draw(fdgrids(order, 3, 300)) if order else draw(grids(3, 300, nmax=48))
    n = len(dims)
    style = draw(st.sampled_from(["c", "g", "mix", "mix"]))
    el = []
    for k in range(n * (n + 1) // 2):
        t = style if style != "mix" else draw(st.sampled_from("cgx"))
        el.append({"c": draw(flt(-2, 2))} if t == "c" else {"g": draw(seeds)} if t == "g" else {"x": 1})
    s = dict(t="gmat", el=el)
    if draw(st.booleans()):
        s["coup"] = draw(st.booleans())
    if draw(st.booleans()):
        s["plain"] = True
    if hof:
        s.update(method="HOFD", order=order, pbc=draw(st.booleans()))
    elif order and not (order == 8 and draw(st.booleans())):
        s["order"] = order
    if chain:
        s["chainrule"] = True
    return dict(dims=dims, op=s, seed=draw(seeds), style=draw(safe_styles))


def run_gmat(case, ctx):
    s = case["op"]
    for k in ("chainrule", "method", "coup"):
        if s.get(k) is not None:
            ctx.label(f"{k}={s[k]}")
    compare(ctx, case, s, case["dims"], f"GridGMat {s}")


# ------------------------------------------------------------------ GridNAC
@st.composite
def nac(draw):
    dims = draw(grids(3, 300, nmax=64))
    s = dict(t="nac", f=[draw(seeds) for _ in dims])
    if draw(st.booleans()):
        s["sign"] = draw(st.sampled_from([1, -1]))
    if len(dims) == 1:
        if draw(st.booleans()):
            s["mass"] = draw(masses)
        s["adims"] = draw(st.booleans())
    return dict(dims=dims, op=s, seed=draw(seeds), style=draw(safe_styles))


def run_nac(case, ctx):
    compare(ctx, case, case["op"], case["dims"], f"GridNAC {case['op']}")


# ------------------------------------------------------------------ GridPML
@st.composite
def pml(draw):
    dims = draw(grids(3, 400, nmin=4, nmax=80))
    d = len(dims)
    per = lambda e: [draw(e)] if draw(st.booleans()) else [draw(e) for _ in dims]
    s = dict(t="pml", mass=draw(massv(d)))
    nm = min(x[0] for x in dims)
    s["thick"] = [draw(st.integers(1, nm))] if draw(st.booleans()) else [draw(st.integers(1, x[0])) for x in dims]
    if draw(st.booleans()):
        s["lmap"] = per(st.integers(0, 3))
    if draw(st.booleans()):
        s["gamma"] = per(flt(0, 0.5))
    if draw(st.booleans()):
        s["p"] = per(st.integers(1, 6))
    if draw(st.integers(0, 2)) == 0:
        s["k"] = per(flt(0.5, 20))
    if draw(st.booleans()):
        s["smax"] = draw(st.sampled_from([0.0, 0.5, 3.0, 17.7]))
    elif draw(st.booleans()):
        s["otol"] = draw(st.sampled_from([1e-3, 1e-5, 1e-8]))
    if draw(st.integers(0, 3)) == 0:
        s.update(method="HOFD", order=2 * draw(st.integers(1, nm // 2)), pbc=draw(st.booleans()))
    return dict(dims=dims, op=s, seed=draw(seeds), style=draw(safe_styles))


def run_pml(case, ctx):
    compare(ctx, case, case["op"], case["dims"], f"GridPML {case['op']}", tol=1e-10)


# ------------------------------------------------------------------ layers do not touch the interior
@st.composite
def inter(draw):
    n = draw(st.integers(80, 140))
    a, L = draw(flt(-5, 5)), draw(flt(8, 20))
    return dict(dims=[[n, a, a + L]], mass=draw(masses), lmap=draw(st.integers(0, 3)), thick=draw(st.integers(3, 12)),
                k0=draw(flt(-0.5, 0.5)), gm=draw(st.booleans()), pos=draw(flt(0.4, 0.6)), seed=draw(seeds))


def run_inter(case, ctx):
    """A packet away from the layers feels the ordinary kinetic energy."""
    dims = case["dims"]
    n, a, b = dims[0]
    dx = (b - a) / (n - 1)
    x = xs(dims[0])
    w = 3.5 * dx
    psi = np.exp(-0.5 * ((x - a - case["pos"] * (b - a)) / w) ** 2 + 1j * case["k0"] / dx * x)
    k = kvec(dims[0])
    e = np.fft.ifft(k * k / (2 * case["mass"]) * np.fft.fft(psi))
    if case["gm"]:
        s = dict(t="gmat", el=[{"c": 1 / case["mass"]}], pml=True, thick=case["thick"], plain=True)
    else:
        s = dict(t="pml", mass=[case["mass"]], lmap=[case["lmap"]], thick=[case["thick"]])
    wf = {"k": "grid", "dims": dims}
    with ctx.srv().case() as c:
        c(*GP)
        put(c, "p", wf, psi)
        load_op(c, Ops(c, wf), s, "p")
        out = apply_to(c, "O", "p", wf)
    sc = (np.pi / dx) ** 2 / (2 * case["mass"])
    ctx.check(err(out, e) <= 1e-7 * sc, f"{'GridGMat pml' if case['gm'] else 'GridPML'} differs from the kinetic energy away from the layers by {err(out, e) / sc:.3g} of its maximum")


# ------------------------------------------------------------------ refusals
@st.composite
def refuse(draw):
    m = draw(st.sampled_from(["small", "small", "order", "dims", "pmldims", "hofdmass", "dim", "thick", "empty"]))
    dims = draw(grids(3, 200))
    d = len(dims)
    if m == "small":
        i = draw(st.integers(0, d - 1))
        dims[i][0] = min(dims[i][0], 8)
        o = 2 * draw(st.integers(dims[i][0] // 2 + 1, 25))
        s = draw(st.sampled_from([dict(t="nablasq", mass=[1.0] * d, method="HOFD", order=o), dict(t="hofd", deriv=1, order=o),
                                  dict(t="hofd", deriv=2, order=o, dim=i, pbc=True), dict(t="gmat", el=[{"c": 1.0}] * (d * (d + 1) // 2), method="HOFD", order=o, plain=True)]))
    elif m == "order":
        s = dict(t="hofd", deriv=draw(st.sampled_from([1, 2])), order=draw(st.sampled_from([0, 1, 3, 7, 51, 52, 100, -2])))
    elif m == "dims":
        s = dict(t="nablasq", mass=[1.0] * (d + draw(st.sampled_from([-1, 1])) or 2))
        if len(s["mass"]) == d:
            s["mass"] = s["mass"] + [1.0]
    elif m == "pmldims":
        s = dict(t="pml", mass=[1.0] * (d + 1 if draw(st.booleans()) or d == 1 else d - 1), thick=[2])
    elif m == "hofdmass":
        s = dict(t="hofd", deriv=2, order=2, mass=[1.0] * (d - 1)) if d > 1 else dict(t="hofd", deriv=3, order=2)
    elif m == "dim":
        s = draw(st.sampled_from([dict(t="hofd", deriv=1, order=2, dim=d), dict(t="momentum", dim=d), dict(t="nabla", dim=d + 1), dict(t="nabla", dim=-1)]))
    elif m == "thick":
        s = dict(t="pml", mass=[1.0] * d, thick=[max(x[0] for x in dims) + draw(st.integers(1, 50))])
    else:
        s = dict(t="nablasq", mass=[draw(st.sampled_from([0.0, -1.0])) for _ in dims])
    return dict(dims=dims, op=s, why=m, seed=draw(seeds), style="gauss")


def run_refuse(case, ctx):
    wf = {"k": "grid", "dims": case["dims"]}
    v = amps(wf, case["seed"])
    with ctx.srv().case() as c:
        c(*GP)
        put(c, "p", wf, v)
        try:
            load_op(c, Ops(c, wf), case["op"], "p")
            out = apply_to(c, "O", "p", wf)
        except QdError:
            return
    ctx.fail(f"accepted instead of refused ({case['why']}): {case['op']} on grid {[x[0] for x in case['dims']]}")


multi = lambda k: k["style"] != "one" and len(k["dims"]) > 1
SUBS = [
    Sub("nablasq", nsq(), run_nsq, (300, 6000), multi, "more than one dimension and a general vector"),
    Sub("hofd", hofd(), run_hofd, (200, 4000), multi, "more than one dimension and a general vector",
        fixed=[dict(dims=[[6, 0.0, 1.0], [7, 0.0, 2.0]], op=dict(t="hofd", deriv=2, order=4, pbc=False, mass=[1.0, 3.0]), seed=1, style="gauss")]),
    Sub("nabla", nabla(), run_nabla, (200, 4000), multi, "more than one dimension and a general vector"),
    Sub("gmat", gmat(), run_gmat, (250, 5000), multi, "more than one dimension and a general vector"),
    Sub("nac", nac(), run_nac, (120, 2500), lambda k: k["style"] != "one", "general vector"),
    Sub("pml", pml(), run_pml, (200, 4000), lambda k: k["op"].get("smax") != 0.0, "absorbing layer present"),
    Sub("interior", inter(), run_inter, (80, 1500), None, "every case"),
    Sub("refuse", refuse(), run_refuse, (150, 2500), None, "every case"),
]
