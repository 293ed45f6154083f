"""C14: local operators against element-wise numpy evaluation of the documented formula, over generated parameters, grids and wave functions."""
from oplib import *
from runner import Sub

BUILD = [("opt", ["qdrv"])]
opt = lambda s: st.one_of(st.none(), s)


def run_op(ctx, wf, spec, case, what, tol=1e-12, clock=None, steps=(0,), alt=None, known=None):
    v = amps(wf, case["seed"], case["style"])
    with ctx.srv().case() as c:
        c(*GP)
        put(c, "p", wf, v)
        ops = Ops(c, wf, clock)
        load_op(c, ops, spec, "p")
        for t in steps:
            if clock:
                at_step(c, ops, t)
            M = ops.mat(spec)
            e = M @ v
            scale = max(np.abs(M).sum(axis=1).max() * np.abs(v).max(), 1e-300)
            out = apply_to(c, "O", "p", wf, f"out{t}")
            ctx.check(same_bits(get(c, "p"), v), f"{what}: applying the operator changes its argument")
            if err(out, e) > tol * scale:
                k = known
                if k:
                    A = alt(ops)
                    scale = max(scale, np.abs(A).max() * np.abs(v).max())
                    e, k = A @ v, k if err(out, A @ v) <= tol * scale else None
                ctx.fail(f"{what} {spec} on {kind(wf)}: off by {err(out, e):.3g} (scale {scale:.3g})" + (f" at step {t}" if clock else ""), k)
            put(c, "q", wf, v)
            c("op.inplace", "O", "q")
            ctx.check(err(get(c, "q"), out) <= tol * scale, f"{what}: in place application differs by {err(get(c, 'q'), out):.3g} from the two-argument one")
            me = cplx(c("op.matel", "O", "p", "p")[0])
            em = complex(np.vdot(v, metric(wf) * e))
            ctx.check(abs(me - em) <= tol * scale * (np.abs(v) * metric(wf)).sum(), f"{what}: matrix element {me} instead of {em}")


@st.composite
def potv(draw):
    v = dict(k=draw(st.sampled_from(["smooth", "noise", "pos", "const"])), seed=draw(seeds))
    if draw(st.booleans()):
        v["amp"] = draw(st.sampled_from([1e-6, 0.01, 1.0, 300.0]))
    if draw(st.booleans()):
        v["off"] = draw(flt(-50, 50))
    return v


@st.composite
def potmods(draw):
    s = dict(v=draw(potv()))
    if draw(st.booleans()):
        s["setzero"] = draw(st.booleans())
    if draw(st.booleans()):
        s["offset"] = draw(flt(-5, 5))
    if draw(st.booleans()):
        s["scale"] = draw(st.one_of(flt(-3, 3), st.just(0.0), st.just(219474.63)))
    return s


@st.composite
def gcase(draw, op, maxdim=4, nmin=2):
    dims = draw(grids(maxdim, 400, nmin, 64))
    return dict(dims=dims, op=draw(op(dims)), seed=draw(seeds), style=draw(safe_styles))


def gwf(case):
    return {"k": "grid", "dims": case["dims"]}


# ------------------------------------------------------------------ GridPotential
@st.composite
def s_pot(draw, dims):
    return dict(t="pot", **draw(potmods()))


def run_pot(case, ctx):
    s = case["op"]
    ctx.label("+".join(k for k in ("setzero", "offset", "scale") if s.get(k)) or "plain")
    run_op(ctx, gwf(case), s, case, "GridPotential", tol=1e-12 * 1e1)


# ------------------------------------------------------------------ GridPosition
@st.composite
def s_position(draw, dims):
    s = dict(t="position")
    if draw(st.booleans()):
        s["dim"] = draw(st.integers(0, len(dims) - 1))
    if draw(st.booleans()):
        s["scale"] = draw(st.one_of(flt(-4, 4), st.just(0.0)))
    return s


def run_position(case, ctx):
    ctx.label("one dimension" if case["op"].get("dim") is not None else "all dimensions")
    run_op(ctx, gwf(case), case["op"], case, "GridPosition")


# ------------------------------------------------------------------ GridKick
@st.composite
def s_kick(draw, dims):
    n = draw(st.integers(1, len(dims)))
    s = dict(t="kick", kv=[draw(st.one_of(flt(-20, 20), st.just(0.0))) for _ in range(n)])
    if draw(st.booleans()):
        s["scale"] = draw(st.one_of(flt(-4, 4), st.just(0.0)))
    if draw(st.booleans()):
        s["adims"] = len(dims)
    return s


def run_kick(case, ctx):
    ctx.label(f"{len(case['op']['kv'])} of {len(case['dims'])}")
    # the phase is rounded to an absolute precision of |k x|
    run_op(ctx, gwf(case), case["op"], case, "GridKick", tol=1e-11)


# ------------------------------------------------------------------ Gobbler
@st.composite
def s_gobbler(draw, dims):
    s = dict(t="gobbler")
    for k in ("lp", "rp"):
        for d, (n, a, b) in enumerate(dims):
            if draw(st.integers(0, 1)):
                m = draw(st.integers(0, 4))
                h = (b - a) / (n - 1)
                # an edge inside the grid, on a grid point, or at the ends
                e = draw(flt(a + 0.01 * h, b - 0.01 * h)) if m < 3 else a + h * draw(st.integers(0, n - 1))
                s.setdefault(k, {})[str(d)] = min(max(e, a), b)
    if draw(st.booleans()):
        s["order"] = draw(st.sampled_from([1, 2, 5, 20, 50, 100]))
    if draw(st.integers(0, 2)) == 0:
        s["gain"] = draw(flt(0.01, 5))
    if draw(st.integers(0, 2)) == 0:
        s["nip"] = True
    if draw(st.integers(0, 3)) == 0:
        s["residue"] = draw(st.booleans())
    if draw(st.booleans()):
        s["adims"] = len(dims)
    return s


def run_gobbler(case, ctx):
    s, wf = case["op"], gwf(case)
    ctx.label(("nip " if s.get("nip") else "") + f"lp{len(s.get('lp', {}))} rp{len(s.get('rp', {}))}")
    # large orders amplify the rounding of the edge position
    tol = 1e-12 * (s.get("order") or 20)
    run_op(ctx, wf, s, case, "Gobbler", tol=tol)
    v = amps(wf, case["seed"], case["style"])
    with ctx.srv().case() as c:
        c(*GP)
        put(c, "p", wf, v)
        ops = Ops(c, wf)
        load_op(c, ops, s, "p")
        g = ops.gobval(s)
        w = metric(wf)
        scale = np.abs(g).max() * max(np.abs(g).max(), 1) * (w * np.abs(v) ** 2).sum()
        x = dbl(c("op.expec", "O", "p")[0])
        e = (w * np.abs(g * v) ** 2).sum() if s.get("residue") else (w * g * np.abs(v) ** 2).sum().real
        ctx.check(abs(x - e) <= tol * scale, f"Gobbler {s}: expectation value {x:.17g} instead of {e:.17g}")
        ctx.check(int(c("op.flags", "O")[0]) == (0 if s.get("nip") else 1), f"Gobbler {s}: wrong statement about being Hermitian")
        if s.get("nip"):
            c("op.conj", "O", 1)
            d = err(apply_to(c, "O", "p", wf, "cc"), np.conj(g) * v)
            ctx.check(d <= tol * max(np.abs(g).max(), 1e-300) * np.abs(v).max(), f"Gobbler: adjoint off by {d:.3g}")


# ------------------------------------------------------------------ GridDipole / GridRaman
@st.composite
def laser(draw):
    k = draw(st.sampled_from(["file", "file", "gauss", "gauss2"]))
    if k == "file":
        return dict(k="file", seed=draw(seeds), extra=draw(st.sampled_from([0, 0, 1, 9])), amp=draw(st.sampled_from([1e-3, 1.0, 20.0])))
    L = dict(k=k)
    for x in ["", "2"][:2 if k == "gauss2" else 1]:
        for p, r in (("Emax", flt(-2, 2)), ("t0", flt(-20, 60)), ("sigma", flt(0.5, 30)), ("w0", flt(0, 3)), ("phi", flt(-7, 7)), ("b", flt(-0.1, 0.1))):
            if draw(st.booleans()):
                L[p + x] = draw(r)
    return L


@st.composite
def clocks(draw, smin=8):
    return [draw(st.one_of(flt(0.01, 10), st.sampled_from([1.0, 0.1, 0.25]))), draw(st.integers(smin, 40))]


@st.composite
def fcase(draw, op, maxdim=3):
    dims = draw(grids(maxdim, 200, 2, 40))
    ck = draw(clocks())
    return dict(dims=dims, clock=ck, op=draw(op(dims)), seed=draw(seeds), style=draw(safe_styles),
                steps=draw(st.lists(st.integers(0, ck[1] - 1), min_size=1, max_size=4)))


@st.composite
def s_dipole(draw, dims):
    return dict(t="dipole", laser=draw(laser()), **draw(potmods()))


def run_dipole(case, ctx):
    s = case["op"]
    ctx.label(s["laser"]["k"] + (" scale" if s.get("scale") is not None else ""))
    run_op(ctx, gwf(case), s, case, "GridDipole", tol=1e-11, clock=case["clock"], steps=case["steps"],
           known="dipole-scale-twice" if s.get("scale") not in (None, 1.0) else None, alt=lambda o: o.mat(s) * s["scale"])


@st.composite
def s_raman(draw, dims):
    lf = laser().filter(lambda l: l["k"] == "file")
    return dict(t="raman", lasers=[draw(lf) for _ in range(draw(st.integers(1, 2)))], **draw(potmods()))


def run_raman(case, ctx):
    s = case["op"]
    ctx.label(f"{len(s['lasers'])} fields")
    run_op(ctx, gwf(case), s, case, "GridRaman", tol=1e-11, clock=case["clock"], steps=case["steps"],
           known="dipole-scale-twice" if s.get("scale") not in (None, 1.0) else None, alt=lambda o: o.mat(s) * s["scale"] ** 2)


# ------------------------------------------------------------------ Scalar, Normalize, Projection on every kind of wave function
@st.composite
def anywf(draw, op):
    return dict(wf=draw(wfspecs(3, 150)), op=draw(op), seed=draw(seeds), style=draw(safe_styles))


@st.composite
def s_scalar(draw):
    s = dict(t="scalar", value=draw(flt(-5, 5)))
    if draw(st.booleans()):
        s["im"] = draw(flt(-5, 5))
    return s


def run_scalar(case, ctx):
    ctx.label(kind(case["wf"]))
    run_op(ctx, case["wf"], case["op"], case, "Scalar")


def run_normalize(case, ctx):
    wf = case["wf"]
    ctx.label(kind(wf))
    v = amps(wf, case["seed"], case["style"]) * case["amp"]
    n = math.sqrt((metric(wf) * np.abs(v) ** 2).sum())
    if n < 1e-150:
        return
    with ctx.srv().case() as c:
        put(c, "p", wf, v)
        c("op.load", "O", "<op name=\"Normalize\"/>")
        c("op.ginit", "O", "p")
        d = err(apply_to(c, "O", "p", wf), v / n)
        ctx.check(d <= 1e-12 * np.abs(v).max() / n, f"Normalize: off by {d:.3g}")
        ctx.check(same_bits(get(c, "p"), v), "Normalize changes its argument")
        c("op.inplace", "O", "p")
        ctx.check(abs(dbl(c("wf.norm", "p")[0]) - 1) < 1e-12, "Normalize: norm is not 1")


@st.composite
def s_projection(draw):
    s = dict(t="projection", seed=draw(seeds), num=draw(st.integers(1, 5)), amp=draw(st.sampled_from([1.0, 0.1, 1.0])), fmt=draw(st.sampled_from(["binary", "stream"])))
    if draw(st.booleans()):
        s["start"] = draw(st.integers(0, 12))
    if draw(st.booleans()):
        s["step"] = draw(st.integers(1, 5))
    for k in ("inv", "positive"):
        if draw(st.booleans()):
            s[k] = draw(st.booleans())
    if draw(st.booleans()):
        s["anum"] = 1
    return s


def run_projection(case, ctx):
    s = case["op"]
    ctx.label(f"{kind(case['wf'])} num {s['num']}" + (" inv" if s.get("inv") else "") + (" neg" if s.get("positive") is False else ""))
    run_op(ctx, case["wf"], s, case, "Projection", tol=1e-11)


# ------------------------------------------------------------------ HermitianMatrix, MatDipole
@st.composite
def s_mat(draw):
    s = dict(t="hermmat", seed=draw(seeds), amp=draw(st.sampled_from([1e-3, 1.0, 100.0])))
    if draw(st.booleans()):
        s["setzero"] = draw(st.booleans())
    if draw(st.booleans()):
        s["off"] = draw(flt(-10, 10))
    return s


@st.composite
def matcase(draw):
    s = draw(s_mat())
    ck = draw(clocks())
    if draw(st.booleans()):
        s.update(t="matdipole", laser=draw(laser()), scale=draw(st.one_of(st.none(), flt(-3, 3))))
    return dict(n=draw(st.integers(1, 30)), op=s, clock=ck, seed=draw(seeds), style=draw(safe_styles), steps=draw(st.lists(st.integers(0, ck[1] - 1), min_size=1, max_size=4)))


def run_mat(case, ctx):
    s = case["op"]
    ctx.label(s["t"] + (" setzero" if s.get("setzero") else ""))
    dip = s["t"] == "matdipole"
    run_op(ctx, {"k": "level", "n": case["n"]}, s, case, s["t"], tol=1e-10 if s.get("setzero") else 1e-12, clock=case["clock"] if dip else None, steps=case["steps"] if dip else (0,))


# ------------------------------------------------------------------ Flux
@st.composite
def flux(draw):
    dims = draw(grids(3, 200, 2, 40))
    return dict(dims=dims, mass=[draw(st.one_of(flt(0.2, 5), flt(100, 20000))) for _ in dims], g=draw(s_gobbler(dims).filter(lambda s: not s.get("nip"))),
                ns=draw(st.integers(0, 3)), seed=draw(seeds), style=draw(safe_styles), st=draw(st.integers(0, 2)))


def run_flux(case, ctx):
    dims, ns = case["dims"], case["ns"]
    g = {"k": "grid", "dims": dims}
    wf = {"k": "multi", "states": [g] * ns} if ns else g
    ctx.label(kind(wf))
    v = amps(wf, case["seed"], case["style"])
    with ctx.srv().case() as c:
        c(*GP)
        put(c, "p", wf, v)
        ops = Ops(c, wf)
        T, G = dict(t="nablasq", mass=case["mass"]), case["g"]
        if ns:
            k = case["st"] % ns
            T, G = [dict(t="multistate", unity=False, states=ns, el=[[k, k, o]]) for o in (T, G)]
        c("op.load", "O", f"<op name=\"Flux\">{ops.xml(T, 'T')}{ops.xml(G, 'G')}</op>")
        c("op.ginit", "O", "p")
        TM, GM = ops.mat(T), ops.mat(G)
        w = metric(wf)
        tv = TM @ v
        e = -2 * (w * np.diag(GM).real * np.imag(v.conj() * tv)).sum()
        x = dbl(c("op.expec", "O", "p")[0])
        scale = max(1e-300, np.abs(TM).sum(axis=1).max() * np.abs(v).max() * (w * np.abs(v)).sum() * np.abs(GM).max())
        ctx.check(abs(x - e) <= 1e-11 * scale, f"Flux: {x:.17g} instead of {e:.17g}")
        ctx.check(same_bits(get(c, "p"), v), "Flux: the wave function was changed")
        y = dbl(c("op.expec", "O", "p")[0])
        ctx.check(x == y, f"Flux: second evaluation gives {y!r} instead of {x!r}")


# ------------------------------------------------------------------ refusals
@st.composite
def refuse(draw):
    dims = draw(grids(3, 100, 2, 12))
    k = draw(st.sampled_from(["position dim", "kick dims", "gobbler edge", "gobbler dims", "potential grid", "level", "projection missing", "matrix size", "gobbler order", "kick many"]))
    return dict(dims=dims, k=k, seed=draw(seeds), a=draw(st.integers(1, 6)), side=draw(st.sampled_from(["lp", "rp"])), lo=draw(st.booleans()))


def run_refuse(case, ctx):
    dims, k, a = case["dims"], case["k"], case["a"]
    ctx.label(k)
    wf = {"k": "grid", "dims": dims}
    with ctx.srv().case() as c:
        c(*GP)
        ops = Ops(c, wf)
        d = len(dims)
        if k == "position dim":
            x = f"<op name=\"GridPosition\" dim=\"{d + a - 1}\"/>"
        elif k == "kick dims":
            x = f"<op name=\"GridKick\" dims=\"{d % 4 + 1}\" k=\"1\"/>"
        elif k == "kick many":
            x = f"<op name=\"GridKick\" k=\"{','.join(['1'] * (d + a))}\"/>"
        elif k == "gobbler edge":
            h = (dims[0][2] - dims[0][1]) / (dims[0][0] - 1)
            e = dims[0][1] - (1 + a) * h if case["lo"] else dims[0][2] + (2 + a) * h
            x = f"<op name=\"Gobbler\" {case['side']}0=\"{g17(e)}\"/>"
        elif k == "gobbler dims":
            x = f"<op name=\"Gobbler\" dims=\"{d % 4 + 1}\" lp0=\"{g17(dims[0][2])}\"/>"
        elif k == "gobbler order":
            x = f"<op name=\"Gobbler\" order=\"{1 - a}\" lp0=\"{g17(dims[0][2])}\"/>"
        elif k == "potential grid":
            o = [list(q) for q in dims]
            i = a % len(o)
            o[i][a % 3] += 1 if a % 3 != 2 else 0.5
            if o[i][1] >= o[i][2]:
                o[i][2] = o[i][1] + 1
            x = ops.xml(dict(t="pot", dims=o, v=dict(k="smooth", seed=case["seed"])))
        elif k == "level":
            wf = {"k": "level", "n": wf_size(wf)}
            x = [ops.xml(dict(t="pot", v=dict(k="smooth", seed=1))), "<op name=\"GridPosition\"/>", "<op name=\"GridKick\" k=\"1\"/>", f"<op name=\"Gobbler\" lp0=\"{g17(dims[0][2])}\"/>"][a % 4]
        elif k == "projection missing":
            put(c, "w", wf, amps(wf, 1))
            for i in range(a):
                write_seq(c, "w", "pr", i, "binary" if case["lo"] else "stream")
            x = f"<op name=\"Projection\" files=\"pr\" num=\"{a + 1}\"/>"
        else:
            x = Ops(c, {"k": "level", "n": wf_size(wf) + a}).xml(dict(t="hermmat", seed=case["seed"]))
            wf = {"k": "level", "n": wf_size(wf)}
        put(c, "p", wf, amps(wf, case["seed"]))
        try:
            c("op.load", "O", x)
            c("op.ginit", "O", "p")
        except QdError:
            return
        ctx.fail(f"{k}: {x} is accepted on {kind(wf)}")


rule = "the operator is not the identity on the generated wave function"
nt = lambda k: True
SUBS = [
    Sub("potential", gcase(s_pot), run_pot, (120, 1500), lambda k: k["op"]["v"]["k"] != "const", "the potential varies over the grid"),
    Sub("position", gcase(s_position), run_position, (80, 800), nt, "all"),
    Sub("kick", gcase(s_kick), run_kick, (80, 800), lambda k: any(k["op"]["kv"]) and k["op"].get("scale") != 0, "nonzero momentum"),
    Sub("gobbler", gcase(s_gobbler), run_gobbler, (150, 1500), lambda k: bool(k["op"].get("lp") or k["op"].get("rp")), "at least one edge"),
    Sub("dipole", fcase(s_dipole), run_dipole, (80, 800), nt, "all"),
    Sub("raman", fcase(s_raman), run_raman, (60, 600), nt, "all"),
    Sub("scalar", anywf(s_scalar()), run_scalar, (60, 600), lambda k: k["op"]["value"] not in (0, 1), "the factor is not 0 or 1"),
    Sub("normalize", anywf(st.none()).flatmap(lambda d: st.sampled_from([1.0, 1e-8, 1e6]).map(lambda a: dict(d, amp=a))), run_normalize, (60, 600), nt, "all"),
    Sub("projection", anywf(s_projection()), run_projection, (100, 1000), lambda k: k["op"]["num"] > 1, "more than one state"),
    Sub("matrix", matcase(), run_mat, (100, 1000), lambda k: k["n"] > 1, "more than one level"),
    Sub("flux", flux(), run_flux, (60, 600), lambda k: bool(k["g"].get("lp") or k["g"].get("rp")), "at least one edge"),
    Sub("refuse", refuse(), run_refuse, (80, 600), nt, "all"),
]
