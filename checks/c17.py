"""C17: single and repeated steps of every propagator for generated Hamiltonians, fields and step sizes against the dense matrix exponential; order bounds for the split operator and Runge-Kutta; conservation laws over many steps."""
import json

from prop import *
from runner import Sub

BUILD = [("opt", ["qdrv"])]


def steps(ck):
    """How each step is done, and at which time step of the clock."""
    return st.lists(st.tuples(st.sampled_from(["inplace", "copy"]), st.one_of(st.none(), st.none(), st.integers(0, 4))).map(list), min_size=1, max_size=4)


def is_eig(k):
    return k.get("start") == "eig"


@st.composite
def base(draw, zmax, nonherm=False, fields=True):
    wf = draw(pwf())
    ck = fields and draw(st.booleans())
    k = dict(wf=wf, clock=ck, n=8, op=draw(ham(wf, ck, nonherm)), seed=draw(seeds), style=draw(safe_styles), norm=draw(st.sampled_from([1.0, 1.0, 0.3, 2.0, 1e-3, 50.0])),
             steps=draw(steps(ck)), plan=draw(st.sampled_from(["estimate", "estimate", "measure", "patient"])))
    k["z"] = draw(st.one_of(flt(0.01, zmax), flt(0.01, min(1.0, zmax))))
    if not nonherm and draw(st.integers(0, 5)) == 0:
        k["start"], k["neig"] = "eig", draw(st.integers(1, 3))
    return k


def go(case, ctx, dt, tol, fresh=False):
    p0 = case["prop"]["t"]
    with ctx.srv().case() as c:
        p = Prop(ctx, c, case, dt)
        p.init()
        v = start = p.v
        worst = 0
        for how, t in case["steps"]:
            if t is not None and case["clock"]:
                p.goto(t)
            p.step(how)
            v = p.exact(v)
            g = get(c, "psi")
            e = p.norm(g - v) / (p.norm(v) or 1)
            worst = max(worst, e) if e == e else float("inf")
            lim = (tol(p) if callable(tol) else tol)
            worst_lim = lim
            if not e <= lim:
                ctx.fail(f"{p0}: step {how} at clock {p.t} ({kind(case['wf'])}, {wf_size(case['wf'])} points, {brief(case.get('op') or case['parts'])[:300]}, dt={dt:.6g}): deviates from the exact evolution by {e:.3g} (allowed {lim:.3g})")
            v = g   # the errors of the steps do not add up in the comparison
            t_last = p.t
            before = start
            start = g
            p.tick()
        if fresh:
            # the same step by a propagator that has done nothing before
            p.goto(t_last)
            new_wf(c, "f", case["wf"])
            put(c, "f", case["wf"], before)
            c("op.load", "U2", p.text)
            c("op.clock", "U2")
            c("op.init", "U2", "f")
            c("op.inplace", "U2", "f")
            e = p.norm(get(c, "f") - start)
            ctx.check(e <= 1e-11 * max(p.norm(before), 1e-300), f"{p0}: the last step at clock {t_last} after {case['steps']} ({kind(case['wf'])}, {brief(case.get('op') or case['parts'])[:300]}, dt={dt:.6g}) differs by {e:.3g} from the same step by a new propagator")
        return worst


# ------------------------------------------------------------------ Chebychev
@st.composite
def cheby(draw):
    k = draw(base(30))
    P = dict(t="Cheby")
    if draw(st.booleans()):
        P["prec"] = 1e-30
    k["margin"] = draw(st.sampled_from([0.0, 0.05, 0.3, 1.0]))
    k["prop"] = P
    k["order"] = draw(st.integers(0, 3)) == 0
    return k


def run_cheby(case, ctx):
    r = Ranges(case)
    P = case["prop"]
    dt = case["z"] / r.R
    sc = case["margin"] * r.R
    P.update(Emax=float(r.hi + sc + 1e-3 * r.R), Emin=float(r.lo - sc - 1e-3 * r.R))
    x = (P["Emax"] - P["Emin"]) / 2 * dt
    if case["order"]:
        P["order"] = int(2 * x + 40)
    ctx.label(("prec " if "prec" in P else "default ") + ("order" if case["order"] else ""))
    go(case, ctx, dt, 3e-9 if "prec" in P else 3e-5)


# the range announced by the operators (inexact ones are listed findings of C12)
@st.composite
def announced(draw):
    k = draw(base(10, fields=False).filter(lambda k: k["wf"]["k"] != "multi"))
    k["prop"] = dict(t="Cheby", prec=1e-30)
    return k


def run_announced(case, ctx):
    r = Ranges(case)
    go(case, ctx, case["z"] / r.R, 3e-9)


# ------------------------------------------------------------------ short iterative Lanczos and Arnoldi
@st.composite
def krylov(draw):
    k = draw(base(4))
    P = dict(t=draw(st.sampled_from(["SIL", "Arnoldi"])))
    m = draw(st.one_of(st.none(), st.integers(4, 30)))
    if m:
        P["order"] = m
    if draw(st.integers(0, 3)) == 0:
        P["err" if P["t"] == "SIL" else "conv"] = draw(st.sampled_from([1e-6, 1e-9, 1e-14]))
    k["prop"] = P
    if draw(st.integers(0, 7)) == 0:
        # step sizes of the order of a large basis
        P["order"] = draw(st.integers(40, 60))
        k["z"] = draw(flt(4, 8))
    return k


def kry_tol(P, z):
    m = P.get("order", 20) - 2
    import math
    t = 20 * z ** m / math.gamma(m + 1) if m < 100 else 0
    return max(5e-8, t, 100 * P.get("err", P.get("conv", 0)))


def run_krylov(case, ctx):
    r = Ranges(case)
    P = case["prop"]
    ctx.label(P["t"] + (" eig" if is_eig(case) else "") + (" small space" if wf_size(case["wf"]) < P.get("order", 20) else ""))
    # the last vectors of a basis which exhausts the space are determined by rounding errors
    small = wf_size(case["wf"]) <= P.get("order", 20) or is_eig(case)
    go(case, ctx, case["z"] / r.R, max(kry_tol(P, case["z"]), 2e-6 if small and P["t"] == "Arnoldi" else 0))


# ------------------------------------------------------------------ Runge-Kutta
@st.composite
def rk(draw):
    k = draw(base(1.5))
    k["prop"] = dict(t="RK4")
    return k


def rk_tol(x):
    """The remainder of the fourth order series."""
    return 1.05 * x ** 5 / 120 * np.exp(x) + 1e-13


def run_rk(case, ctx):
    r = Ranges(case)
    go(case, ctx, case["z"] / r.N, rk_tol(case["z"]))


# ------------------------------------------------------------------ non-Hermitian Hamiltonians
@st.composite
def nonherm(draw):
    k = draw(base(2, True))
    k["prop"] = dict(t=draw(st.sampled_from(["Cheby", "Arnoldi", "RK4"])))
    return k


def cheby_range(case, r, m=0.05):
    case["prop"].update(Emax=float(r.hi + m * r.R), Emin=float(r.lo - m * r.R))
    if r.aherm > 1e-12:
        case["prop"].update(Emax_im=float(max(0.0, r.whi)), Emin_im=float(r.wlo - 1e-3 * r.R))


def run_nonherm(case, ctx):
    r = Ranges(case)
    t = case["prop"]["t"]
    ctx.label(t)
    dt = case["z"] / (r.N if t == "RK4" else r.R)
    if t == "Cheby":
        cheby_range(case, r)
        case["prop"]["prec"] = 1e-30
    go(case, ctx, dt, {"Cheby": 1e-8, "Arnoldi": max(2e-6, kry_tol({}, 2 * case["z"])), "RK4": rk_tol(case["z"])}[t])


# ------------------------------------------------------------------ split operator
@st.composite
def gparts(draw, wf, ck, nonherm=False):
    if wf["k"] == "level":
        p = [dict(t="hermmat", seed=draw(seeds), amp=draw(st.sampled_from([0.1, 1.0, 5.0])))]
        if ck:
            p.append(dict(t="matdipole", seed=draw(seeds), amp=1.0, laser=draw(ffield()), scale=None))
        elif draw(st.booleans()):
            p.append(dict(t="hermmat", seed=draw(seeds), amp=draw(st.sampled_from([0.1, 1.0]))))
        return list(draw(st.permutations(p)))
    kin = lambda d: st.builds(lambda m: dict(t="nablasq", mass=m), st.lists(flt(0.3, 5), min_size=len(d), max_size=len(d)))
    if wf["k"] == "grid":
        p = [draw(kin(wf["dims"])), draw(smoothpot())]
        if ck:
            p.append(dict(draw(smoothpot()), t="dipole", laser=draw(ffield())))
        elif draw(st.booleans()):
            p.append(dict(t="position", dim=draw(st.integers(0, len(wf["dims"]) - 1)), scale=draw(flt(-1, 1))) if draw(st.booleans()) else draw(smoothpot()))
        p = list(draw(st.permutations(p)))[:draw(st.integers(1, 3))]
        if nonherm:
            p.append(draw(c14.s_gobbler(wf["dims"]).filter(lambda s: s.get("nip"))))
            p = list(draw(st.permutations(p)))
        return p
    n, w = len(wf["states"]), wf["states"][0]
    if w["k"] == "level":
        return [dict(t="multistate", d=True, states=n, el=[[i, i, dict(t="hermmat", seed=draw(seeds), amp=1.0)] for i in range(n)])]
    T = dict(t="multistate", d=True, states=n, el=[[i, i, draw(kin(w["dims"]))] for i in range(n)])

    def V(f, miss):
        el = []
        for i in range(n):
            for j in range(i + 1):
                if i != j and draw(st.booleans()) or i == j and miss and draw(st.integers(0, 2)) == 0:
                    continue
                o = draw(smoothpot(3.0 if i == j else 0.5))
                if f and draw(st.booleans()):
                    o = dict(o, t="dipole", laser=draw(ffield()))
                el.append([i, j, o] if draw(st.booleans()) else [j, i, o])
        return dict(t="multistate", d=True, states=n, el=el or [[0, 0, draw(smoothpot())]], unity=draw(st.sampled_from([None, True, True, False])))
    p = [T, V(ck, draw(st.booleans()))]
    if draw(st.integers(0, 2)) == 0:
        p.append(V(ck, True))
    return list(draw(st.permutations(p)))


@st.composite
def gspo(draw, nonherm=False):
    wf = draw(pwf(2).filter(lambda w: w["k"] == "grid" if nonherm else True))
    ck = draw(st.booleans())
    return dict(wf=wf, clock=ck, n=8, parts=draw(gparts(wf, ck, nonherm)), prop=dict(t="GSPO"), seed=draw(seeds), style=draw(safe_styles), norm=draw(st.sampled_from([1.0, 1.0, 0.3, 2.0])),
                dt=draw(st.one_of(flt(1e-3, 1), st.sampled_from([0.01, 0.1]))), steps=draw(steps(ck)), plan=draw(st.sampled_from(["estimate", "estimate", "measure", "patient"])))


def run_gspo(case, ctx):
    def tol(p):
        return gspo_bound(p.parts(), case["dt"]) * (2 if any("gobbler" in json.dumps(s) for s in case["parts"]) else 1) + 1e-11
    ctx.label(f"{kind(case['wf'])[:5]} {len(case['parts'])} parts")
    go(case, ctx, case["dt"], tol, True)


# ------------------------------------------------------------------ Lanczos refuses what it cannot do
@st.composite
def refuse(draw):
    k = draw(base(1, True))
    k["prop"] = dict(t="SIL")
    return k


def run_refuse(case, ctx):
    with ctx.srv().case() as c:
        p = Prop(ctx, c, case, 0.1)
        try:
            p.init()
        except qd.QdError:
            return
        ctx.fail(f"SIL accepts the non-Hermitian Hamiltonian {brief(case['op'])[:300]}")


# ------------------------------------------------------------------ conservation laws over many steps
@st.composite
def conserve(draw):
    k = draw(base(2, fields=False))
    k["prop"] = dict(t=draw(st.sampled_from(["Cheby", "SIL", "Arnoldi", "GSPO", "RK4"])))
    if k["prop"]["t"] == "GSPO":
        k.pop("op"), k.pop("start", 0)
        k["parts"] = draw(gparts(k["wf"], False))
    k["nsteps"] = draw(st.integers(5, 60))
    k["seed2"] = draw(seeds)
    return k


def run_conserve(case, ctx):
    r = Ranges(case)
    t = case["prop"]["t"]
    n = case["nsteps"]
    ctx.label(t)
    dt = case["z"] / r.R
    if t == "RK4":
        dt = 0.1 * case["z"] / r.N
    if t == "Cheby":
        cheby_range(case, r)
        case["prop"]["prec"] = 1e-30
    if t in ("SIL", "Arnoldi"):
        case["prop"]["order"] = 30
    tol = {"Cheby": 1e-8, "SIL": 1e-8, "Arnoldi": 2e-7, "GSPO": 1e-10, "RK4": rk_tol(0.1 * case["z"]) * 2}[t] * n
    with ctx.srv().case() as c:
        p = Prop(ctx, c, case, dt)
        p.init()
        H = p.H()
        m = np.broadcast_to(metric(case["wf"]), p.v.shape)
        sp = lambda a, b: complex((a.conj() * b * m).sum())
        v = p.v
        if not p.norm(v):
            return
        w = amps(case["wf"], case["seed2"], "gauss")
        w = w / p.norm(w)
        new_wf(c, "phi", case["wf"])
        put(c, "phi", case["wf"], w)
        for i in range(n):
            c("op.inplace", "U", "psi")
            c("op.inplace", "U", "phi")
            p.tick()
        a, b = get(c, "psi"), get(c, "phi")
        N = case["norm"] ** 2
        ctx.check(abs(sp(a, a).real / N - 1) <= tol, f"{t}: norm² after {n} steps is {sp(a, a).real / N} of the start")
        ctx.check(abs(sp(a, b) - sp(v, w)) <= tol * case["norm"], f"{t}: <psi|phi> after {n} steps is {sp(a, b)} instead of {sp(v, w)}")
        if t != "GSPO":
            e0, e1 = sp(v, H @ v).real / N, sp(a, H @ a).real / N
            ctx.check(abs(e1 - e0) <= tol * max(r.N, 1e-3), f"{t}: energy after {n} steps is {e1} instead of {e0}")
            U = sla.expm(-1j * dt * n * H) @ v
            ctx.check(p.norm(a - U) <= tol * case["norm"], f"{t}: after {n} steps of {dt:.4g} the state deviates by {p.norm(a - U) / case['norm']:.3g}")


# ------------------------------------------------------------------ observed order
@st.composite
def order(draw):
    k = draw(conserve().filter(lambda k: k["prop"]["t"] in ("GSPO", "RK4")))
    k["T"] = draw(flt(0.2, 1.0))
    return k


def run_order(case, ctx):
    """Halving the step divides the error by 2^order over a fixed time."""
    r = Ranges(case)
    t = case["prop"]["t"]
    T = case["T"] / r.N * (3 if t == "RK4" else 1)
    err = []
    for n in (2, 4, 8):
        with ctx.srv().case() as c:
            p = Prop(ctx, c, case, T / n)
            p.init()
            for _ in range(n):
                c("op.inplace", "U", "psi")
                p.tick()
            err.append(p.norm(get(c, "psi") - sla.expm(-1j * T * p.H()) @ p.v) / case["norm"])
    ctx.label(t)
    q = 4 if t == "RK4" else 2
    for a, b in zip(err, err[1:]):
        ctx.check(b <= a / 2 ** (q - 0.7) + 1e-11, f"{t}: errors {err} for 2, 4 and 8 steps over T={T:.4g}: not of order {q}")


big = lambda k: wf_size(k["wf"]) > 2
SUBS = [
    Sub("cheby", cheby(), run_cheby, (220, 5000), big, "more than two basis functions"),
    Sub("announced", announced(), run_announced, (60, 1500), big, "more than two basis functions"),
    Sub("krylov", krylov(), run_krylov, (260, 6000), big, "more than two basis functions"),
    Sub("rk4", rk(), run_rk, (150, 3000), big, "more than two basis functions"),
    Sub("nonherm", nonherm(), run_nonherm, (200, 4000), big, "more than two basis functions"),
    Sub("gspo", st.one_of(gspo(), gspo(), gspo(True)), run_gspo, (260, 6000), lambda k: len(k["parts"]) > 1, "at least two parts"),
    Sub("refuse", refuse(), run_refuse, (40, 500), None, "every case"),
    Sub("conserve", conserve(), run_conserve, (120, 2500), big, "more than two basis functions"),
    Sub("order", order(), run_order, (60, 1500), big, "more than two basis functions"),
]
