"""C18: generated histories of steps, direction and mode switches and clock movements of every propagator against dense matrix exponentials of H, its adjoint and exp(-H dt); forward-backward round trips; the Hamiltonian applied after a switch against the adjoint of generated operator trees; decay with absorbers and relaxation."""
from c17 import *

BUILD = [("opt", ["qdrv"])]
PROPS = ["Cheby", "SIL", "Arnoldi", "GSPO", "RK4"]


@st.composite
def pcase(draw, props=PROPS, zmax=3, nonherm=False, fields=True):
    t = draw(st.sampled_from(props))
    k = draw(base(zmax, nonherm and t != "GSPO", fields).filter(lambda k: not (nonherm and t == "GSPO") or k["wf"]["k"] == "grid"))
    k["prop"] = dict(t=t)
    if t == "GSPO":
        k.pop("op"), k.pop("start", 0), k.pop("neig", 0)
        k["parts"] = draw(gparts(k["wf"], k["clock"], nonherm))
    k.pop("steps")
    k["style"] = "gauss"
    return k


def setup(case, imag=False):
    """Completes the parameters of the propagator; returns dt and the ranges."""
    r = Ranges(case)
    P = case["prop"]
    t = P["t"]
    dt = case["z"] / (r.N if t == "RK4" else max(r.R, 1e-2))
    if t == "GSPO":
        dt = min(1.0, dt)
    if t == "RK4":
        dt *= 0.4
    if t == "Cheby":
        cheby_range(case, r)
        P["prec"] = 1e-30
    if t in ("SIL", "Arnoldi"):
        P["order"] = 30
    return dt, r


def tolerance(p, case, dt, imag=False):
    t = case["prop"]["t"]
    if t == "Cheby":
        return 1e-6 if imag else 1e-8
    if t == "SIL":
        return 1e-8
    if t == "Arnoldi":
        return 5e-6
    if t == "RK4":
        return rk_tol(0.4 * case["z"])
    P = p.parts()
    b = gspo_bound(P, dt) * (2 if any("gobbler" in json.dumps(s) for s in case["parts"]) else 1)
    if imag:
        b *= np.exp(min(600, dt * sum(np.ptp(np.linalg.eigvalsh((M + M.conj().T) / 2)) for M in P)))
    return b + 1e-10


def gspo_scale(p, dt):
    """Largest growth of the separate factors in imaginary time."""
    return np.exp(-p.sign * dt * sum(np.linalg.eigvalsh((M + M.conj().T) / 2)[0 if p.sign > 0 else -1] for M in p.parts()))


def advance(p, case, ctx, dt, how, hist):
    c, t = p.c, case["prop"]["t"]
    v0 = p.v
    v = p.exact(v0)
    lim = tolerance(p, case, dt, p.imag)
    p.step(how)
    g = get(c, "psi")
    n0 = p.norm(v0)
    if p.imag and t == "Cheby":
        # only determined up to a positive factor
        e = p.norm(g / p.norm(g) - v / p.norm(v)) if p.norm(g) > 0 else float("inf")
        s = 1.0
    else:
        s = p.norm(v)
        if p.imag:
            M = p.H()
            w = np.linalg.eigvalsh((M + M.conj().T) / 2)
            x = (p.exponent() * w).real.max() if t != "GSPO" else (p.exponent() * sum(np.linalg.eigvalsh((X + X.conj().T) / 2)[0 if p.exponent().real < 0 else -1] for X in p.parts())).real
            s = n0 * float(np.exp(x))
        e = p.norm(g - v) / s if s > 0 else p.norm(g)
    if not e <= lim:
        ctx.fail(f"{t} after {hist} ({how}, clock {p.t}, {kind(case['wf'])}, {wf_size(case['wf'])} points, {brief(case.get('op') or case['parts'])[:300]}, dt={dt:.6g}): deviates from exp({p.exponent():.3g} H{'+' if p.sign < 0 else ''}) by {e:.3g} (allowed {lim:.3g})")
    # start of the next step
    n = p.norm(g)
    p.v = g
    if p.imag or n < 1e-3 or n > 1e3:
        p.v = g / n * case["norm"] if n > 0 else g
        put_again(c, p)


def put_again(c, p):
    new_wf(c, "tmp", p.wf)
    put(c, "tmp", p.wf, p.v)
    c("wf.assign", "psi", "tmp")


# ------------------------------------------------------------------ histories of switches
EV = ["F", "B", "B", "I", "R", "s", "s", "s", "S", "+", "-"]


@st.composite
def hist(draw, nonherm=False):
    k = draw(pcase([t for t in PROPS if t != "SIL"] if nonherm else PROPS, nonherm=nonherm))
    k["pre"] = draw(st.lists(st.sampled_from(EV[:4]), max_size=3))
    k["ev"] = draw(st.lists(st.sampled_from(EV), min_size=2, max_size=14))
    if k["prop"]["t"] == "Cheby":
        # real or imaginary time is chosen before the start
        k["ev"] = [e for e in k["ev"] if e not in "IR"] or ["s"]
        if "I" in k["pre"]:
            k["z"] = min(k["z"], 2.0)
    if nonherm and k["prop"]["t"] == "Cheby":
        k["pre"] = [e for e in k["pre"] if e not in "I"]
    return k


def event(p, c, e):
    if e == "F":
        c("u.forward", "U")
        p.sign = 1
    elif e == "B":
        c("u.backward", "U")
        p.sign = -1
    elif e == "I":
        c("u.imag", "U")
        p.imag = True
    elif e == "R":
        c("u.realtime", "U")
        p.imag = False
    elif e == "+" and p.t < 7 or e == "-" and p.t > 0:
        p.tick(1 if e == "+" else -1)


def run_hist(case, ctx):
    dt, r = setup(case)
    t = case["prop"]["t"]
    with ctx.srv().case() as c:
        p = Prop(ctx, c, case, dt)
        for e in case["pre"]:
            if e in "IR":
                event(p, c, e)
        p.init()
        for e in case["pre"]:
            if e in "FB":
                event(p, c, e)
        h = "".join(case["pre"]) + "/"
        ctx.label(t + (" imag" if "I" in case["pre"] + case["ev"] else "") + (" back" if "B" in case["pre"] + case["ev"] else ""))
        for e in case["ev"]:
            h += e
            if e in "sS":
                advance(p, case, ctx, dt, "inplace" if e == "s" else "copy", h)
            else:
                event(p, c, e)


def nt_hist(k):
    e = k["pre"] + k["ev"]
    return wf_size(k["wf"]) > 2 and any(x in "sS" for x in k["ev"]) and any(x in "BI" for x in e)


# ------------------------------------------------------------------ forth and back
@st.composite
def trip(draw):
    k = draw(pcase())
    k["fw"] = draw(st.integers(1, 7 if k["clock"] else 25))
    k["twice"] = draw(st.booleans())
    return k


def run_trip(case, ctx):
    dt, r = setup(case)
    t = case["prop"]["t"]
    n = case["fw"]
    ctx.label(t + (" field" if case["clock"] else ""))
    with ctx.srv().case() as c:
        p = Prop(ctx, c, case, dt)
        p.init()
        tol = {"Cheby": 1e-8, "SIL": 1e-8, "Arnoldi": 5e-6, "GSPO": 1e-10, "RK4": 2.2 * rk_tol(0.4 * case["z"])}[t] * n
        for rep in range(2 if case["twice"] else 1):
            c("u.forward", "U")
            for _ in range(n):
                c("op.inplace", "U", "psi")
                p.tick(1)
            c("u.backward", "U")
            for _ in range(n):
                p.tick(-1)
                c("op.inplace", "U", "psi")
            e = p.norm(get(c, "psi") - p.v) / p.norm(p.v)
            ctx.check(e <= tol * (rep + 1), f"{t}: {n} steps forward and backward ({kind(case['wf'])}, {brief(case.get('op') or case['parts'])[:300]}, dt={dt:.6g}{', field' if case['clock'] else ''}) change the wave function by {e:.3g}")


# ------------------------------------------------------------------ the adjoint of the Hamiltonian
@st.composite
def adj(draw):
    wf = draw(smallwf(2, 30))
    ck = draw(c14.clocks()) if draw(st.integers(0, 2)) == 0 else None
    # the perfectly matched layer uses its complex conjugate backward: an absorber again, not the adjoint; a kick is no part of a Hamiltonian,
    # and the chain rule form of the G-matrix operator is Hermitian only in the limit of a dense grid
    op = draw(tree(wf, 2, ck, None, draw(st.integers(0, 3)) == 0).filter(lambda s: not set(kinds_of(s)) & {"pml", "kick"} and '"chainrule": true' not in json.dumps(s)))
    return dict(wf=wf, clock=ck, op=op, plan=draw(plans), via=draw(st.sampled_from(["RK4", "RK4", "Arnoldi"])),
                acts=draw(st.lists(st.one_of(st.sampled_from(["F", "B", "B"]).map(lambda x: [x]), action(ck, ("apply", "inplace", "add", "twice"))), min_size=2, max_size=7)))


def run_adj(case, ctx):
    """After a switch the Hamiltonian inside the propagator acts as its adjoint, and as itself again after the next switch."""
    wf, spec = case["wf"], case["op"]
    dt, n = case["clock"] or (0.1, 4)
    with ctx.srv().case() as c:
        r = AdjRun.__new__(AdjRun)
        r.__dict__.update(ctx=ctx, c=c, wf=wf, spec=spec, tol=1e-11, oid="H", w=metric(wf), cache={}, k=0, ops=Ops(c, wf, (dt, n)), back=False)
        r.ops.keys = {}
        c(*gp_plan(case["plan"]))
        new_wf(c, "init", wf)
        put(c, "init", wf, amps(wf, 99))
        c("op.load", "U", f'<propagator name="{case["via"]}">{r.ops.xml(spec, "hamiltonian")}</propagator>')
        c("clock", float(dt), n, 0)
        c("op.clock", "U")
        c("op.init", "U", "init")
        c("u.ham", "U", "H")
        c("op.update", "H")
        for k in kinds_of(spec):
            ctx.label(k)
        for a in case["acts"]:
            if a[0] in "FB":
                r.back = a[0] == "B"
                c("u.backward" if r.back else "u.forward", "U")
            elif a[0] == "step":
                r.step(a[1])
            else:
                r.act(a)


class AdjRun(Run):
    def M(self):
        m, s = super().M()
        return (m.conj().T, max(s, np.abs(m).sum(axis=0).max())) if self.back else (m, s)


# ------------------------------------------------------------------ absorbers
def run_absorb(case, ctx):
    dt, r = setup(case)
    t = case["prop"]["t"]
    ctx.label(t + (" back" if case["back"] else ""))
    slack = {"Cheby": 1e-8, "SIL": 1e-8, "Arnoldi": 5e-6, "GSPO": 1e-10, "RK4": rk_tol(0.4 * case["z"])}[t]
    with ctx.srv().case() as c:
        p = Prop(ctx, c, case, dt)
        p.init()
        if case["back"]:
            c("u.backward", "U")
        n = p.norm(p.v)
        for i in range(case["fw"]):
            c("op.inplace", "U", "psi")
            p.tick(1)
            m = p.norm(get(c, "psi"))
            ctx.check(m <= n * (1 + slack), f"{t}: the norm grows from {n} to {m} in step {i + 1} with the absorbing Hamiltonian {brief(case.get('op') or case['parts'])[:300]}{' backward' if case['back'] else ''}")
            n = m


@st.composite
def absorb(draw):
    k = draw(pcase(["Cheby", "Arnoldi", "GSPO", "RK4"], nonherm=True))
    k["fw"] = draw(st.integers(2, 7 if k["clock"] else 20))
    k["back"] = draw(st.booleans())
    return k


# ------------------------------------------------------------------ relaxation
@st.composite
def relax(draw):
    k = draw(pcase(fields=False, zmax=2))
    k["fw"] = draw(st.integers(2, 25))
    return k


def run_relax(case, ctx):
    """The energy falls with every step towards the lowest state of the start vector."""
    dt, r = setup(case)
    t = case["prop"]["t"]
    ctx.label(t)
    if t == "GSPO":
        return relax_gspo(case, ctx)
    with ctx.srv().case() as c:
        p = Prop(ctx, c, case, dt)
        c("u.imag", "U")
        p.imag = True
        p.init()
        c("u.backward", "U")
        p.sign = -1
        H = p.H()
        m = np.broadcast_to(metric(case["wf"]), p.v.shape)
        g = p.v / p.norm(p.v)
        E = (g.conj() * (H @ g) * m).sum().real
        w, Z = np.linalg.eigh((H + H.conj().T) / 2)
        for i in range(case["fw"]):
            c("op.inplace", "U", "psi")
            g = get(c, "psi")
            ng = p.norm(g)
            ctx.check(0 < ng < 1e300, f"{t}: norm {ng} after {i + 1} steps of relaxation")
            if not 0 < ng < 1e300:
                return
            g = g / ng
            e = (g.conj() * (H @ g) * m).sum().real
            ctx.check(e <= E + 1e-6 * max(r.N, 1e-3), f"{t}: energy rises from {E} to {e} in imaginary time step {i + 1}")
            E = e
            p.v = g
            put_again(c, p)
        ctx.check(e >= w[0] - 1e-8 * max(r.N, 1e-3), f"{t}: relaxed energy {e} below the lowest eigenvalue {w[0]}")


def relax_gspo(case, ctx):
    """Halving the step divides the error by about four: second order."""
    o = Ops(Dry(), case["wf"], (1.0, case["n"]))
    o.keys, o.t = {}, 0
    P = [o.mat(s) for s in case["parts"]]
    H = sum(P)
    T = 0.3 / max(np.linalg.norm(M - np.trace(M) / len(M) * np.eye(len(M)), 2) for M in P + [H])
    T = min(T, 1.0)
    err = []
    for n in (2, 4, 8):
        with ctx.srv().case() as c:
            q = Prop(ctx, c, case, T / n)
            c("u.imag", "U")
            q.init()
            c("u.backward", "U")
            for _ in range(n):
                c("op.inplace", "U", "psi")
            v = sla.expm(-T * H) @ q.v
            err.append(q.norm(get(c, "psi") - v) / max(q.norm(v), 1e-300))
    for a, b in zip(err, err[1:]):
        ctx.check(b <= a / 2 ** 1.3 + 1e-11, f"GSPO: errors {err} for 2, 4 and 8 imaginary time steps over T={T:.4g}: not of second order")


SUBS = [
    Sub("history", hist(), run_hist, (420, 9000), nt_hist, "a step after a switch of direction or to imaginary time, more than two basis functions"),
    Sub("history-nonherm", hist(True), run_hist, (220, 5000), nt_hist, "a step after a switch of direction or to imaginary time, more than two basis functions"),
    Sub("adjoint", adj(), run_adj, (300, 6000), lambda k: any(a[0] == "B" for a in k["acts"]) and any(a[0] not in "FB" for a in k["acts"]), "an application after a switch to backward"),
    Sub("roundtrip", trip(), run_trip, (220, 5000), big, "more than two basis functions"),
    Sub("absorb", absorb(), run_absorb, (160, 3000), big, "more than two basis functions"),
    Sub("relax", relax(), run_relax, (120, 2500), big, "more than two basis functions"),
]
