"""C12: <a|O b> = conj(<b|O a>), reality of expectation values, the reported Hermitian flag and the announced eigenvalue range against the eigenvalues of the program's own operator (its matrix collected column by column)."""
from optree import *
from runner import Sub

BUILD = [("opt", ["qdrv"])]


@st.composite
def gpos(draw, dims):
    """G-matrix of a kinetic energy: positive definite everywhere."""
    n = len(dims)
    el = []
    for i in range(n):
        for j in range(i + 1):
            m = draw(st.integers(0, 2))
            if i == j:
                el.append({"g": draw(seeds), "pos": 1} if m == 0 else {"c": draw(flt(0.3, 3))})
            else:
                el.append({"c": draw(flt(-0.1, 0.1))} if m else {"x": 1})
    s = dict(t="gmat", el=el)
    if draw(st.booleans()):
        s["coup"] = draw(st.booleans())
    if draw(st.integers(0, 5)) == 0:
        s.update(method="HOFD", order=draw(fdorder(dims)), pbc=draw(st.booleans()))
    return s


@st.composite
def hleaf(draw, wf, ck=None, kinetic=False):
    if wf["k"] == "grid":
        d = wf["dims"]
        l = [nsq(d), gpos(d)] if kinetic else [nsq(d), nsq(d), gpos(d), c14.s_pot(d), c14.s_pot(d), c14.s_position(d)] + ([noscale(c14.s_dipole(d)), noscale(c14.s_raman(d))] if ck else [])
        s = draw(st.one_of(l))
        if s["t"] == "nablasq" and all(m <= 0 for m in s["mass"]):
            s["mass"][0] = 1.0
        return s
    m = c14.s_mat()
    return draw(m)


@st.composite
def htree(draw, wf, depth, ck):
    if wf["k"] == "multi":
        n, w = len(wf["states"]), wf["states"][0]
        s = dict(t="multistate", unity=draw(st.sampled_from([None, True, False])), states=n, el=[])
        for i in range(n):
            if draw(st.integers(0, 3)):
                s["el"].append([i, i, draw(htree(w, depth - 1, ck))])
            for j in range(i):
                if draw(st.integers(0, 1)):
                    a, b = (i, j) if draw(st.booleans()) else (j, i)
                    s["el"].append([a, b, draw(htree(w, depth - 1, ck))])
        if w["k"] == "grid" and n > 1 and draw(st.integers(0, 2)) == 0:
            # non-adiabatic coupling: both elements given, with opposite signs
            s["nonhermitian"] = True
            s["el"] = [e for e in s["el"] if e[0] == e[1]]
            for i in range(n):
                for j in range(i):
                    if draw(st.booleans()):
                        q = draw(nac(w["dims"]))
                        s["el"] += [[i, j, dict(q, sign=1)], [j, i, dict(q, sign=-1)]]
        if not s["el"]:
            s["el"].append([0, 0, draw(hleaf(w, ck))])
        if depth > 0 and draw(st.integers(0, 4)) == 0:
            s = dict(t="sum", m=[s, draw(htree(wf, 0, ck))])
        return s
    if depth > 0 and draw(st.integers(0, 1)):
        if wf["k"] == "grid" and draw(st.integers(0, 3)) == 0:
            return dict(t="gridsum", m=[draw(c14.s_pot(wf["dims"])) for _ in range(draw(st.integers(1, 4)))])
        return dict(t="sum", m=[draw(htree(wf, depth - 1, ck)) for _ in range(draw(st.integers(1, 4)))])
    return draw(hleaf(wf, ck))


@st.composite
def hcase(draw):
    wf = draw(smallwf(2, 24))
    ck = draw(c14.clocks()) if draw(st.integers(0, 2)) == 0 else None
    return dict(wf=wf, clock=ck, op=draw(htree(wf, 2, ck)), t=draw(st.integers(0, 7)), a=draw(seeds), b=draw(seeds))


def collect(c, wf, op="O"):
    """Matrix of the loaded operator, column by column."""
    n = wf_size(wf)
    new_wf(c, "e", wf)
    new_wf(c, "Oe", wf)
    M = np.zeros((n, n), complex)
    for k in range(n):
        v = np.zeros(n, complex)
        v[k] = 1
        put(c, "e", wf, v)
        c("op.apply", op, "Oe", "e")
        M[:, k] = get(c, "Oe")
    return M


def run_herm(case, ctx):
    wf, op = case["wf"], case["op"]
    for k in kinds_of(op):
        ctx.label(k)
    with ctx.srv().case() as c:
        r = Run(ctx, c, wf, op, None, case["clock"])
        if case["clock"]:
            r.step(case["t"])
        _, nrm = r.M()
        what = f"{brief(op)} on {kind(wf)}"
        na, a = r.vec(case["a"])
        nb, b = r.vec(case["b"])
        ab, ba, aa = [cplx(c("op.matel", "O", x, y)[0]) for x, y in ((na, nb), (nb, na), (na, na))]
        sc = 1e-11 * nrm * np.abs(a).max() * np.abs(b).max() * r.w.sum() + 1e-290
        ctx.check(abs(ab - ba.conjugate()) <= sc, f"{what}: <a|Ob> = {ab} but conj(<b|Oa>) = {ba.conjugate()}")
        ctx.check(abs(aa.imag) <= 1e-11 * nrm * np.abs(a).max() ** 2 * r.w.sum() + 1e-290, f"{what}: expectation value {aa} is not real")
        ctx.check(int(c("op.flags", "O")[0]) == 1, f"{what}: says that it is not Hermitian")
        M = collect(c, wf)
        ev = np.linalg.eigvalsh((M + M.conj().T) / 2)
        lo, hi = cplx(c("op.emin", "O")[0]), cplx(c("op.emax", "O")[0])
        tol = 1e-10 * nrm + 1e-290
        if "dipole" in kinds_of(op):
            return          # see the sub-check on field coupled operators
        ctx.check(abs(lo.imag) <= tol and abs(hi.imag) <= tol, f"{what}: complex range {lo} .. {hi}")
        if not (lo.real <= ev[0] + tol and hi.real >= ev[-1] - tol):
            known = None
            if op["t"] == "multistate" and multi_alt(c, op, lo.real, hi.real, tol):
                known = "multistate-coupling-bounds"
            elif op["t"] == "sum" and wf["k"] == "multi":
                c("op.member", "S0", "O", 0)
                c("op.member", "S1", "O", 1)
                k = [x for x in range(2) if op["m"][x]["t"] == "multistate"]
                if any(multi_alt(c, op["m"][x], cplx(c("op.emin", f"S{x}")[0]).real, cplx(c("op.emax", f"S{x}")[0]).real, tol, f"S{x}") for x in k):
                    known = "multistate-coupling-bounds"
            ctx.fail(f"{what}: eigenvalues {ev[0]:.12g} .. {ev[-1]:.12g} outside the announced range {lo.real:.12g} .. {hi.real:.12g}", known)


def multi_alt(c, s, lo, hi, tol, oid="O"):
    """Does the listed finding apply: couplings or unit diagonals, and exactly the eigenvalues of |E| of the blocks?"""
    n = s["states"]
    coup = any(i != j for i, j, _ in s["el"])
    if not coup and not (s["unity"] and len(s["el"]) < n):
        return False
    out = []
    for cmd in ("op.emin", "op.emax"):
        A = np.zeros((n, n))
        for i, j, o in s["el"]:
            c("op.state", "el", oid, i, j)
            x = cplx(c(cmd, "el")[0])
            A[i, j] = x.real if i == j else abs(x)
            if i != j and not s.get("nonhermitian"):
                A[j, i] = A[i, j]
        out.append(np.linalg.eigvalsh(A))
    return abs(out[0][0] - lo) <= tol and abs(out[1][-1] - hi) <= tol


# ------------------------------------------------------------------ kinetic energy at the grid limit
@st.composite
def kin(draw):
    dims = draw(grids(3, 120, 2, 30))
    return dict(wf={"k": "grid", "dims": dims}, clock=None, op=draw(hleaf({"k": "grid", "dims": dims}, None, True)), t=0, a=draw(seeds), b=draw(seeds))


# ------------------------------------------------------------------ the Hermitian flag of absorbing operators
@st.composite
def absorb(draw):
    dims = draw(grids(2, 30, 2, 16))
    g = {"k": "grid", "dims": dims}
    m = draw(st.sampled_from(["nip", "pml", "scalar"]))
    if m == "nip":
        o = dict(draw(c14.s_gobbler(dims)), nip=True)
    elif m == "pml":
        o = draw(pml(dims))
    else:
        o = dict(t="scalar", value=draw(flt(-2, 2)), im=draw(flt(0.1, 2)))
    wf = g
    for _ in range(draw(st.integers(0, 3))):
        w = draw(st.sampled_from(["sum", "sum", "product", "multistate"]))
        if w == "sum":
            oth = draw(htree(wf, 1, None))
            o = dict(t="sum", m=[o, oth] if draw(st.booleans()) else [oth, o])
        elif w == "product":
            o = dict(t="product", m=[dict(t="scalar", value=2.0), o])
        elif wf["k"] == "grid":
            n = draw(st.integers(1, 3))
            i = draw(st.integers(0, n - 1))
            o = dict(t="multistate", unity=True, states=n, el=[[i, i, o]] + [[j, j, draw(hleaf(wf))] for j in range(n) if j != i and draw(st.booleans())])
            wf = {"k": "multi", "states": [g] * n}
    return dict(wf=wf, op=o)


def run_absorb(case, ctx):
    with ctx.srv().case() as c:
        Run(ctx, c, case["wf"], case["op"])
        ctx.check(int(c("op.flags", "O")[0]) == 0, f"{brief(case['op'])}: says that it is Hermitian")


# ------------------------------------------------------------------ field coupled operators
@st.composite
def fdip(draw):
    ck = draw(c14.clocks())
    if draw(st.booleans()):
        wf = {"k": "level", "n": draw(st.integers(1, 8))}
        s = draw(c14.s_mat())
        s.update(t="matdipole", laser=draw(c14.laser()))
    else:
        wf = {"k": "grid", "dims": draw(grids(2, 40, 2, 16))}
        s = draw(st.one_of(noscale(c14.s_dipole(wf["dims"])), noscale(c14.s_raman(wf["dims"]))))
    return dict(wf=wf, op=s, clock=ck)


def run_fdip(case, ctx):
    wf, op = case["wf"], case["op"]
    ctx.label(op["t"])
    with ctx.srv().case() as c:
        r = Run(ctx, c, wf, op, None, case["clock"])
        if op["t"] == "raman":
            l = op["lasers"]
            Es = [r.ops.field(l[0]), r.ops.field(l[-1])]
            E = 0.5 * Es[0][:case["clock"][1]] * Es[1][:case["clock"][1]]
        else:
            E = r.ops.field(op["laser"])
        ev = np.linalg.eigvalsh(r.ops.hmval(op)) if op["t"] == "matdipole" else np.sort(r.ops.potval(op))
        es = E[:case["clock"][1]]
        hi, lo = np.outer(-es, ev).max(), np.outer(-es, ev).min()
        l, h = cplx(c("op.emin", "O")[0]), cplx(c("op.emax", "O")[0])
        tol = 1e-10 * np.abs(ev).max() * np.abs(E).max() + 1e-290
        if not (l.real <= lo + tol and h.real >= hi - tol):
            known = None
            if abs(h - ev[-1] * E.max()) <= tol:
                if op["t"] == "matdipole" and abs(l - ev[0] * E.min()) <= tol:
                    known = "matdipole-bounds"
                elif op["t"] == "dipole" and l == 0:
                    known = "dipole-bounds"
            ctx.fail(f"{op['t']}: eigenvalues up to {hi:.8g} and down to {lo:.8g} outside the announced range {l} .. {h}", known)


SUBS = [
    Sub("hermitian", hcase(), run_herm, (300, 5000), lambda k: wf_size(k["wf"]) > 1, "more than one amplitude"),
    Sub("kinetic", kin(), run_herm, (100, 2000), None, "every case"),
    Sub("absorbing", absorb(), run_absorb, (100, 1500), None, "every case"),
    Sub("field", fdip(), run_fdip, (80, 1000), lambda k: wf_size(k["wf"]) > 1, "more than one amplitude",
        fixed=[dict(wf={"k": "level", "n": 2}, clock=[1.0, 8], op=dict(t="matdipole", seed=1, laser=dict(k="file", seed=3, amp=1.0))),
               dict(wf={"k": "grid", "dims": [[5, -1.0, 1.0]]}, clock=[1.0, 8], op=dict(t="dipole", v=dict(k="noise", seed=1), laser=dict(k="file", seed=3, amp=1.0)))]),
]
