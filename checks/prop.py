"""Propagators against matrix exponentials of the dense Hamiltonian."""
import scipy.linalg as sla
from optree import *

rate = st.one_of(flt(0.01, 3), st.sampled_from([0.1, 1.0]))


def ffield():
    return c14.laser().filter(lambda l: l["k"] == "file")


@st.composite
def kinetic(draw, dims):
    if draw(st.integers(0, 3)) == 0:
        # positive masses, weak kinetic coupling
        el = []
        for i in range(len(dims)):
            for j in range(i + 1):
                el.append({"c": draw(flt(0.3, 2.0))} if i == j else {"c": draw(flt(-0.2, 0.2))})
        return dict(t="gmat", el=el)
    return dict(t="nablasq", mass=[draw(flt(0.3, 5)) for _ in dims])


def smoothpot(amp=3.0):
    return st.builds(lambda s, a, o: dict(t="pot", v=dict(k=s[0], seed=s[1], amp=a, off=o)), st.tuples(st.sampled_from(["smooth", "noise"]), seeds), flt(0.1, amp), st.one_of(st.just(0.0), flt(-5, 5)))


@st.composite
def one_ham(draw, wf, ck=None, nonherm=False):
    """Hamiltonian of a single state."""
    if wf["k"] == "level":
        m = [dict(t="hermmat", seed=draw(seeds), amp=draw(st.sampled_from([0.1, 1.0, 5.0])))]
        if ck and draw(st.integers(0, 3)):
            m.append(dict(t="matdipole", seed=draw(seeds), amp=1.0, laser=draw(ffield()), scale=draw(st.one_of(st.none(), flt(-2, 2)))))
    else:
        d = wf["dims"]
        m = [draw(kinetic(d))]
        if draw(st.integers(0, 4)):
            m.append(draw(smoothpot()))
        if draw(st.integers(0, 4)) == 0:
            m.append(dict(t="position", dim=draw(st.integers(0, len(d) - 1)), scale=draw(flt(-1, 1))))
        if ck and draw(st.integers(0, 3)):
            m.append(dict(draw(smoothpot()), t="dipole", laser=draw(ffield())))
    if nonherm:
        m.append(dict(t="scalar", value=0.0, im=-draw(flt(0.01, 1))) if wf["k"] == "level" or draw(st.booleans()) else draw(c14.s_gobbler(wf["dims"]).filter(lambda s: s.get("nip"))))
    m = list(draw(st.permutations(m)))
    return m[0] if len(m) == 1 and draw(st.booleans()) else dict(t="sum", m=m)


@st.composite
def ham(draw, wf, ck=None, nonherm=False):
    if wf["k"] != "multi":
        return draw(one_ham(wf, ck, nonherm))
    n, w = len(wf["states"]), wf["states"][0]
    el = [[i, i, draw(one_ham(w, ck, nonherm))] for i in range(n)]
    both = bool(nonherm)
    for i in range(n):
        for j in range(i):
            if draw(st.integers(0, 2)):
                if w["k"] == "level":
                    o = dict(t="hermmat", seed=draw(seeds), amp=draw(flt(0.05, 1)))
                else:
                    o = draw(smoothpot(0.5))
                    if ck and draw(st.booleans()):
                        o = dict(o, t="dipole", laser=draw(ffield()))
                a, b = (i, j) if draw(st.booleans()) else (j, i)
                el.append([a, b, o])
                if both:
                    el.append([b, a, o])
    s = dict(t="multistate", states=n, el=list(draw(st.permutations(el))), unity=False)
    if nonherm:
        s["nonhermitian"] = True
    return s


@st.composite
def pwf(draw, multi=3, maxpts=24):
    if draw(st.integers(0, 2)) == 0:
        s = {"k": "level", "n": draw(st.integers(2, 10))}
    else:
        s = {"k": "grid", "dims": draw(grids(2, maxpts, 3, 16))}
        s["dims"] = [[n, a, a + min(max(b - a, 0.4 * n), 1.5 * n)] for n, a, b in s["dims"]]
    if multi and draw(st.integers(0, multi - 1)) == 0:
        return {"k": "multi", "states": [s] * draw(st.integers(1, 3))}
    return s


class Prop:
    """A propagator loaded from input text with its exact reference."""
    def __init__(self, ctx, c, case, dt, srv_init=True):
        self.ctx, self.c, self.case = ctx, c, case
        wf = self.wf = case["wf"]
        c(*gp_plan(case.get("plan") or "estimate"))
        self.ops = Ops(c, wf, (dt, case["n"]))
        self.ops.keys = {}
        self.dt = dt
        p = case["prop"]
        a = "".join(f' {k}="{g17(v) if isinstance(v, float) else v}"' for k, v in p.items() if k != "t")
        if p["t"] == "GSPO":
            body = "".join(self.ops.xml(s, "ABCDEF"[i]) for i, s in enumerate(case["parts"]))
        else:
            body = self.ops.xml(case["op"], "hamiltonian")
        new_wf(c, "psi", wf)
        self.v = amps(wf, case["seed"], case["style"])
        if case.get("start") == "eig":
            # (a row of) eigenvectors: the search space of the Krylov methods is exhausted at once
            o = Ops(Dry(), wf, (dt, case["n"]))
            o.keys, o.t = {}, 0
            M = o.mat(case["op"])
            w, Z = np.linalg.eigh((M + M.conj().T) / 2)
            self.v = Z[:, [(case["seed"] + 3 * q) % len(w) for q in range(case.get("neig", 1))]].sum(1)
        self.v = self.v * (case.get("norm") or 1.0) / max(self.norm(self.v), 1e-300)
        put(c, "psi", wf, self.v)
        self.text = f'<propagator name="{p["t"]}"{a}>{body}</propagator>'
        c("op.load", "U", self.text)
        c("clock", float(dt), case["n"], 0)
        c("op.clock", "U")
        self.sign, self.imag = 1, False
        self.t = 0

    def init(self):
        c = self.c
        c("op.init", "U", "psi")
        c("u.ham", "U", "H")
        c("op.update", "H")

    def norm(self, v):
        return float(np.sqrt((np.abs(v) ** 2 * np.broadcast_to(metric(self.wf), v.shape)).sum()))

    def H(self):
        """Backward propagation uses the adjoint."""
        if "parts" in self.case:
            return sum(self.parts())
        self.ops.t = self.t
        M = self.ops.mat(self.case["op"])
        return M.conj().T if self.sign < 0 else M

    def parts(self):
        self.ops.t = self.t
        P = [self.ops.mat(s) for s in self.case["parts"]]
        return [M.conj().T for M in P] if self.sign < 0 else P

    def exponent(self):
        """Forward real time -i dt; backward takes the opposite sign; in imaginary time the forward direction is +dt (backward relaxes)."""
        e = self.dt if self.imag else -1j * self.dt
        return e * self.sign

    def exact(self, v):
        """One step."""
        e = self.exponent()
        return sla.expm(e * self.H()) @ v

    def step(self, how="inplace"):
        c = self.c
        if how == "inplace":
            c("op.inplace", "U", "psi")
        else:
            new_wf(c, "dst", self.wf)
            put(c, "dst", self.wf, amps(self.wf, 4711))
            before = get(c, "psi")
            c("op.apply", "U", "dst", "psi")
            self.ctx.check(same_bits(get(c, "psi"), before), f"{self.case['prop']['t']}: a step into another wave function changes the wave function it starts from")
            c("wf.assign", "psi", "dst")

    def goto(self, t):
        self.c("clock.step", t)
        self.t = self.ops.t = t

    def tick(self, d=1):
        self.c("clock.inc" if d > 0 else "clock.dec")
        self.t += d
        self.ops.t = self.t


class Dry:
    """Stands in for the program where only the reference is needed."""
    def __call__(self, *a):
        return []


def spectra(case, dt=1.0):
    """Dense Hamiltonians at every step."""
    o = Ops(Dry(), case["wf"], (dt, case["n"]))
    o.keys = {}
    r = []
    for t in range(case["n"] if case.get("clock") else 1):
        o.t = t
        r.append(o.mat(case["op"]) if "op" in case else sum(o.mat(s) for s in case["parts"]))
    return r


class Ranges:
    """Eigenvalue ranges over all steps: real part [lo, hi], imaginary part [wlo, whi], half width R, norm N."""
    def __init__(self, case):
        Ms = spectra(case)
        self.Ms = Ms
        Hr = [np.linalg.eigvalsh((M + M.conj().T) / 2) for M in Ms]
        Hi = [np.linalg.eigvalsh((M - M.conj().T) / 2j) for M in Ms]
        self.lo, self.hi = min(e[0] for e in Hr), max(e[-1] for e in Hr)
        self.wlo, self.whi = min(e[0] for e in Hi), max(e[-1] for e in Hi)
        self.R = max((self.hi - self.lo) / 2, -self.wlo, 1e-3)
        self.N = max(np.linalg.norm(M, 2) for M in Ms)
        self.aherm = max(np.abs(M - M.conj().T).max() for M in Ms)


def strang(A, B, x):
    """Bound of |e^{-ixB/2} e^{-ixA} e^{-ixB/2} - e^{-ix(A+B)}| for Hermitian A, B."""
    def com(X, Y):
        return X @ Y - Y @ X
    c = com(B, A)
    return x ** 3 * (np.linalg.norm(com(B, c), 2) / 24 + np.linalg.norm(com(A, c), 2) / 12)


def gspo_bound(parts, dt):
    """Second order: the error of one step is bounded by double commutators."""
    b, S = 0.0, parts[0]
    for P in parts[1:]:
        # either way round
        b += max(strang(S, P, dt), strang(P, S, dt)) * 2
        S = S + P
    return b
