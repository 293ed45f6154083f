"""C23: generated optimal control runs (Krotov, Rabitz, feedback and frequency-restricted iterations; overlap, phase sensitive, moving and operator targets, several targets and fields, absorber) compared with dense propagations in the fields the run writes: every reported norm, yield, phase, objective and pulse energy, the field of every iteration, the final field and a propagation with it, the minimum gain per iteration the theory guarantees; invalid set-ups."""
import filt
import scipy.linalg as sla
from c19 import *
from c19 import write_init

BUILD = [("opt", ["qdrv", "qdng"])]
BUDGET = 150


class OOps(Ops):
    """Operators with given values of the fields."""
    ev = {}

    def E(self, L):
        return self.top.ev[L["q"]]

    def _lab(self, s, x):
        return x.replace(" name=", ' label="OptLaser" name=', 1) if s.get("label") else x

    def x_dipole(self, s, tag):
        return self._lab(s, Ops.x_dipole(self, s, tag))

    def x_matdipole(self, s, tag):
        return self._lab(s, Ops.x_matdipole(self, s, tag))


def vals(L):
    return np.random.RandomState(L["seed"] & 0x7FFFFFFF).standard_normal


# ------------------------------------------------------------------ set-ups
@st.composite
def guess(draw, q):
    return dict(k="file", q=q, seed=draw(seeds), amp=draw(st.sampled_from([0.0, 0.05, 0.5, 1.0])), extra=draw(st.sampled_from([0, 0, 0, 3])))


def dip(draw, wf, L):
    if wf["k"] == "level":
        return dict(t="matdipole", seed=draw(seeds), amp=1.0, laser=L)
    return dict(draw(smoothpot(1.0)), t="dipole", laser=L)


@st.composite
def system(draw, maxpts=12, gspo=True):
    if draw(st.integers(0, 1)):
        s = {"k": "level", "n": draw(st.integers(2, 6))}
    else:
        n = draw(st.integers(4, maxpts))
        w = draw(flt(0.3, 0.7)) * n
        s = {"k": "grid", "dims": [[n, -w / 2, w / 2]]}
    n = draw(st.integers(2, 3)) if draw(st.integers(0, 2)) == 0 else 0
    wf = {"k": "multi", "states": [s] * n} if n else s
    k = dict(wf=wf, seed=draw(seeds), style="gauss", clock=True)
    L = draw(guess(0))
    fixed = draw(guess(1)) if draw(st.integers(0, 3)) == 0 else None
    lab = dict(label=True) if fixed else {}
    if not n:
        if s["k"] == "level":
            m = [dict(t="hermmat", seed=draw(seeds), amp=1.0)]
        else:
            m = [dict(t="nablasq", mass=[draw(flt(0.5, 4))]), draw(smoothpot(1.0))]
        if gspo and s["k"] == "grid" and draw(st.integers(0, 2)) == 0:
            k["parts"] = m + [dict(dip(draw, s, L), **lab)] + ([dip(draw, s, fixed)] if fixed else [])
            k["prop"] = dict(t="GSPO")
            return k
        m += [dict(dip(draw, s, L), **lab) for _ in range(draw(st.sampled_from([1, 1, 2])))]
        if fixed:
            m.append(dip(draw, s, fixed))
        k["op"] = dict(t="sum", m=list(draw(st.permutations(m))))
    else:
        el = []
        for i in range(n):
            h = [dict(t="hermmat", seed=draw(seeds), amp=1.0)] if s["k"] == "level" else [dict(t="nablasq", mass=[draw(flt(0.5, 4))]), draw(smoothpot(1.0))]
            if draw(st.integers(0, 3)) == 0:
                h.append(dict(dip(draw, s, L), **lab))          # permanent dipole moment
            el.append([i, i, h[0] if len(h) == 1 else dict(t="sum", m=h)])
        pairs = [(i, j) for i in range(n) for j in range(i)]
        on = draw(st.lists(st.sampled_from(pairs), min_size=1, unique=True))
        for i, j in on:
            d = dict(dip(draw, s, L), **lab)
            x = draw(st.integers(0, 3))
            if x == 0:
                d = dict(t="sum", m=[d, dict(t="hermmat", seed=draw(seeds), amp=0.3) if s["k"] == "level" else draw(smoothpot(0.3))])
            elif x == 1 and fixed:
                d = dict(t="sum", m=[dip(draw, s, fixed), d])
            el.append([i, j, d] if draw(st.booleans()) else [j, i, d])
        k["op"] = dict(t="multistate", states=n, el=list(draw(st.permutations(el))), unity=False)
    k["prop"] = dict(t=draw(st.sampled_from(["Cheby", "SIL", "Arnoldi"])))
    return k


opts = dict(dir=st.sampled_from([None, "out", "a/b/"]), odir=st.sampled_from([None, None, None, "over"]), fname=st.sampled_from([None, None, "field", "a.b"]), fmt=st.sampled_from(["binary", "stream"]), lim=st.sampled_from([None, None, 4, 7]))


@st.composite
def shapes(draw):
    return dict(kind=draw(st.sampled_from(["sin2", "random", "random", "zeros", "ones"])), seed=draw(seeds))


def shape_of(k):
    n = k["n"]
    s, r = k["shape"], np.random.RandomState(k["shape"]["seed"] & 0x7FFFFFFF)
    if s["kind"] == "sin2":
        return np.sin(np.pi * (np.arange(n) + 0.5) / n) ** 2
    if s["kind"] == "ones":
        return np.ones(n)
    v = r.uniform(0, 1.5, n)
    if s["kind"] == "zeros":
        v[r.uniform(0, 1, n) < 0.4] = 0
    return v


@st.composite
def setup_(draw, methods=("krotov", "krotov", "rabitz", "rabitzfb", "freq")):
    k = draw(system())
    k["method"] = draw(st.sampled_from(methods))
    k["n"] = draw(st.one_of(st.integers(2, 10), st.integers(2, 40)))
    k["z"] = draw(flt(0.05, 1.0))
    k["ttype"] = draw(st.sampled_from(["overlap", "overlap", "operator"]))
    k["phase"] = draw(st.booleans())
    k["ntargets"] = draw(st.sampled_from([1, 1, 1, 2, 3]))
    k["iterations"] = draw(st.integers(1, 5))
    k["conv"] = draw(st.sampled_from([None, 0.0, 0.0, 1e-2, 0.5]))
    k["strength"] = draw(st.sampled_from([0.01, 0.1, 0.5, 1.0]))
    k["negalpha"] = draw(st.integers(0, 9)) == 0
    k["shape"] = draw(shapes())
    k["norms"] = [draw(st.sampled_from([1.0, 1.0, 1.0, 0.7])) for _ in range(6)]
    if k["ttype"] == "operator":
        k["targets"] = [draw(filt.measured(k["wf"], None, None, 1)) for _ in range(k["ntargets"])]
    elif k["method"] in ("krotov", "rabitz") and draw(st.integers(0, 4)) == 0:
        k["mv"] = True
    if k["wf"]["k"] == "grid" and draw(st.integers(0, 4)) == 0:
        k["gobbler"] = draw(c14.s_gobbler(k["wf"]["dims"]).filter(lambda s: not s.get("nip") and "gain" not in s))
    if k["method"] == "freq":
        k["mask"] = draw(st.sampled_from(["file", "low", "high", "band"]))
        k["cut"] = [draw(flt(0.05, 0.45)), draw(flt(0.5, 0.95))]
        k["mseed"] = draw(seeds)
    k["yfile"] = draw(st.sampled_from([None, None, None, "yield.tab"]))
    k["writel"] = draw(st.sampled_from([True, True, True, False]))
    k["again"] = draw(st.integers(0, 3)) == 0
    k.update({a: draw(s) for a, s in opts.items()})
    return k


class Oct:
    """The system of a run with its dense reference."""
    def __init__(self, ctx, c, k):
        self.c, self.k = c, k
        wf = self.wf = k["wf"]
        self.n = k["n"]
        self.w = metric(wf)
        dry = OOps(Dry(), wf, (1.0, self.n))
        dry.keys = {}
        self.nparts(dry)
        # fields are written with the time step, which follows from the Hamiltonians in them
        self.guess = dry.field(self.laser(0))
        f1 = self.laser(1)
        self.fix = dry.field(f1) if f1 else np.zeros(self.n)
        self.shape = shape_of(k)
        mu = max(np.linalg.norm(self.mu, 2), 1e-3)
        self.fmax = np.abs(self.guess).max() + 4.0
        H = [self.H0 - f * self.muf for f in self.fix[:self.n]]
        ev = [np.linalg.eigvalsh((h + h.conj().T) / 2) for h in H]
        self.lo, self.hi = min(e[0] for e in ev) - self.fmax * mu, max(e[-1] for e in ev) + self.fmax * mu
        self.R = (self.hi - self.lo) / 2
        self.dt = k["z"] / self.R
        self.targets = [self.opmat(s) for s in k.get("targets", [])]
        big = max([1.0] + [np.linalg.norm(T, 2) ** (1 if k["phase"] else 2) for T in self.targets])
        self.alpha = max(self.shape.max(), 1e-3) * mu * big / k["strength"] * (-1 if k["negalpha"] else 1)
        P = k["prop"]
        if P["t"] == "Cheby":
            P.update(Emax=float(self.hi + 0.05 * self.R), Emin=float(self.lo - 0.05 * self.R), prec=1e-30)
        elif P["t"] in ("SIL", "Arnoldi"):
            P["order"] = 30
        self.ops = OOps(c, wf, (self.dt, self.n))
        self.ops.keys = {}
        self.gob = self.opmat(k["gobbler"]) if "gobbler" in k else None

    def opmat(self, s):
        o = OOps(Dry(), self.wf, (1.0, self.n))
        o.keys = {}
        return o.mat(s)

    def laser(self, q):
        def find(x):
            if isinstance(x, dict):
                if "laser" in x:
                    return x["laser"] if x["laser"]["q"] == q else None
                x = list(x.values())
            if isinstance(x, list):
                for y in x:
                    r = find(y)
                    if r:
                        return r
        return find(self.k.get("op") or self.k["parts"])

    def nparts(self, o):
        """H = H0 - E mu - F muf, or the same for the parts of a split propagator."""
        def at(e, f):
            o.ev = {0: e, 1: f}
            return [o.mat(s) for s in self.k["parts"]] if "parts" in self.k else [o.mat(self.k["op"])]
        self.P0 = at(0.0, 0.0)
        self.Pm = [a - b for a, b in zip(self.P0, at(1.0, 0.0))]
        self.Pf = [a - b for a, b in zip(self.P0, at(0.0, 1.0))]
        self.H0, self.mu, self.muf = sum(self.P0), sum(self.Pm), sum(self.Pf)

    def U(self, E, s, back=False):
        """One step in the field E."""
        x = 1j * self.dt if back else -1j * self.dt
        P = [a - E * b - self.fix[s] * d for a, b, d in zip(self.P0, self.Pm, self.Pf)]
        if len(P) == 1:
            return sla.expm(x * P[0])
        M = sla.expm(x * P[0])
        for p in P[1:]:
            h = sla.expm(x / 2 * p)
            M = h @ M @ h
        return M

    def step(self, v, E, s, back=False):
        v = self.U(E, s, back) @ v
        if self.gob is not None:
            v = self.gob @ v
            v = v / self.norm(v)
        return v

    def norm(self, v):
        return float(np.sqrt((self.w * np.abs(v) ** 2).sum()))

    def dot(self, a, b):
        return np.vdot(a, self.w * b)

    def forward(self, v, E):
        out = [v]
        for s in range(self.n):
            out.append(self.step(out[-1], E[s], s))
        return out

    def backward(self, v, E):
        out = [v]
        for s in range(self.n - 1, -1, -1):
            out.append(self.step(out[-1], E[s], s, True))
        return out[::-1]

    def corr(self, phi, chi):
        r = 0.0
        for p, x in zip(phi, chi):
            z = self.dot(x, self.mu @ p)
            r += (z if self.k["phase"] else self.dot(p, x) * z).imag
        return r

    def states(self):
        k = self.k
        r = []
        for q in range(2 * k["ntargets"]):
            v = amps(self.wf, k["seed"] + 11 * q, k["style"])
            r.append(v * k["norms"][q] / self.norm(v))
        return r[:k["ntargets"]], r[k["ntargets"]:]


def set_up(ctx, c, k):
    """Writes all input files."""
    o = Oct(ctx, c, k)
    c("clock", float(o.dt), k["n"], 0)
    new_wf(c, "psi", k["wf"])
    o.init, o.goal = o.states()
    for q, v in enumerate(o.init):
        write_init(c, k, f"init{q}", v)
    o.moving = None
    if k.get("mv"):
        # targets that move: stored propagations
        o.moving = []
        for q, v in enumerate(o.goal):
            E = 0.3 * np.random.RandomState(q + 5).standard_normal(k["n"])
            l = o.forward(v, E)
            o.moving.append(l)
            c("fw.new", "f", f"goal{q}")
            c("fw.format", "f", k["fmt"])
            c("fw.seq", "f", 1)
            new_wf(c, "w0", k["wf"])
            for u in l:
                put(c, "w0", k["wf"], u)
                c("fw.write", "f", "w0")
        o.goal = [l[-1] for l in o.moving]
    else:
        for q, v in enumerate(o.goal):
            write_init(c, k, f"goal{q}", v)
    c("fo.writelaser", "shape", "binary", "none", float(o.dt), o.shape)
    if k["method"] == "freq":
        nb = k["n"] // 2 + 1
        r = np.random.RandomState(k["mseed"] & 0x7FFFFFFF)
        i = np.arange(nb)
        cut = [x * (nb - 1) for x in k["cut"]]
        bw = 2 * np.pi / ((k["n"] - 1) * o.dt)
        a = {}
        if k["mask"] == "file":
            m = r.uniform(0, 1, nb)
            c("fo.writelaser", "mask", "binary", "none", float(o.dt), m)
            a["freq"] = "mask"
        else:
            m = np.ones(nb)
            with np.errstate(all="ignore"):
                if k["mask"] in ("high", "band"):
                    a["freql"] = float(cut[0] * bw)
                    m = m / (1 + (cut[0] / np.maximum(i, 1e-300)) ** 200.0)
                if k["mask"] in ("low", "band"):
                    a["freqh"] = float(cut[1] * bw)
                    m = m / (1 + (i / cut[1]) ** 200.0)
        o.mask, k["freqattr"] = m, a
    p = k["prop"]
    a = xa(**{x: y for x, y in p.items() if x != "t"})
    body = "".join(o.ops.xml(s, "ABCDEF"[i]) for i, s in enumerate(k["parts"])) if "parts" in k else o.ops.xml(k["op"], "hamiltonian")
    o.text = f'<propagator name="{p["t"]}"{a}>{body}</propagator>'
    return o


def oct_xml(k, o, drop=(), **kw):
    a = dict(dt=float(o.dt), steps=k["n"], method=k["method"], alpha=float(o.alpha), shape="shape", iterations=k["iterations"], conv=k["conv"], ttype=k["ttype"], phase=k["phase"], ntargets=k["ntargets"], writel=k["writel"], dir=k["dir"], fname=k["fname"], yfile=k["yfile"], mv=k.get("mv"))
    a.update(k.get("freqattr", {}))
    a.update(kw)
    x = "" if "propagator" in drop else o.text
    for q in range(k["ntargets"]):
        if "wfi" not in drop or q < k["ntargets"] - 1:
            x += f'<wfi{q} file="init{q}"/>'
        if "wft" in drop and q == k["ntargets"] - 1:
            continue
        x += f'<wft{q} file="goal{q}"/>' if k["ttype"] == "overlap" else o.ops.xml(k["targets"][q], f"target{q}")
    if "gobbler" in k:
        x += o.ops.xml(k["gobbler"], "gobbler")
    return f"<oct{xa(**a)}>{x}</oct>"


def oct_document(k, body):
    b = f' MaxBufferSize="{k["lim"] * wf_size(k["wf"]) * 16}"' if k["lim"] else ""
    return document(k, body).replace("<qdng ", f"<qdng{b} ", 1)


def label23(k):
    return f"oct {k['method']} ({k['ttype']}{', phase' if k['phase'] else ''}{', moving' if k.get('mv') else ''}{', gobbler' if 'gobbler' in k else ''}) with {k['prop']['t']}, {k['n']} steps, {k['ntargets']} targets on {kind(k['wf'])} ({brief(k.get('op') or k['parts'])[:150]})"


def fields(ctx, c, base, name, what):
    try:
        r = c("fo.readlaser", base)
    except QdError as e:
        ctx.fail(f"{what}: {name} can't be read: {e}")
    return r


def readfield(ctx, c, k, base, name, what, o):
    r = fields(ctx, c, base, name, what)
    E = dvec(r[2])
    ctx.check(abs(dbl(r[1]) - o.dt) <= 1e-14 * o.dt and len(E) >= k["n"], f"{what}: {name} has {len(E)} points in steps of {dbl(r[1])}")
    return E


def next_field(o, old, prev):
    """The field of the next iteration, the states along it and the field changes per correlation."""
    k = o.k
    n, S = k["n"], o.shape
    nt, al = k["ntargets"], o.alpha
    f = S / (al * nt)
    back = None
    if k["method"] == "freq":
        old = np.fft.irfft(np.fft.rfft(old[:n]) * o.mask, n)
    if k["method"] == "rabitzfb":
        # feedback both ways
        chi = [x for x in (o.goal if k["ttype"] == "overlap" else [T @ p[-1] for T, p in zip(o.targets, prev)])] if prev is not None else None
        out = [[x] for x in chi]
        for s in range(n - 1, -1, -1):
            e = -f[s] * o.corr([p[s + 1] for p in prev], [x[-1] for x in out])
            for x in out:
                x.append(o.step(x[-1], e, s, True))
        chi = [x[::-1] for x in out]
    elif o.moving:
        chi = o.moving
    else:
        end = o.goal if k["ttype"] == "overlap" else [T @ o.forward(v, old)[-1] for T, v in zip(o.targets, o.init)]
        chi = [o.backward(x, old) for x in end]
    gamma = np.zeros(n)
    if k["method"] == "freq":
        ph = [o.forward(v, old) for v in o.init]
        ch = [o.forward(x[0], old) for x in chi]
        g = np.array([o.corr([p[s] for p in ph], [x[s] for x in ch]) for s in range(n)])
        gamma = np.fft.irfft(np.fft.rfft(g) * (1 - o.mask), n)
    phi = [[v] for v in o.init]
    new, im = np.zeros(n), np.zeros(n)
    for s in range(n):
        im[s] = o.corr([p[-1] for p in phi], [x[s] for x in chi])
        new[s] = -f[s] * (im[s] + gamma[s]) + (old[s] if k["method"] in ("krotov", "freq") else 0)
        for p in phi:
            p.append(o.step(p[-1], new[s], s))
    return new, im, phi, old


ROW = re.compile(r"^\d+\t\t")


def rows_of(text):
    return [[t for t in l.split("\t") if t] for l in text.split("\n") if ROW.match(l)]


def report(o, phi, it, row, E, obj, what, ctx):
    """Compares a row of the report; returns the yield."""
    k = o.k
    ctx.check(int(row[0]) == it, f"{what}: row of iteration {row[0]} instead of {it}")
    want = []
    S = 0
    for q, p in enumerate(phi):
        v = p[-1]
        want.append((f"norm {q}", o.norm(v), o.norm(v)))
        if k["ttype"] == "overlap":
            z = o.dot(v, o.goal[q])
            sc = o.norm(v) * o.norm(o.goal[q])
            want.append((f"norm of target {q}", o.norm(o.goal[q]), 1))
            want.append((f"overlap {q}", abs(z) ** 2, sc ** 2))
            if k["phase"]:
                want.append((f"phase {q}", np.angle(z) / np.pi if abs(z) > 1e-4 * sc else None, 1e3))
            S += z if k["phase"] else abs(z) ** 2
        else:
            e = o.dot(v, o.targets[q] @ v).real
            want.append((f"expectation value {q}", e, np.abs(o.targets[q]).sum(axis=1).max() * o.norm(v) ** 2))
            S += abs(e)
    S = complex(S)
    lo = None
    if it == 0:
        want += [("laser objective", "-", 0), ("objective", "-", 0)]
    else:
        try:
            lo = float(row[len(want) + 1])
        except (ValueError, IndexError):
            ctx.fail(f"{what}: row {row}")
        want += [("laser objective", obj if obj is not None else lo, 50 * abs(lo)), ("objective", S.real - lo, 1 + abs(lo) + 1e-3 * abs(S))]
    want.append(("pulse energy", 137.0359996 / (4 * np.pi) * (E ** 2).sum() * o.dt, None))
    ctx.check(len(row) == len(want) + 1, f"{what}, iteration {it}: {len(row)} columns instead of {len(want) + 1}: {row}")
    for t, (nm, x, sc) in zip(row[1:], want):
        if x == "-":
            ctx.check(t == "-", f"{what}, iteration {it}: {nm} {t}")
            continue
        if x is None:
            continue
        g = float(t)
        d = min(abs(g - y) for y in (x if isinstance(x, tuple) else (x,)))
        if nm.startswith("phase"):
            d = min(abs((g - s * x + 1) % 2 - 1) for s in (1, -1))
        tol = 1e-9 * x if sc is None else 2e-8 * sc
        ctx.check(d <= tol + 1.001 * digits(t), lambda: f"{what}, iteration {it}: {nm} {t} instead of {x}")
    return abs(S)


def run_iter(k, ctx):
    with ctx.srv().case() as c:
        o = set_up(ctx, c, k)
        what = label23(k)
        ctx.label(k["method"] + (" mv" if k.get("mv") else "") + (" gobbler" if "gobbler" in k else ""))
        doc = oct_document(k, oct_xml(k, o))
        if "gobbler" in k and k["ttype"] == "operator" and any(o.norm(T @ o.forward(v, o.guess)[-1]) < 1e-9 for v, T in zip(o.init, o.targets)):
            # a zero state can't be renormalised
            ctx.label("zero target state")
            return
        r = run_qdng(ctx, c, k, doc, what)
        d = where(k)
        base = d + (k["fname"] or "laser")
        final = readfield(ctx, c, k, base, "the final field", what, o)
        tab = r.out
        if k["yfile"]:
            try:
                tab = open(f"{c.s.cwd}/{d}{k['yfile']}").read()
            except OSError as e:
                ctx.fail(f"{what}: {e}")
            one = rows_of(r.out)
            ctx.check(len(one) == 1, f"{what}: {len(one)} rows are printed although the table goes to a file")
            tab = "\n".join(l for l in r.out.split("\n") if ROW.match(l)) + "\n" + tab
        rows = rows_of(tab)
        ctx.check(rows, f"{what}: no report")
        n_it = len(rows) - 1
        # the guess
        phi = [o.forward(v, o.guess) for v in o.init]
        ys = [report(o, phi, 0, rows[0], o.guess, None, what, ctx)]
        old = o.guess
        off = "the shape is zero"
        for it in range(1, n_it + 1):
            new, im, phi2, shaped = next_field(o, old, phi)
            if np.abs(new).max() > o.fmax:
                ctx.label("strong field")
                return
            f = o.shape / o.alpha
            nt = k["ntargets"]
            obj = None
            if k["method"] == "krotov":
                obj = (o.dt * (f ** 2 * im ** 2).sum(), o.dt * (f * im ** 2).sum() / nt ** 2)
            elif k["method"] == "rabitz":
                obj = (o.dt * (f * im ** 2).sum() / nt ** 2,)
            if k["writel"]:
                E = readfield(ctx, c, k, base + f"_{it}", f"the field of iteration {it}", what, o)
                e = np.abs(E[:k["n"]] - new).max()
                ctx.check(e <= 1e-7 * max(1e-3, np.abs(new).max(), np.abs(old).max()), lambda: f"{what}: the field of iteration {it} deviates from the {k['method']} iteration of the previous field by {e:.3g} of {np.abs(new).max():.3g}")
                if k["method"] == "krotov":
                    z = o.shape == 0
                    ctx.check(np.array_equal(E[:k["n"]][z], old[:k["n"]][z]), f"{what}: iteration {it} changes the field where the shape is zero")
                phi = [o.forward(v, E) for v in o.init]
            else:
                E, phi = np.concatenate([new, old[k["n"]:]]), phi2
            if k["method"] == "freq":
                E = E[:k["n"]]
            ys.append(report(o, phi, it, rows[it], E, obj, what, ctx))
            old = E
        if k["writel"]:
            E = readfield(ctx, c, k, base + "_0", "the guess field", what, o)
            ctx.check(np.array_equal(E, o.guess), f"{what}: the field written first is not the guess")
            ctx.check({int(m[1]) for f in os.listdir(f"{c.s.cwd}/{d or '.'}") for m in [re.fullmatch(re.escape(k["fname"] or "laser") + r"_(\d+)\.op", f)] if m} == set(range(n_it + 1)), f"{what}: fields written and iterations reported differ")
            if n_it:
                ctx.check(np.array_equal(final[:k["n"]], old[:k["n"]]), f"{what}: the final field is not the field of the last iteration")
        else:
            e = np.abs(final[:k["n"]] - old[:k["n"]]).max()
            ctx.check(e <= 1e-6 * max(1e-3, np.abs(old).max()), f"{what}: the final field deviates from the last iteration by {e:.3g}")
        # the end of the iterations
        conv = 1e-5 if k["conv"] is None else k["conv"]
        h = [1.0, 1.0, 1.0] + ys[1:]
        delta = [abs(a - b) + abs(b - g) for a, b, g in zip(h[1:], h[2:], h[3:])]
        for i, x in enumerate(delta[:-1]):
            ctx.check(x >= conv - 1e-6, f"{what}: continued although the yields changed by {x:.3g} up to iteration {i + 1}")
        if n_it < k["iterations"]:
            ctx.check(n_it and delta[-1] <= conv + 1e-6, f"{what}: ended after {n_it} of {k['iterations']} iterations with a change of {delta[-1:]}")
            ctx.check("Convergence reached" in r.out, f"{what}: ended early without convergence")
        ctx.check(n_it <= k["iterations"], f"{what}: {n_it} iterations instead of {k['iterations']}")
        if k["again"] and "gobbler" not in k:
            # a propagation with the field
            x = re.sub(r'(laser0?)="[^"]*"', lambda m: m[0], o.text)
            files = set(re.findall(r' laser="([^"]*)"', o.text))
            for f in files:
                L = fields(ctx, c, f, f, what)
                if np.array_equal(dvec(L[2]), o.guess):
                    x = x.replace(f'laser="{f}"', f'laser="{base}"')
            doc = document(k, f'<propa dt="{g17(o.dt)}" steps="{k["n"]}" wcycle="{k["n"]}" dir="prop">{x}<wf file="init0"/></propa>')
            kk = dict(k, odir=None)
            run_qdng(ctx, c, kk, doc, what + ", propagation with the field")
            c("fw.new", "o", "prop/WF_1")
            c("fw.readnew", "o", "w")
            v = get(c, "w")
            e = o.norm(v - phi[0][-1])
            if not np.array_equal(o.fix, o.guess):
                ctx.check(e <= 1e-6, f"{what}: a propagation with the final field ends {e:.3g} away from the reported one")

# ------------------------------------------------------------------ the gain the theory guarantees
@st.composite
def gain_(draw):
    k = draw(setup_(("krotov", "krotov", "rabitz", "rabitzfb")).filter(lambda k: "gobbler" not in k and not k.get("mv")))
    k["n"] = draw(st.integers(5, 40))
    k["z"] = draw(flt(0.01, 0.1))
    k["writel"], k["yfile"], k["negalpha"], k["conv"] = True, None, False, 0.0
    k["iterations"] = draw(st.integers(2, 6))
    k["strength"] = draw(st.sampled_from([0.05, 0.3, 1.0]))
    if k["ttype"] == "operator":
        # positive targets
        k["targets"] = [dict(t="projection", seed=draw(seeds), num=draw(st.integers(1, 3)), amp=draw(st.sampled_from([1.0, 0.3])), fmt="binary") for _ in range(k["ntargets"])]
    return k


def run_gain(k, ctx):
    with ctx.srv().case() as c:
        o = set_up(ctx, c, k)
        what = label23(k)
        r = run_qdng(ctx, c, k, oct_document(k, oct_xml(k, o)), what)
        k = dict(k, iterations=min(k["iterations"], len(rows_of(r.out)) - 1))
        base = where(k) + (k["fname"] or "laser")
        Es = [readfield(ctx, c, k, base + f"_{i}", f"field {i}", what, o)[:k["n"]] for i in range(k["iterations"] + 1)]
        S, al, nt, dt, n = o.shape, o.alpha, k["ntargets"], o.dt, k["n"]
        on = S > 0
        fb = k["method"] == "rabitzfb"

        def target(i):
            J = 0.0
            Y.append([])
            for q, v in enumerate(o.init):
                p = o.forward(v, Es[i])[-1]
                if k["ttype"] == "overlap":
                    z = o.dot(p, o.goal[q])
                    J += z.real if k["phase"] else abs(z) ** 2
                else:
                    Y[-1].append(o.dot(p, o.targets[q] @ p).real)
                    J += Y[-1][-1]
            return J
        Y = []
        J = [target(i) for i in range(len(Es))]
        mu = np.linalg.norm(o.mu, 2)
        com = max(np.linalg.norm(H @ o.mu - o.mu @ H, 2) for H in (o.H0 - f * o.muf for f in {float(x) for x in o.fix[:n]}))
        size = sum(o.norm(v) * (o.norm(g) if k["ttype"] == "overlap" else np.linalg.norm(o.targets[q], 2) * o.norm(v)) for q, (v, g) in enumerate(zip(o.init, o.goal)))
        if not k["phase"]:
            size *= max([1.0] + [o.norm(v) * (o.norm(g) if k["ttype"] == "overlap" else np.linalg.norm(T, 2) * o.norm(v)) for v, g, T in zip(o.init, o.goal, o.targets or o.goal)])
        # quadratic forms gain twice the linear one
        two = 1.0 if k["phase"] and k["ttype"] == "overlap" else 2.0
        weak = not k["phase"] and k["ttype"] == "operator"
        best = 0.0
        for i in range(2 if fb else 1, len(Es)):
            D = Es[i] - Es[i - 1]
            if k["method"] == "krotov":
                ctx.check(np.abs(D[~on]).max(initial=0) == 0, f"{what}: iteration {i} changes the field where the shape is zero")
            tol = size * dt ** 2 * (np.abs(D) * (com + (np.abs(D) + 1e-9) * mu ** 2)).sum() + 1e-9
            cost = lambda E: al * nt * (E[on] ** 2 / S[on]).sum() * dt
            if k["method"] == "krotov":
                g = two * cost(D)
                if weak:
                    # the overlaps of the new with the old state increase; Cauchy-Schwarz
                    a, b = sum(x * x for x in Y[i - 1]), sum(x * y for x, y in zip(Y[i - 1], Y[i]))
                    ctx.check(b >= a + g - tol, lambda: f"{what}: the yields weighted by their former values go from {a:.9g} to {b:.9g} in iteration {i}, at least {a + g - tol:.9g} is guaranteed")
                    continue
                ctx.check(J[i] >= J[i - 1] + g - tol, lambda: f"{what}: the yield goes from {J[i - 1]:.9g} to {J[i]:.9g} in iteration {i}, at least {J[i - 1] + g - tol:.9g} is guaranteed")
            elif not weak and (i > 1 or np.abs(Es[0][~on]).max(initial=0) == 0):
                h = two / 2
                a, b = (J[j] - h * cost(Es[j]) for j in (i - 1, i))
                if fb:
                    tol = 2 * size * dt ** 2 * ((np.abs(Es[i]) + np.abs(Es[i - 1])) * (com + (np.abs(Es[i]) + np.abs(Es[i - 1])) * mu ** 2)).sum() + 1e-9
                elif two < 2:
                    continue
                ctx.check(b >= a - tol, lambda: f"{what}: yield minus field cost goes from {a:.9g} to {b:.9g} in iteration {i} (allowed {tol:.2g})")
            best = max(best, (J[i] - J[i - 1]) / tol)
        ctx.label(k["method"] + (" decisive" if best > 1 else ""))


# ------------------------------------------------------------------ invalid set-ups
BADO = {
    "no time step": dict(dt=None), "a zero time step": dict(dt=0.0), "no number of steps": dict(steps=None), "zero steps": dict(steps=0), "a negative number of steps": dict(steps=-5),
    "an unknown method": dict(method="newton"), "no shape": dict(shape=None), "a missing shape file": dict(shape="nix"), "a shape of another time step": "s2", "a shape that is too short": "s1",
    "no iterations": dict(iterations=0), "negative iterations": dict(iterations=-1), "a negative convergence": dict(conv=-1e-3), "an unknown coupling": dict(coup="magnetic"), "an unknown target type": dict(ttype="state"),
    "zero targets": dict(ntargets=0), "17 targets": dict(ntargets=17), "more targets than states": "n", "zero alpha": dict(alpha=0.0),
    "frequency shaping without a mask": "f0", "a mask of another length": "f1", "a mask of another time step": "f2", "a low cut-off beyond the Nyquist frequency": "f3", "a high cut-off beyond the Nyquist frequency": "f4",
    "no propagator": ("propagator",), "no initial state": ("wfi",), "no target": ("wft",), "no field coupling": "h", "nothing": "e", "a missing initial state": "i", "a missing field": "l", "no Hamiltonian": "u", "a target of another size": "t",
}


@st.composite
def refuse23(draw):
    k = draw(setup_(("krotov", "rabitz", "rabitzfb")))
    k["n"] = max(k["n"], 4)
    k["yfile"], k["writel"] = None, True
    k["bad"] = draw(st.sampled_from(sorted(BADO)))
    if k["bad"] == "a target of another size":
        k.pop("mv", None)
        k["ttype"] = "overlap"
    return k


def run_refuse23(k, ctx):
    with ctx.srv().case() as c:
        o = set_up(ctx, c, k)
        b = BADO[k["bad"]]
        n, dt = k["n"], float(o.dt)
        kw, drop = {}, ()
        if isinstance(b, dict):
            kw = b
        elif isinstance(b, tuple):
            drop = b
        elif b[0] == "f":
            kw = {"method": "freq"}
            ny = 2 * np.pi / ((n - 1) * dt) * (n // 2 + 1)
            kw.update([{}, {"freq": "mask"}, {"freq": "mask"}, {"freql": 1.5 * ny}, {"freqh": 1.5 * ny}][int(b[1])])
            c("fo.writelaser", "mask", "binary", "none", dt * (2 if b == "f2" else 1), np.ones(n // 2 + (2 if b == "f1" else 1)))
        elif b == "s1":
            c("fo.writelaser", "shape", "binary", "none", dt, o.shape[:n - 2])
        elif b == "s2":
            c("fo.writelaser", "shape", "binary", "none", dt * 1.5, o.shape)
        elif b == "h":
            o.text = '<propagator name="Cheby" order="5" scaling="2"><hamiltonian name="Sum"><o name="Scalar" value="1"/></hamiltonian></propagator>'
        elif b == "u":
            o.text = f'<propagator name="{k["prop"]["t"]}"/>'
        x = oct_xml(k, o, drop, **kw)
        if b == "n":
            x = x.replace(f'ntargets="{k["ntargets"]}"', f'ntargets="{k["ntargets"] + 1}"')
        elif b == "e":
            x = re.sub(r"(<oct[^>]*>).*</oct>", r"\1</oct>", x, flags=re.S)
        elif b == "i":
            x = x.replace('file="init0"', 'file="nix"')
        elif b == "l":
            x = re.sub(r' laser="[^"]*"', ' laser="nix"', x)
        elif b == "t":
            new_wf(c, "odd", {"k": "level", "n": 23})
            c("fw.new", "f", "odd")
            c("fw.write", "f", "odd")
            x = x.replace('file="goal0"', 'file="odd"')
        what = f"oct {k['method']} with {k['bad']}"
        ctx.label(k["bad"])
        run_qdng(ctx, c, k, oct_document(k, x), what, ok=False)
        base = k["fname"] or "laser"
        ctx.check(not any(f == base + ".op" or f.startswith(base + "_1") for _, _, l in os.walk(c.s.cwd) for f in l), f"{what}: writes an optimised field")


SUBS = [
    Sub("iterate", setup_(), run_iter, (400, 6000), lambda k: k["iterations"] > 1, "more than one iteration"),
    Sub("gain", gain_(), run_gain, (200, 3000), lambda k: k["iterations"] > 1, "more than one iteration"),
    Sub("refuse", refuse23(), run_refuse23, (100, 1000), lambda k: True, "every request is invalid"),
]
