"""Operators under test and their dense reference matrices.

A specification is a JSON object {"t": kind, ...}.  `Ops(case)` writes the files an operator needs, produces the input
text (XML) the program loads it from, and `mat()` gives the matrix numpy computes for it (storage order of the wave
function: dimension 0 runs fastest)."""
from common import *
from math import factorial


# ------------------------------------------------------------------ numpy building blocks
def along(dims, i, M):
    """Matrix acting on dimension i of a grid: kron with the identity on the others."""
    m = np.eye(1)
    for j in range(len(dims)):           # dimension 0 is the innermost factor
        m = np.kron(M if j == i else np.eye(dims[j][0]), m)
    return m


def dft_d(dim, deriv):
    """Spectral derivative matrix of one dimension (deriv-th power of ik)."""
    n = dim[0]
    k = kvec(dim)
    F = np.fft.fft(np.eye(n), axis=0)
    return np.fft.ifft(((1j * k) ** deriv)[:, None] * F, axis=0)


def fd_coef(deriv, order):
    m = order // 2
    c = np.zeros(order + 1)
    for j in range(1, m + 1):
        a = factorial(m) ** 2 / (factorial(m - j) * factorial(m + j))
        if deriv == 1:
            v = (-1) ** (j + 1) * a / j
            c[m + j], c[m - j] = v, -v
        else:
            v = 2 * (-1) ** (j + 1) * a / j ** 2
            c[m + j] = c[m - j] = v
    if deriv == 2:
        c[m] = -c.sum()
    return c


def fd_d(dim, deriv, order, pbc):
    n, a, b = dim
    h = (b - a) / (n - 1)
    m = order // 2
    c = fd_coef(deriv, order)
    M = np.zeros((n, n))
    for i in range(n):
        for s in range(-m, m + 1):
            j = i + s
            if pbc:
                M[i, j % n] += c[m + s]
            elif 0 <= j < n:
                M[i, j] += c[m + s]
    return M / h ** deriv


def smooth(dims, seed, amp=1.0):
    """Smooth real function on a grid: low Fourier components plus a polynomial part (not periodic)."""
    r = np.random.RandomState(seed & 0x7FFFFFFF)
    x = mesh(dims)
    f = np.full(x[0].size, r.standard_normal())
    for i, d in enumerate(dims):
        u = (x[i] - d[1]) / (d[2] - d[1])
        f = f + r.standard_normal() * u + r.standard_normal() * np.cos(2 * np.pi * u + r.rand() * 6)
    return amp * f


def xa(**kw):
    """XML attributes; numbers at full precision."""
    s = ""
    for k, v in kw.items():
        if v is None:
            continue
        if isinstance(v, bool):
            v = "true" if v else "false"
        elif isinstance(v, float):
            v = g17(v)
        elif isinstance(v, (list, tuple)):
            v = ",".join(g17(x) if isinstance(x, float) else str(x) for x in v)
        s += f' {k}="{v}"'
    return s


class Ops:
    """clock: (dt, steps) for operators with laser fields; t: the current step, conj is not applied here."""
    def __init__(self, c, wf, clock=None, up=None):
        self.c, self.wf, self.up = c, wf, up
        self.cnt = up.cnt if up else [0]
        self.top = up.top if up else self
        self.dims = wf["dims"] if wf["k"] == "grid" else None
        self.size = wf_size(wf)
        self.sub = type(self)(c, wf["states"][0], clock, self) if wf["k"] == "multi" else None
        self.clock, self.t = clock, 0

    @property
    def n(self):
        return self.cnt[0]

    def fname(self):
        self.cnt[0] += 1
        return f"f{self.cnt[0]}_"

    def gridfile(self, name, dims, v, fmt=None, comp="none"):
        fmt = fmt or ("binary" if self.n % 2 else "stream")
        self.c("fo.writegrid", name, fmt, comp, np.array([x for d in dims for x in d], float), np.asarray(v, float))

    # -------------------------------------------------------------- input text
    def xml(self, s, tag="op"):
        return getattr(self, "x_" + s["t"])(s, tag)

    def mat(self, s):
        return getattr(self, "m_" + s["t"])(s)

    # kinetic energy -------------------------------------------------
    def x_nablasq(self, s, tag):
        return f"<{tag} name=\"GridNablaSq\"{xa(mass=s['mass'], method=s.get('method'), order=s.get('order'), pbc=s.get('pbc'))}/>"

    def m_nablasq(self, s):
        M = 0
        for i, d in enumerate(self.dims):
            if s["mass"][i] > 0:
                D = dft_d(d, 2) if s.get("method", "FFT") == "FFT" else fd_d(d, 2, s.get("order") or 8, bool(s.get("pbc")))
                M = M + along(self.dims, i, -D / (2 * s["mass"][i]))
        return M

    def x_hofd(self, s, tag):
        return f"<{tag} name=\"GridHOFD\"{xa(deriv=s['deriv'], order=s['order'], dim=s.get('dim'), pbc=s.get('pbc'), mass=s.get('mass'))}/>"

    def m_hofd(self, s):
        M = 0
        dm = s.get("dim")
        for i, d in enumerate(self.dims):
            if dm is not None and dm >= 0 and i != dm:
                continue
            f = -1 / (2 * s["mass"][i]) if s.get("mass") else 1.0
            M = M + f * along(self.dims, i, fd_d(d, s["deriv"], s["order"], bool(s.get("pbc"))))
        return M

    def x_momentum(self, s, tag):
        return f"<{tag} name=\"{'GridMomentum' if s['t'] == 'momentum' else 'GridNabla'}\"{xa(dim=s.get('dim'), factor=s.get('factor'))}/>"
    x_nabla = x_momentum

    def m_nabla(self, s):
        M = 0
        for i, d in enumerate(self.dims):
            if s.get("dim") is None or s["dim"] == i:
                M = M + along(self.dims, i, dft_d(d, 1))
        return M * (s["factor"] if s.get("factor") is not None else 1.0)

    def m_momentum(self, s):
        return -1j * self.m_nabla(s)

    # G-matrix: s["el"] = lower triangle of {"c": value} | {"g": seed} | {"x": 1}
    def x_gmat(self, s, tag):
        n = len(self.dims)
        base = self.fname() + "g"
        k, gdef, G = 0, [], []
        for i in range(n):
            for j in range(i + 1):
                e = s["el"][k]
                k += 1
                gdef.append("c" if "c" in e else "g" if "g" in e else "x")
                G.append(float(e.get("c", 0.0)))
                if "g" in e and (i == j or s.get("coup", True)):
                    self.gridfile(f"{base}_{i}{j}", self.dims, self.gel(e))
        a = dict(dims=n)
        if "g" in gdef:
            a["gmat"] = base
        # a default is used when nothing is said about the kind of the elements
        if s.get("plain") and set(gdef) == {"c"}:
            a["G"] = G
        elif s.get("plain") and set(gdef) == {"g"}:
            pass
        else:
            a["Gdef"] = gdef
            if "c" in gdef:
                a["G"] = G
        if s.get("coup") is not None:
            a["coup"] = bool(s["coup"])
        for x in ("chainrule", "method", "order", "pbc", "pml", "thick"):
            if s.get(x) is not None:
                a[x] = s[x]
        return f"<{tag} name=\"GridGMat\"{xa(**a)}/>"

    def gel(self, e):
        v = smooth(self.dims, e["g"])
        return (v - v.min() + 0.5) if e.get("pos") else v

    def m_gmat(self, s):
        n = len(self.dims)
        hofd = s.get("method") == "HOFD"
        D = [along(self.dims, i, fd_d(d, 1, s.get("order") or 8, bool(s.get("pbc"))) if hofd else dft_d(d, 1)) for i, d in enumerate(self.dims)]
        FD = None
        if s.get("chainrule"):
            FD = [along(self.dims, i, fd_d(d, 1, s.get("order") or 8, False)) for i, d in enumerate(self.dims)]
        M = np.zeros((D[0].shape[0],) * 2, complex)
        for i in range(n):
            for j in range(n):
                if i != j and not s.get("coup", True):
                    continue
                a, b = max(i, j), min(i, j)
                e = s["el"][a * (a + 1) // 2 + b]
                if "c" in e:
                    M += -0.5 * e["c"] * D[j] @ D[i]
                elif "g" in e:
                    g = self.gel(e)
                    if FD is None:
                        M += -0.5 * D[j] @ (g[:, None] * D[i])
                    else:
                        M += -0.5 * ((FD[j] @ g)[:, None] * D[i] + g[:, None] * (D[j] @ D[i]))
        return M

    # nonadiabatic coupling: s["f"] seeds per dimension
    def x_nac(self, s, tag):
        n = len(self.dims)
        base = self.fname() + "n"
        for i in range(n):
            self.gridfile(base if n == 1 and s.get("mass") is not None else f"{base}{i}", self.dims, smooth(self.dims, s["f"][i]))
        return f"<{tag} name=\"GridNAC\"{xa(dims=n if n > 1 or s.get('adims') else None, file=base, mass=s.get('mass') if n == 1 else None, sign=s.get('sign'))}/>"

    def m_nac(self, s):
        M = 0
        for i, d in enumerate(self.dims):
            D = along(self.dims, i, dft_d(d, 1))
            f = smooth(self.dims, s["f"][i])
            M = M + 0.5 * (f[:, None] * D + D * f[None, :])
        return M * (s.get("sign") or 1) / ((s.get("mass") or 1.0) if len(self.dims) == 1 else 1.0)

    def x_pml(self, s, tag):
        a = {k: s.get(k) for k in ("mass", "method", "order", "pbc", "lmap", "gamma", "thick", "k", "p", "smax", "otol")}
        return f"<{tag} name=\"GridPML\"{xa(**a)}/>"

    def m_pml(self, s):
        M = 0
        get = lambda k, i, d: d if s.get(k) is None else s[k][0] if len(s[k]) == 1 else s[k][i]
        for i, d in enumerate(self.dims):
            if s["mass"][i] <= 0:
                continue
            n = d[0]
            dx = (d[2] - d[1]) / (n - 1)
            th, p, gam, side = get("thick", i, 10), get("p", i, 4), get("gamma", i, 0.25), get("lmap", i, 3)
            k = get("k", i, np.pi / dx / 2)
            smax = s["smax"] if s.get("smax") is not None else -math.log(s.get("otol") or 1e-5) * (p + 1) / (1.141 * k * th * dx)
            F = np.ones(n, complex)
            f = 1 / (1 + np.exp(1j * gam * np.pi) * smax * ((th + 1 - np.arange(th)) / th) ** p)
            if side & 1:
                F[:th] *= f
            if side & 2:
                F[::-1][:th] *= f
            D = fd_d(d, 1, s.get("order") or 8, bool(s.get("pbc"))) if s.get("method") == "HOFD" else dft_d(d, 1)
            M = M + along(self.dims, i, -1 / (2 * s["mass"][i]) * F[:, None] * (D @ (F[:, None] * D)))
        return M

    # ------------------------------------------------------------------ local operators
    def pot(self, s):
        """Values of a potential file entry."""
        v, d = s["v"], s.get("dims", self.dims)
        if v["k"] == "smooth":
            a = smooth(d, v["seed"], v.get("amp", 1.0))
        else:
            r = np.random.RandomState(v["seed"] & 0x7FFFFFFF)
            n = int(np.prod([x[0] for x in d]))
            a = v.get("amp", 1.0) * (np.full(n, r.standard_normal()) if v["k"] == "const" else np.abs(r.standard_normal(n)) if v["k"] == "pos" else r.standard_normal(n))
        return a + v.get("off", 0.0)

    def potval(self, s):
        a = self.pot(s)
        if s.get("setzero"):
            a = a - a.min()
        a = a + (s.get("offset") or 0.0)
        return a * (1.0 if s.get("scale") is None else s["scale"])

    def potattr(self, s):
        f = self.fname() + "v"
        self.gridfile(f, s.get("dims", self.dims), self.pot(s))
        return xa(file=f, setzero=s.get("setzero"), offset=s.get("offset"), scale=s.get("scale"))

    def x_pot(self, s, tag):
        return f"<{tag} name=\"GridPotential\"{self.potattr(s)}/>"

    def m_pot(self, s):
        return np.diag(self.potval(s)).astype(complex)

    # laser fields: {"k":"file","seed","n","amp"} | {"k":"gauss"/"gauss2", parameters}
    def field(self, L):
        dt, steps = self.top.clock
        if L["k"] == "file":
            return L.get("amp", 1.0) * np.random.RandomState(L["seed"] & 0x7FFFFFFF).standard_normal(steps + L.get("extra", 0))
        t = np.arange(steps) * dt
        E = 0
        for x in ["", "2"][:2 if L["k"] == "gauss2" else 1]:
            g = lambda k, d: d if L.get(k + x) is None else L[k + x]
            t0, sg = g("t0", steps // 2 * dt), g("sigma", steps // 8 * dt or dt)
            E = E + g("Emax", 1e-4) * np.exp(-(t - t0) ** 2 / 2 / sg ** 2) * np.cos(g("w0", .05695) * (t - t0) + g("phi", 0.0) + g("b", 0.0) * (t - t0) ** 2)
        return E

    def E(self, L):
        f = self.field(L)
        return f[self.top.t] if self.top.t < len(f) else 0.0     # the field is off after its end

    def laserattr(self, L, key="laser"):
        if L["k"] == "file":
            f = self.fname() + "E"
            self.c("fo.writelaser", f, "binary" if self.n % 2 else "stream", "none", float(self.top.clock[0]), self.field(L))
            return xa(**{key: f})
        a = {k: v for k, v in L.items() if k != "k"}
        if self.top.clock[1] < 8:
            # the default width is zero
            for k in ["sigma", "sigma2"][:2 if L["k"] == "gauss2" else 1]:
                if a.get(k) is None:
                    a[k] = float(self.top.clock[0])
        return xa(gen=L["k"], **a)

    def x_dipole(self, s, tag):
        return f"<{tag} name=\"GridDipole\"{self.potattr(s)}{self.laserattr(s['laser'])}/>"

    def m_dipole(self, s):
        return np.diag(-self.potval(s) * self.E(s["laser"])).astype(complex)

    def x_raman(self, s, tag):
        l = s["lasers"]
        la = self.laserattr(l[0]) if len(l) == 1 else self.laserattr(l[0], "laser0") + self.laserattr(l[1], "laser1")
        return f"<{tag} name=\"GridRaman\"{self.potattr(s)}{la}/>"

    def m_raman(self, s):
        l = s["lasers"]
        return np.diag(-0.5 * self.potval(s) * self.E(l[0]) * self.E(l[-1])).astype(complex)

    def x_position(self, s, tag):
        return f"<{tag} name=\"GridPosition\"{xa(dim=s.get('dim'), scale=s.get('scale'))}/>"

    def m_position(self, s):
        x = mesh(self.dims)
        v = sum(x) if s.get("dim") is None else x[s["dim"]]
        return np.diag(v * (1.0 if s.get("scale") is None else s["scale"])).astype(complex)

    def x_kick(self, s, tag):
        return f"<{tag} name=\"GridKick\"{xa(k=s['kv'], scale=s.get('scale'), dims=s.get('adims'))}/>"

    def m_kick(self, s):
        x = mesh(self.dims)
        ph = sum(k * xi for k, xi in zip(s["kv"], x)) * (1.0 if s.get("scale") is None else s["scale"])
        return np.diag(np.exp(1j * ph))

    # absorber: s["lp"], s["rp"]: {dim: edge}
    def x_gobbler(self, s, tag):
        a = {f"{k}{d}": v for k in ("lp", "rp") for d, v in s.get(k, {}).items()}
        a.update({k: s.get(k) for k in ("order", "gain", "nip", "residue")})
        return f"<{tag} name=\"Gobbler\"{xa(dims=s.get('adims'), **a)}/>"

    def gobval(self, s):
        o = s.get("order") or 20
        fs = []
        for k in ("lp", "rp"):
            for d, edge in s.get(k, {}).items():
                dim = self.dims[int(d)]
                # edge in units of the grid spacing from the left end
                i = np.arange(dim[0], dtype=float)
                c = (edge - dim[1]) / ((dim[2] - dim[1]) / (dim[0] - 1))
                with np.errstate(all="ignore"):
                    f = 1 / (1 + (i / c) ** (2 * o)) if k == "lp" else 1 / (1 + (c / i) ** (2 * o))
                f[i == c] = 0.5
                f = np.where(np.isnan(f), 0.5, f)
                fs.append(np.repeat(np.tile(f, int(np.prod([x[0] for x in self.dims[int(d) + 1:]]))), int(np.prod([x[0] for x in self.dims[:int(d)]]))))
        if s.get("nip"):
            v = -1j * sum(fs) if fs else np.zeros(self.size)
        else:
            v = np.prod(fs, axis=0) if fs else np.ones(self.size)
        return v * (1.0 if s.get("gain") is None else s["gain"])

    def m_gobbler(self, s):
        return np.diag(self.gobval(s)).astype(complex)

    def x_scalar(self, s, tag):
        return f"<{tag} name=\"Scalar\"{xa(value=s['value'], im=s.get('im'))}/>"

    def m_scalar(self, s):
        return np.eye(self.size) * complex(s["value"], s.get("im") or 0.0)

    # projection: s["num"] states written as a sequence from s["start"] in steps of s["step"]
    def projv(self, s):
        return [rng_amps(self.size, s["seed"] + 7 * k) * s.get("amp", 1.0) for k in range(s["num"])]

    def x_projection(self, s, tag):
        base = self.fname() + "P"
        step, start = s.get("step") or 1, s.get("start") or 0
        for k, v in enumerate(self.projv(s)):
            tmp = f"{base}w{k}"
            put(self.c, tmp, self.wf, v)
            write_seq(self.c, tmp, base, start + k * step, s.get("fmt") or ("binary" if self.n % 2 else "stream"))
        return f"<{tag} name=\"Projection\"{xa(files=base, num=s['num'] if s['num'] != 1 or s.get('anum') else None, start=s.get('start'), step=s.get('step'), inv=s.get('inv'), positive=s.get('positive'))}/>"

    def m_projection(self, s):
        w = metric(self.wf)
        P = sum(np.outer(v, v.conj() * w) for v in self.projv(s))
        if s.get("positive") is False:
            P = -P
        return np.eye(self.size) - P if s.get("inv") else P

    # matrices on level wave functions
    def hm(self, s):
        r = np.random.RandomState(s["seed"] & 0x7FFFFFFF)
        n = s.get("n", self.size)
        A = r.standard_normal((n, n)) * s.get("amp", 1.0)
        if s.get("diag"):
            A = np.diag(np.diag(A))
        if s.get("asym"):
            return A
        A = (A + A.T) / 2
        return A + s.get("off", 0.0) * np.eye(n)

    def hmval(self, s):
        A = self.hm(s)
        if s.get("setzero"):
            A = A - np.linalg.eigvalsh(A)[0] * np.eye(len(A))
        return A

    def hmattr(self, s):
        f = self.fname() + "m"
        A = self.hm(s)
        self.c("fo.writemat", f, "binary" if self.n % 2 else "stream", "none", len(A), A.ravel())
        return xa(file=f, setzero=s.get("setzero"))

    def x_hermmat(self, s, tag):
        return f"<{tag} name=\"HermitianMatrix\"{self.hmattr(s)}/>"

    def m_hermmat(self, s):
        return self.hmval(s).astype(complex)

    def x_matdipole(self, s, tag):
        return f"<{tag} name=\"MatDipole\"{self.hmattr(s)}{self.laserattr(s['laser'])}{xa(scale=s.get('scale'))}/>"

    def m_matdipole(self, s):
        return (-self.hmval(s) * self.E(s["laser"]) * (1.0 if s.get("scale") is None else s["scale"])).astype(complex)

    # ------------------------------------------------------------------ compositions
    def kids(self, s, names=None):
        return "".join(self.xml(m, names[i] if names else f"o{i}") for i, m in enumerate(s["m"]))

    def x_sum(self, s, tag):
        return f"<{tag} name=\"Sum\">{self.kids(s)}</{tag}>"

    def m_sum(self, s):
        return sum(self.mat(m) for m in s["m"])

    def x_product(self, s, tag):
        return f"<{tag} name=\"Product\">{self.kids(s)}</{tag}>"

    def m_product(self, s):
        M = np.eye(self.size, dtype=complex)
        for m in s["m"]:
            M = M @ self.mat(m)
        return M

    def x_gridsum(self, s, tag):
        return f"<{tag} name=\"GridSum\">{self.kids(s)}</{tag}>"
    m_gridsum = m_sum

    # s["el"]: list of [row, col, op]
    def x_multistate(self, s, tag):
        a = xa(unity=s.get("unity"), nonhermitian=s.get("nonhermitian"), states=s.get("states"))
        return f"<{tag} name=\"{'DMultistate' if s.get('d') else 'Multistate'}\"{a}>" + "".join(self.sub.xml(o, f"m{i}.{j}") for i, j, o in s["el"]) + f"</{tag}>"

    def m_multistate(self, s):
        ns, n = len(self.wf["states"]), self.sub.size
        M = np.zeros((ns * n, ns * n), complex)
        B = {(i, j): self.sub.mat(o) for i, j, o in s["el"]}
        full = any(i != j and (j, i) in B for i, j in B)
        if not s.get("nonhermitian") and not full:
            for (i, j), m in list(B.items()):
                if i != j:
                    B[(j, i)] = m.conj().T
        for i in range(ns):
            if (i, i) not in B and s.get("unity"):
                B[(i, i)] = np.eye(n)
        for (i, j), m in B.items():
            M[i * n:(i + 1) * n, j * n:(j + 1) * n] = m
        return M

    # reference to an operator loaded before under a key
    def x_ref(self, s, tag):
        if s["key"] not in self.top.__dict__.setdefault("keys", {}):
            raise KeyError(s["key"])
        return f"<{tag} ref=\"{s['key']}\"/>"

    def m_ref(self, s):
        return self.mat(self.top.keys[s["key"]])


def write_wf(c, wid, name, fmt="stream"):
    c("fw.new", "F" + name, name)
    c("fw.format", "F" + name, fmt)
    c("fw.write", "F" + name, wid)
    c("fw.del", "F" + name)


def write_seq(c, wid, base, index, fmt="stream"):
    """One member of a wave function sequence."""
    c("fw.new", "F" + base, base)
    c("fw.format", "F" + base, fmt)
    c("fw.seq", "F" + base, 1)
    c("fw.counter", "F" + base, index)
    c("fw.write", "F" + base, wid)
    c("fw.del", "F" + base)


def load_op(c, ops, spec, psi, oid="O", laser=False):
    """Load an operator from input text and prepare it for psi the way the programs do."""
    c("op.load", oid, ops.xml(spec))
    if ops.clock:
        c("clock", float(ops.clock[0]), ops.clock[1], 0)
        c("op.clock", oid)
    c("op.ginit", oid, psi)
    if ops.clock:
        c("op.update", oid)
    return oid


def at_step(c, ops, t, oid="O"):
    """Move the clock to step t and tell the operator."""
    c("clock.step", t)
    ops.t = t
    c("op.update", oid)


def apply_to(c, op, src, spec, tmp="applied"):
    new_wf(c, tmp, spec)
    c("op.apply", op, tmp, src)
    return get(c, tmp)
