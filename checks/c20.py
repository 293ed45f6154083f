"""C20: generated Hamiltonians, guesses and options of the eigen program against direct diagonalisation: Ritz conditions and variational bounds of every diagonalised result, converged relaxation and restart, Krylov-space Ritz pairs, autocorrelation spectra and filtered states, own and stored propagations, invalid requests."""
import c19
from c19 import *

BUILD = [("opt", ["qdrv", "qdng"])]
BUDGET = 150
CM = 219475.0


def hmat(case, dt=1.0):
    o = Ops(Dry(), case["wf"], (dt, case["n"]))
    o.keys = {}
    M = o.mat(case["op"]) if "op" in case else sum(o.mat(s) for s in case["parts"])
    return (M + M.conj().T) / 2


def eigen_xml(case, p, extra="", **a):
    wf = '<wf file="init"/>'
    a = dict(dict(dt=float(p.dt), dir=case["dir"], fname=case["fname"], ename=case["ename"]), **a)
    return document(case, f"<eigen{xa(**a)}>{p.text}{wf}{extra}</eigen>")


def read_series(c, base, what, ctx):
    ks = sorted(series(c.s.cwd, base))
    ctx.check(ks == list(range(len(ks))), f"{what}: functions {ks} were written")
    out = []
    for k in ks:
        c("fw.new", "o", f"{base}_{k}")
        c("fw.readnew", "o", "w")
        out.append(get(c, "w"))
    return np.array(out).T if out else np.zeros((0, 0))


def read_energies(ctx, c, case, what):
    """The energy file; its columns have to belong together."""
    path = f"{c.s.cwd}/{where(case)}{case['ename'] or 'energy.dat'}"
    try:
        rows = [l.split("\t") for l in open(path).read().split("\n") if l]
    except OSError as e:
        ctx.fail(f"{what}: {e}")
    E = []
    for i, r in enumerate(rows):
        ctx.check(len(r) == (4 if i == 0 else 5) and r[0] == str(i), f"{what}: line {i} of the energy file is {r}")
        x = [float(t) for t in r[1:]]
        E.append(x[0])
        w = [x[0], x[0] * CM, (x[0] - E[0]) * CM] + ([(x[0] - E[i - 1]) * CM] if i else [])
        ctx.check(all(abs(a - b) <= 2.5e-3 + 5.1e-3 + 1e-9 * abs(b) for a, b in zip(x, w)), f"{what}: energy file line {r}: columns do not belong together ({w})")
    return np.array(E)


def printed(out, start):
    """index and energy columns of a printed table"""
    i = out.find(start)
    rows = []
    for l in out[i:].split("\n")[1:]:
        m = re.match(r"(\d+)\t(.*)", l)
        if not m:
            if rows and not l.strip():
                break
            continue
        rows.append(m[2].split("\t"))
    return rows if i >= 0 else None


def prepare(case, ctx, c, dt):
    p = Prop(ctx, c, case, dt)
    c("fw.new", "f", "init")
    c("fw.format", "f", case["fmt"])
    c("fw.write", "f", "psi")
    return p


def gram(p, V, H=None):
    w = metric(p.wf)[:, None]
    return V.conj().T @ (w * (V if H is None else H @ V))


names = dict(dir=st.sampled_from([None, "out", "a/b/"]), fname=st.sampled_from([None, None, "e-f"]), ename=st.sampled_from([None, None, "E.txt"]), fmt=st.sampled_from(["binary", "stream"]), odir=st.sampled_from([None, None, None, "over"]))


# ------------------------------------------------------------------ whatever was reached, the result solves the problem in its space
@st.composite
def ritz(draw):
    k = draw(pcase(fields=False, zmax=2))
    k.pop("start", 0)
    k.update({a: draw(s) for a, s in names.items()})
    N = wf_size(k["wf"])
    k["Nef"] = draw(st.integers(1, max(1, min(N - 1, 6))))
    k["steps"] = draw(st.one_of(st.integers(1, 6), st.integers(1, 60)))
    k["conv"] = draw(st.sampled_from([None, 1e-2, 1e-5, 1e-8, 1e-12]))
    k["diag"] = draw(st.sampled_from([None, True, True, False]))
    return k


def rest(p, H, w, dt, case, diag):
    """What the projection leaves of the guess at least in the last steps: rounding errors grow by its inverse."""
    e, Z = np.linalg.eigh(H)
    f = np.exp(-(e - e[0]) * dt)
    Q = np.zeros((len(e), 0), complex)
    g = Z.conj().T @ p.v
    g = g / np.linalg.norm(g)
    low = 1.0
    for i in range(case["Nef"]):
        x = g
        last = []
        for _ in range(case["steps"]):
            old, x = x, f * x
            n = np.linalg.norm(x)
            x = x - Q @ (Q.conj().T @ x)
            m = np.linalg.norm(x)
            if m < 1e-200:
                return 0.0
            last.append(m / n)
            x = x / m
            if abs(1 - np.vdot(old, x)) <= (case["conv"] or (1e-5 if diag else 1e-8)):
                break
        low = min(low, *last[-3:])
        x = x - Q @ (Q.conj().T @ x)
        Q = np.c_[Q, x / np.linalg.norm(x)]
    return low


def run_ritz(case, ctx):
    dt, r = setup(case, True)
    H = hmat(case)
    w = np.linalg.eigvalsh(H)
    span = max(w[-1] - w[0], abs(w).max(), 1e-3)
    with ctx.srv().case() as c:
        p = prepare(case, ctx, c, dt)
        what = f"relaxation with {case['prop']['t']}, {case['steps']} steps, conv {case['conv']}, Nef {case['Nef']}, diag {case['diag']} on {kind(case['wf'])} ({brief(case.get('op') or case['parts'])[:200]}, dt={dt:.4g})"
        diag = case["diag"] is not False
        left = rest(p, H, w, dt, case, diag)
        if left < 1e-6:
            return ctx.label("guess used up")
        o = run_qdng(ctx, c, case, eigen_xml(case, p, method=None if case["seed"] % 2 else "imag", Nef=case["Nef"], steps=case["steps"], conv=case["conv"], diag=case["diag"]), what)
        ctx.label(f"{case['prop']['t']} diag {case['diag']}")
        base = where(case) + (case["fname"] or "ef")
        V = read_series(c, base, what, ctx)
        ctx.check(V.shape[1:] == (case["Nef"],), f"{what}: {V.shape[1:]} functions")
        E = read_energies(ctx, c, case, what)
        ctx.check(len(E) == case["Nef"], f"{what}: {len(E)} energies")
        S = gram(p, V)
        e = err(S, np.eye(len(E)))
        ctx.check(e <= 1e-14 / left + 1e-9, f"{what}: the functions are not orthonormal ({e:.3g}, {left:.2g} of the guess left)")
        h = gram(p, V, H)
        e = err(np.diag(h).real, E)
        ctx.check(e <= 6e-9 + 1e-9 * span, lambda: f"{what}: energies {E} but the functions have {np.diag(h).real}")
        if diag:
            off = np.abs(h - np.diag(np.diag(h))).max()
            ctx.check(off <= 1e-8 * span, f"{what}: the functions do not diagonalise the Hamiltonian: off-diagonal {off:.3g}")
            ctx.check(np.all(np.diff(E) >= -1e-7), f"{what}: energies {E} are not in ascending order")
            ctx.check(np.all(E >= w[:len(E)] - 1e-8 - 1e-9 * span), lambda: f"{what}: energies {E} below the exact ones {w[:len(E)]}")
        else:
            ctx.check(E.min() >= w[0] - 1e-8 - 1e-9 * span, lambda: f"{what}: energy {E.min()} below the lowest one {w[0]}")
        t = printed(o.out, "EF\tE [au]" if diag else "EF\tNt\tEnergy")
        ctx.check(t is not None and len(t) == len(E), lambda: f"{what}: {t and len(t)} lines printed")
        ctx.check(all(abs(float(x[0 if diag else 1]) - y) <= 1.1e-8 for x, y in zip(t, E)), lambda: f"{what}: prints {t} but writes {E}")
        t = printed(o.out, "EF\tNt\tEnergy")
        for x in t:
            ctx.check(1 <= int(x[0]) <= case["steps"], f"{what}: {x[0]} steps reported")
            conv = case["conv"] or (1e-5 if diag else 1e-8)
            ctx.check(int(x[0]) == case["steps"] or float(x[2]) <= conv * 1.01, f"{what}: stopped after {x[0]} steps at {x[2]}, before the convergence {conv}")


# ------------------------------------------------------------------ converged relaxation finds the lowest pairs
@st.composite
def conv(draw):
    t = draw(st.sampled_from(["Cheby", "SIL", "Arnoldi", "RK4"]))
    wf = draw(pwf(maxpts=12))
    k = dict(wf=wf, clock=False, n=8, op=draw(ham(wf)), seed=draw(seeds), style="gauss", plan="estimate", prop=dict(t=t), norm=draw(st.sampled_from([1.0, 3.0])))
    k.update({a: draw(s) for a, s in names.items()})
    k["Nef"] = draw(st.integers(1, 5))
    k["diag"] = draw(st.booleans())
    k["g"] = draw(flt(0.5, 1.5))
    k["restart"] = draw(st.one_of(st.none(), st.integers(1, 4)))
    return k


def conv_setup(case):
    """Time step from the gaps; the number of functions that can be separated."""
    r = Ranges(case)
    w, Z = np.linalg.eigh(hmat(case))
    t = case["prop"]["t"]
    if len(w) < 2:
        return None
    n = min(case["Nef"], len(w) - 1)
    while n > 0:
        gap = np.diff(w[:n + 1]).min()
        dt = case["g"] / max(gap, 1e-12)
        lim = min(7 / max(r.R, 1e-3), 12 / max(w[n - 1] - w[0], 1e-3))    # nothing may be lost to rounding
        if t == "RK4":
            lim = 1.2 / r.N
        dt = min(dt, lim)
        if gap * dt >= (0.02 if t == "RK4" else 0.1) and gap > 1e-3:
            break
        n -= 1
    if n <= 0:
        return None
    if t == "Cheby":
        cheby_range(case, r)
        case["prop"]["prec"] = 1e-30
    if t in ("SIL", "Arnoldi"):
        case["prop"]["order"] = 30
    return n, dt, gap, w, Z


def run_conv(case, ctx):
    s = conv_setup(case)
    if s is None:
        return ctx.label("gaps too small")
    n, dt, gap, w, Z = s
    H = hmat(case)
    span = max(w[-1] - w[0], abs(w).max())
    t = case["prop"]["t"]
    with ctx.srv().case() as c:
        p = prepare(case, ctx, c, dt)
        # every wanted state has to be in the guess
        cf = np.abs(Z[:, :n + 1].conj().T @ p.v) / np.linalg.norm(p.v)
        if cf.min() < 1e-2:
            return ctx.label("guess without one of the states")
        what = f"converged relaxation with {t} of {n} functions, diag {case['diag']}, on {kind(case['wf'])} ({brief(case['op'])[:200]}, dt={dt:.4g}, gap {gap:.3g}, span {span:.3g})"
        cv = 1e-13
        a = dict(method="imag", steps=3000, conv=cv, diag=case["diag"])
        q = case["restart"]
        if q and q < n:
            # an aborted run: only the first functions were obtained
            run_qdng(ctx, c, case, eigen_xml(case, p, **dict(a, Nef=q, diag=False)), what)
            run_qdng(ctx, c, case, eigen_xml(case, p, **a, Nef=n, start=q), what)
            what += f", restarted at {q}"
        else:
            run_qdng(ctx, c, case, eigen_xml(case, p, **a, Nef=n), what)
        ctx.label(f"{t}{' restart' if q and q < n else ''}")
        V = read_series(c, where(case) + (case["fname"] or "ef"), what, ctx)
        ctx.check(V.shape[1:] == (n,), f"{what}: {V.shape[1:]} functions")
        E = read_energies(ctx, c, case, what)
        rate = 1 - np.exp(-gap * dt)
        eps = min(1e-2, 20 * np.sqrt(2 * cv) / rate)
        e = err(E, w[:n])
        ctx.check(e <= 1e-8 + span * (eps ** 2 * 10 + 1e-9), lambda: f"{what}: energies {E} instead of {w[:n]} (allowed {1e-8 + span * eps ** 2 * 10:.2g})")
        ctx.check(np.all(np.diff(E) >= -1e-8), f"{what}: energies {E} not in ascending order")
        S = gram(p, V)
        ctx.check(err(S, np.eye(n)) <= 1e-8, f"{what}: not orthonormal ({err(S, np.eye(n)):.3g})")
        m = np.sqrt(metric(case["wf"])[0])
        R = np.linalg.norm((H @ V - V * E) * m, axis=0)
        ctx.check(R.max() <= 1e-7 + eps * span, lambda: f"{what}: the functions are no eigenfunctions: |H psi - E psi| = {R} (allowed {eps * span:.2g})")


# ------------------------------------------------------------------ Lanczos
@st.composite
def lanczos(draw):
    wf = draw(pwf(maxpts=16))
    k = dict(wf=wf, clock=False, n=8, op=draw(ham(wf)), seed=draw(seeds), style="gauss", plan="estimate", norm=draw(st.sampled_from([1.0, 0.2, 7.0])))
    k["prop"] = dict(t="Arnoldi", order=draw(st.integers(3, 24)), conv=1e-300)
    k.update({a: draw(s) for a, s in names.items()})
    k["diag"] = draw(st.sampled_from([None, True, False]))
    if draw(st.integers(0, 4)) == 0:
        k["start"], k["neig"] = "eig", draw(st.integers(1, 3))
    return k


def krylov(H, v, m):
    Q = [v / np.linalg.norm(v)]
    beta = []
    for _ in range(m - 1):
        u = H @ Q[-1]
        for _ in range(2):
            for q in Q:
                u = u - q * np.vdot(q, u)
        b = np.linalg.norm(u)
        beta.append(b)
        if b < 1e-8 * np.linalg.norm(H, 2):
            break
        Q.append(u / b)
    return np.array(Q).T, beta


def closing(H, v, m):
    """Plain Gram-Schmidt iteration: residual norms relative to those of the vectors; loss of orthogonality."""
    Q = [v / np.linalg.norm(v)]
    r = []
    for _ in range(m):
        u = H @ Q[-1]
        h = np.linalg.norm(u)
        for q in Q:
            u = u - q * np.vdot(q, u)
        b = np.linalg.norm(u)
        r.append(b / max(h, 1e-300))
        if b == 0:
            break
        Q.append(u / b)
    Q = np.array(Q[:m]).T
    return r, np.abs(Q.conj().T @ Q - np.eye(Q.shape[1])).max()


def run_lanczos(case, ctx):
    H = hmat(case)
    w = np.linalg.eigvalsh(H)
    span = max(w[-1] - w[0], abs(w).max(), 1e-3)
    with ctx.srv().case() as c:
        p = prepare(case, ctx, c, 1.0)
        what = f"Lanczos of order {case['prop']['order']} on {kind(case['wf'])} with {len(w)} points ({brief(case['op'])[:200]})"
        o = run_qdng(ctx, c, case, eigen_xml(case, p, method="lanczos", diag=case["diag"]), what)
        V = read_series(c, where(case) + (case["fname"] or "ef"), what, ctx)
        E = read_energies(ctx, c, case, what)
        n = len(E)
        ctx.check(1 <= n <= case["prop"]["order"] and V.shape[1:] == (n,), f"{what}: {n} energies, {V.shape[1:]} functions")
        Q, beta = krylov(H, p.v, case["prop"]["order"])
        if n > Q.shape[1]:
            # the end of the space is seen as long as rounding errors have not covered it
            m = closing(H, p.v, Q.shape[1])[0][-1]
            ctx.check(m > 1e-12, f"{what}: {n} functions although the space has {Q.shape[1]} dimensions")
            return ctx.label("rounding errors")
        bmin = min(beta[:n - 1] or [span]) / span
        ctx.label("all" if n == len(w) else "subspace" if n == case["prop"]["order"] else "closed")
        if Q.shape[1] > n:
            # only a closed search space may end the iteration early
            ctx.check(beta[n - 1] <= 1e-6 * span, f"{what}: only {n} functions although the space has at least {Q.shape[1]} dimensions")
        if bmin > 1e-4 and Q.shape[1] >= n:
            Q = Q[:, :n]
            R = np.linalg.eigvalsh(Q.conj().T @ H @ Q)
            d = err(np.sort(E), R)
            ctx.check(d <= 2e-8 + (1e-8 + 1e4 * closing(H, p.v, n)[1]) * span, lambda: f"{what}: energies {np.sort(E)} are not the Ritz values {R} of the Krylov space")
        if bmin > 1e-4:
            S = gram(p, V)
            lost = closing(H, p.v, n)[1]
            ctx.check(err(S, np.eye(n)) <= 1e-8 + 1e4 * lost, f"{what}: not orthonormal ({err(S, np.eye(n)):.3g})")
            h = gram(p, V, H)
            ctx.check(err(np.diag(h).real, E) <= 1e-8 + (1e-8 + 1e4 * lost) * span, lambda: f"{what}: energies {E} but the functions have {np.diag(h).real}")
            if case["diag"] is not False:
                ctx.check(np.all(np.diff(E) >= -1e-8), f"{what}: energies {E} not in ascending order")


# ------------------------------------------------------------------ autocorrelation
@st.composite
def ac(draw):
    wf = draw(pwf(maxpts=10, multi=4))
    t = draw(st.sampled_from(["Cheby", "SIL", "Arnoldi"]))
    k = dict(wf=wf, clock=False, n=8, op=draw(ham(wf)), seed=draw(seeds), style="gauss", plan="estimate", norm=1.0, prop=dict(t=t))
    k.update({a: draw(s) for a, s in names.items()})
    k["steps"] = draw(st.sampled_from([128, 200, 256, 333, 512]))
    k["m"] = draw(st.integers(1, 4))
    k["u"] = [draw(flt(0.65, 1)) for _ in range(4)]
    k["z"] = draw(flt(0.4, 0.9))
    k["win"] = draw(st.sampled_from([None, True]))
    k["width"] = draw(st.one_of(st.none(), st.integers(20, 40)))
    k["read"] = draw(st.sampled_from([None, None, "dir", "dir/", "base"]))
    k["wcycle"] = draw(st.integers(1, 3))
    k["order"] = draw(seeds)
    return k


def run_ac(case, ctx):
    H = hmat(case)
    w, Z = np.linalg.eigh(H)
    N = case["steps"]
    t = case["prop"]["t"]
    top = max(abs(w).max(), 1e-6)
    dt = case["z"] * np.pi / top
    wc = case["wcycle"] if case["read"] else 1
    case = dict(case, first=0, opt={})
    r = Ranges(case)
    if r.R * dt > 20:
        return ctx.label("range")
    if t == "Cheby":
        cheby_range(case, r)
        case["prop"]["prec"] = 1e-26
    else:
        case["prop"]["order"] = 40
    dt /= wc
    bins = w * dt * wc * N / (2 * np.pi)
    # well separated eigenvalues, away from zero and the end of the axis
    ks = []
    for k in np.random.RandomState(case["order"] & 0xFFFF).permutation(len(w)):
        if abs(bins[k]) >= 8 and abs(bins[k]) < N / 2 - 8 and all(abs(bins[k] - bins[j]) >= 8 for j in range(len(w)) if j in ks) and len(ks) < case["m"]:
            ks.append(k)
    if not ks:
        return ctx.label("no separated eigenvalues")
    v = sum(Z[:, k] * np.sqrt(u) * np.exp(1j * u * 50) for k, u in zip(ks, case["u"]))
    with ctx.srv().case() as c:
        p = Prop(ctx, c, case, dt)
        v = v / p.norm(v)
        put_again(c, Sim.at(type("S", (), dict(p=p))(), v))
        c("fw.new", "f", "init")
        c("fw.format", "f", case["fmt"])
        c("fw.write", "f", "psi")
        what = f"autocorrelation with {t}, {N} steps, {len(ks)} eigenvalues, win {case['win']}, width {case['width']}, read {case['read']} (write cycle {wc}) on {kind(case['wf'])} ({brief(case['op'])[:150]}, dt={dt:.4g})"
        a = dict(method="ac", win=case["win"], width=case["width"])
        if case["read"]:
            k1 = dict(case, n=(N - 1) * wc, dir=None, fname=None, odir=None)
            run_qdng(ctx, c, k1, document(k1, propa_xml(k1, p, "", dir="prop", fname="psi")), what)
            # the input's own time step is of no importance where the metadata is used
            a.update(read={"dir": "prop", "dir/": "prop/", "base": "prop/psi"}[case["read"]], dt=float(dt * wc) if case["read"] == "base" else 1.2345)
            ctx.label("read " + case["read"])
        else:
            a["steps"] = N
            ctx.label("own propagation")
        o = run_qdng(ctx, c, case, eigen_xml(case, p, **a), what)
        V = read_series(c, where(case) + (case["fname"] or "ef"), what, ctx)
        E = read_energies(ctx, c, case, what)
        T = dt * wc
        s = np.arange(N)
        ph = np.exp(-1j * np.outer(w[ks], s) * T)                          # of the eigenstates
        cs = np.array([np.vdot(Z[:, k], v) for k in ks])
        corr = (np.abs(cs[:, None]) ** 2 * ph).sum(0) * metric(case["wf"])[0]
        check_spec(ctx, f"{c.s.cwd}/{where(case)}spectrum.dat", corr * (1 if case["win"] is False else hann(N)), T, what, 2e-5)
        order = sorted(ks, key=lambda k: bins[k] % N)
        ctx.check(V.shape[1:] == (len(E),), lambda: f"{what}: {len(E)} energies, {V.shape[1:]} functions")
        if case["width"]:
            # side lobes of one line stand out of their own surroundings
            ctx.check(len(E) >= len(ks), lambda: f"{what}: {len(E)} eigenvalues found at {E}, there are {w[order]}")
        else:
            pick = range(len(order))
            ctx.check(len(E) == len(ks), lambda: f"{what}: {len(E)} eigenvalues found at {E}, there are {w[order]}")
        def filtered(k, g):
            best = 2.0
            for b in (np.floor(bins[k]), np.ceil(bins[k])):
                f = (Z[:, ks] * (cs * (np.exp(1j * 2 * np.pi * b / N * s)[None, :] * ph).sum(1))).sum(1)
                f = f / p.norm(f)
                best = min(best, p.norm(f - g))
            return best

        if case["width"]:
            pick = [int(np.argmin([filtered(k, g) for g in V.T])) for k in order]
        for i, k in zip(pick, order):
            ctx.check(abs(E[i] - w[k]) <= 0.2 * 2 * np.pi / (T * N) * 8, lambda: f"{what}: energy {i} is {E[i]} instead of {w[k]}")
            d = filtered(k, V[:, i])
            ctx.check(d <= 1e-5, f"{what}: function {i} is not the state filtered at {w[k]} (deviation {d:.3g})")
        for i, g in enumerate(V.T):
            n = p.norm(g)
            ctx.check(abs(n - 1) <= 1e-8, f"{what}: function {i} has the norm {n}")
            h = (np.vdot(g, metric(case["wf"]) * (H @ g))).real
            ctx.check(abs(h - E[i]) <= 6e-9 + 1e-8 * top, f"{what}: energy {E[i]} but the function has {h}")


def hann(n):
    return 0.5 * (1 - np.cos(2 * np.pi * np.arange(n) / (n - 1)))


def check_spec(ctx, path, s, dt, what, tol=1e-5):
    n = len(s)
    try:
        d = np.array([[float(x) for x in l.split()] for l in open(path)])
    except (OSError, ValueError) as e:
        ctx.fail(f"{what}: spectrum: {e}")
    ctx.check(d.shape == (n, 4), f"{what}: spectrum has the shape {d.shape}")
    om = 2 * np.pi / (dt * n) * np.array([i if i < n // 2 else i - n for i in range(n)])
    ctx.check(np.all(np.abs(d[:, 0] - om) <= 1e-5 * np.abs(om)), lambda: f"{what}: frequencies {d[:4, 0]}.. instead of {om[:4]}..")
    ok = False
    for x in (s, s.conj()):
        S = np.fft.fft(x) / (n // 2)
        sc = np.abs(S).max() + 1e-300
        ok |= all(np.all(np.abs(a - b) <= tol * np.abs(b) + tol / 2 * sc) for a, b in ((d[:, 1], np.abs(S)), (d[:, 2], S.real), (d[:, 3], S.imag)))
    ctx.check(ok, lambda: f"{what}: the spectrum is not the transform of the correlation function: {d[:, 1][:6]} instead of {np.abs(S)[:6]}")


# ------------------------------------------------------------------ invalid requests
BADE = {
    "unknown method": dict(method="magic"), "no dt": dict(dt=None), "Nef 0": dict(Nef=0), "Nef -2": dict(Nef=-2), "start -1": dict(start=-1), "start behind Nef": dict(Nef=2, start=3), "conv 2": dict(conv=2.0),
    "steps 0": dict(steps=0), "steps -1": dict(steps=-1), "restart without files": dict(Nef=3, start=2), "lanczos with another propagator": dict(method="lanczos"), "ac tol < 0": dict(method="ac", tol=-1.0),
    "ac width < 0": dict(method="ac", width=-2.0), "ac of nothing": dict(method="ac", read="nowhere"), "ac of an empty directory": dict(method="ac", read="void/"), "empty": "e", "no wave function": "w", "no propagator": "p", "missing guess": "f",
}


@st.composite
def refuse(draw):
    k = draw(pcase(fields=False, props=["Cheby", "SIL", "RK4", "GSPO"], zmax=1))
    k.update({a: draw(s) for a, s in names.items()})
    k["bad"] = draw(st.sampled_from(sorted(BADE)))
    return k


def run_refuse(case, ctx):
    dt, r = setup(case)
    with ctx.srv().case() as c:
        p = prepare(case, ctx, c, dt)
        os.mkdir(c.s.cwd + "/void")
        b = BADE[case["bad"]]
        x = eigen_xml(case, p, **dict(dict(Nef=2, steps=4), **(b if isinstance(b, dict) else {})))
        if not isinstance(b, dict):
            x = {"e": lambda: re.sub(r"(<eigen[^>]*>).*</eigen>", r"\1</eigen>", x, flags=re.S), "w": lambda: x.replace('<wf file="init"/>', ""), "p": lambda: x.replace(p.text, ""), "f": lambda: x.replace('file="init"', 'file="nix"')}[b]()
        ctx.label(case["bad"])
        run_qdng(ctx, c, case, x, f"eigen with {case['bad']}", ok=False)
        ctx.check(not os.path.exists(f"{c.s.cwd}/{where(case)}{case['ename'] or 'energy.dat'}"), f"eigen with {case['bad']}: writes energies")


SUBS = [
    Sub("ritz", ritz(), run_ritz, (300, 4000), lambda k: k["Nef"] > 1, "several functions"),
    Sub("converged", conv(), run_conv, (200, 3000), lambda k: k["Nef"] > 1, "several functions"),
    Sub("lanczos", lanczos(), run_lanczos, (200, 3000), lambda k: wf_size(k["wf"]) > 2, "more than two points"),
    Sub("autocorrelation", ac(), run_ac, (200, 3000), lambda k: k["m"] > 1, "several eigenvalues"),
    Sub("refuse", refuse(), run_refuse, (60, 600), lambda k: True, "every request is invalid"),
]
