"""C19: generated propagation runs (Hamiltonian, field, propagator, direction, step number, write cycle, start, reporting options, filters) of the program compared with stepping the propagator through the library: every file written, the metadata, the table, the spectrum and the filter tables; restarts, other write cycles and options, and runs that break down."""
import os, re

import filt
from c18 import *
from filt import Chain, chain, chain_xml, compare_table, numbers, CPLX

BUILD = [("opt", ["qdrv", "qdng"])]
BUDGET = 150


@st.composite
def options(draw):
    o = {}
    for k, p in (("norm", 4), ("energy", 4), ("proj0", 2), ("proj0Abs", 3), ("scinorm", 4), ("spectrum", 3), ("nfile", 5), ("win", 2)):
        if draw(st.integers(0, p)) == 0:
            o[k] = {"spectrum": "spec.dat", "nfile": "norm.dat"}.get(k) or draw(st.booleans())
    return o


@st.composite
def rcase(draw, filters=3, back=3, start=True):
    k = draw(pcase())
    n = draw(st.one_of(st.integers(1, 8), st.integers(1, 24)))
    k["n"] = n
    k["z"] = min(k["z"], 2.0)
    k["plan"] = "estimate"
    if not k["clock"] and draw(st.integers(0, back)) == 0:
        k["back"] = True
    k["wcycle"] = draw(st.one_of(st.none(), st.integers(1, 4), st.integers(1, n + 2)))
    wc = k["wcycle"] or 10
    k["first"] = draw(st.integers(0, n // wc + 1)) if start and draw(st.integers(0, 2)) == 0 else 0
    k["fname"] = draw(st.sampled_from([None, None, "P", "psi_t", "a.b"]))
    k["dir"] = draw(st.sampled_from([None, "out", "out/", "x/y"]))
    k["odir"] = draw(st.sampled_from([None, None, None, "over", "o/p/"]))
    k["fmt"] = draw(st.sampled_from(["binary", "stream"]))
    k["opt"] = draw(options())
    ck = (1.0, n) if k["clock"] else None
    if filters:
        for s, p in (("filterinit", 3), ("filterpre", 2), ("filterpost", 2)):
            if draw(st.integers(0, p)) == 0:
                k[s] = dict(c=draw(chain(k["wf"], ck, change=True, depth=1)), renorm=draw(st.sampled_from([None, None, True, False])), fname=draw(st.booleans()))
    return k


def section(k, s, ops, **attr):
    if s not in k:
        return ""
    f = k[s]
    return chain_xml(ops, f["c"], s, renorm=f["renorm"], fname=f"{s}.tab" if f["fname"] else None)


class Sim:
    """The run through the library, with the filters applied by the reference."""
    def __init__(self, p, case, ctx, v0=None, first=None):
        self.p, self.case = p, case
        c, ops = p.c, p.ops
        dt = p.dt
        self.wc = case["wcycle"] or 10
        self.first = case["first"] if first is None else first
        t = (self.first - 1) * self.wc if self.first else 0
        self.t0 = t
        v = p.v if v0 is None else v0
        self.ch = {}
        for s, d in (("filterinit", False), ("filterpre", True), ("filterpost", True)):
            if s in case:
                r = case[s]["renorm"]
                self.ch[s] = Chain(ops, case[s]["c"], d if r is None else r)
        if t:
            p.goto(t)
        if "filterinit" in self.ch:
            v = self.ch["filterinit"].apply(v, t * dt, dt)
        self.lost = False
        self.v0 = v
        put_again(c, self.at(v))
        p.init()
        self.files = {} if self.first else {0: v}
        self.rows = []
        self.energy0 = self.energy(v)
        while p.t < case["n"]:
            i = p.t
            if "filterpre" in self.ch:
                v = self.ch["filterpre"].apply(v, i * dt, dt)
            self.rows.append((i, v, self.energy(v), np.vdot(v, metric(p.wf) * self.v0)))
            if not self.fine(v):
                return
            put_again(c, self.at(v))
            p.step()
            v = get(c, "psi")
            p.tick()
            if "filterpost" in self.ch:
                v = self.ch["filterpost"].apply(v, p.t * dt, dt)
            if not self.fine(v):
                return
            if p.t % self.wc == 0:
                self.files[p.t // self.wc] = v

    def at(self, v):
        self.p.v = v
        return self.p

    def energy(self, v):
        H = self.p.H()
        return np.vdot(v, metric(self.p.wf) * (H @ v)).real, np.abs(H).sum(axis=1).max() * self.p.norm(v) ** 2

    def fine(self, v):
        """Neither vanished nor blown up, so that the comparison has a meaning."""
        n = self.p.norm(v)
        if not 1e-5 < n < 1e5:
            self.lost = True
        return not self.lost


def propa_xml(case, p, extra="", wf='<wf file="init"/>', **kw):
    o = dict(case["opt"])
    a = dict(dt=float(p.dt), steps=case["n"], wcycle=case["wcycle"], start=case["first"] or None, dir=case["dir"], fname=case["fname"], **o)
    a.update(kw)
    return f'<propa{xa(**a)}>{p.text}{wf}{extra}</propa>'


def document(case, body):
    return f'<?xml version="1.0"?>\n<qdng wf_format="{case["fmt"]}" fftwOptimize="false">{body}</qdng>'


def write_init(c, case, name="init", v=None):
    if v is not None:
        new_wf(c, "w0", case["wf"])
        put(c, "w0", case["wf"], v)
    c("fw.new", "f", name)
    c("fw.format", "f", case["fmt"])
    c("fw.write", "f", "psi" if v is None else "w0")


def where(case):
    d = case["odir"] or case["dir"] or ""
    return d if not d or d.endswith("/") else d + "/"


def series(cwd, base):
    """Numbers of the wave functions written under this name."""
    d, b = os.path.split(base)
    try:
        l = os.listdir(os.path.join(cwd, d))
    except OSError:
        return set()
    return {int(m[1]) for f in l for m in [re.fullmatch(re.escape(b) + r"(?:-\d+)?_(\d+)\.wf", f)] if m}


def stepped_tol(case):
    return 1e-9


def table(ctx, text, what):
    lines = text.split("\n")
    try:
        i = next(j for j, l in enumerate(lines) if l.startswith("Step\tTime"))
    except StopIteration:
        return [], []       # no step is done
    rows = []
    for l in lines[i + 1:]:
        if re.match(r"\d+ step done", l):
            break
        if re.match(r"-?\d+\t", l):      # warnings may stand in between
            rows.append(l)
    return lines[i].split("\t"), rows


def digits(tok):
    """Half a unit of the last digit printed."""
    m = re.fullmatch(r"[-+]?\d+(?:\.(\d*))?(?:e([-+]?\d+))?", tok)
    if not m:
        return float("nan")
    return 0.5001 * 10.0 ** (int(m[2] or 0) - len(m[1] or ""))


def check_table(ctx, text, case, sim, dt, what):
    o = case["opt"]
    head, rows = table(ctx, text, what)
    w = metric(case["wf"])
    norm, energy = o.get("norm", True), o.get("energy", True)
    proj = o.get("proj0", False) or o.get("proj0Abs", False) or "spectrum" in o
    multi = case["wf"]["k"] == "multi"
    ctx.check(len(rows) == len(sim.rows), f"{what}: {len(rows)} rows for {len(sim.rows)} steps")
    conj = None
    for l, (i, v, (e, esc), pr) in zip(rows, sim.rows):
        t = [x for x in l.split("\t") if x]
        want = [("step", i, 0, 0), ("time", i * dt, 1e-9 * abs(i * dt), 0.1)]
        if norm:
            pops = [v] + (list(v.reshape(len(case["wf"]["states"]), -1)) if multi else [])
            for q, u in enumerate(pops):
                n = float((w[:len(u)] * np.abs(u) ** 2).sum())
                want.append((f"population {q - 1}" if q else "population", n, 1e-9 * n, 1e-6))
        if energy:
            want.append(("energy", e, 2e-9 * esc, 1e-8))
        if proj:
            sc = float(np.sqrt((w * np.abs(v) ** 2).sum() * (w * np.abs(sim.v0) ** 2).sum()))
            want.append(("projection", abs(pr) ** 2 if o.get("proj0Abs") else pr, 2e-9 * (sc ** 2 if o.get("proj0Abs") else sc), 0))
        ctx.check(len(t) == len(want), lambda: f"{what}, row {l!r}: {len(t)} columns instead of {len(want)} ({[x[0] for x in want]})")
        for tok, (nm, x, tol, _) in zip(t, want):
            if isinstance(x, complex):
                m = CPLX.fullmatch(tok)
                ctx.check(m, f"{what}, row {l!r}: {tok} is not a complex number")
                g = [float(m[1]), float(m[2])]
                lim = [tol + digits(m[1]), tol + digits(m[2])]
                # printed as <Psi0|PsiT>; one convention for all rows
                ok = [s for s in (1, -1) if abs(g[0] - x.real) <= lim[0] and abs(g[1] - s * x.imag) <= lim[1]]
                conj = set(ok) if conj is None else conj & set(ok)
                ctx.check(conj, f"{what}, step {i}: projection {tok} instead of {x.conjugate()}")
            else:
                g = float(tok)
                ctx.check(abs(g - x) <= tol + digits(tok), lambda: f"{what}, step {i}: {nm} {tok} instead of {x:.12g}")


def check_spectrum(ctx, path, case, sim, dt, what):
    o, n = case["opt"], case["n"]
    if n < 4 or sim.first:
        return
    s = np.array([r[3] for r in sim.rows])
    if o.get("proj0Abs"):
        s = np.abs(s) ** 2 + 0j
    if o.get("win", True):
        s = s * 0.5 * (1 - np.cos(2 * np.pi * np.arange(n) / (n - 1)))
    from c20 import check_spec
    check_spec(ctx, path, s, dt, what)


def check_files(ctx, c, case, base, files, what, tol, meta=None):
    have = series(c.s.cwd, base)
    ctx.check(have == set(files), f"{what}: wave functions {sorted(have)} were written instead of {sorted(files)}")
    w = metric(case["wf"])
    for k, v in sorted(files.items()):
        c("fw.new", "o", f"{base}_{k}")
        c("fw.readnew", "o", "w")
        g = get(c, "w")
        ctx.check(len(g) == len(v), f"{what}: file {k} has {len(g)} amplitudes")
        e = float(np.sqrt((w * np.abs(g - v) ** 2).sum()))
        n = float(np.sqrt((w * np.abs(v) ** 2).sum()))
        ctx.check(e <= tol * n + 1e-300, f"{what}: wave function {k} deviates from the trajectory by {e:.3g} (norm {n:.3g})")


def read_meta(path):
    m = {}
    try:
        for l in open(path):
            k, _, v = l.partition("=")
            m[k.strip()] = v.strip().strip('"')
    except OSError:
        pass
    return m


def prepare(case, ctx, c):
    if case["wf"]["k"] == "multi":
        ctx.label("multistate")
    dt, r = setup(case)
    if case.get("back"):
        dt = -dt
    p = Prop(ctx, c, case, dt)
    return p, dt


def run_qdng(ctx, c, case, doc, what, ok=True):
    open(c.s.cwd + "/in.xml", "w").write(doc)
    r = run("qdng", (["-d", case["odir"]] if case["odir"] else []) + ["in.xml"], c.s.cwd, "opt")
    ctx.check(not r.crashed and r.ok == ok, lambda: f"{what}: exit status {r.rc}: {rtail(r)}")
    return r


def tag(case):
    return f"{case['prop']['t']} run of {case['n']} steps, dt={'-' if case.get('back') else ''}, write cycle {case['wcycle']}, start {case['first']} on {kind(case['wf'])} ({brief(case.get('op') or case['parts'])[:200]})"


def outputs(ctx, c, case, p, sim, r, what):
    d = where(case)
    base = d + (case["fname"] or "WF")
    check_files(ctx, c, case, base, sim.files, what, stepped_tol(case))
    check_meta(ctx, c, d, case, p.dt, what)
    o = case["opt"]
    text = r.out
    if "nfile" in o:
        ctx.check("Step\tTime" not in r.out, f"{what}: the table is printed although it goes to a file")
        text = open(c.s.cwd + "/" + d + o["nfile"]).read()
    check_table(ctx, text, case, sim, p.dt, what)
    m = re.search(r"Initial energy: (\S+)", r.out)
    ctx.check(m and abs(float(m[1]) - sim.energy0[0]) <= 2e-9 * sim.energy0[1] + digits(m[1]), lambda: f"{what}: initial energy {m and m[1]} instead of {sim.energy0[0]:.8g}")
    if "spectrum" in o:
        check_spectrum(ctx, c.s.cwd + "/" + d + o["spectrum"], case, sim, p.dt, what)
    for s, n in (("filterinit", "expec_init.dat"), ("filterpre", "expec_pre.dat"), ("filterpost", "expec_post.dat")):
        if s in case and filt.writes(case[s]["c"]):
            f = c.s.cwd + "/" + (f"{s}.tab" if case[s]["fname"] else d + n)
            ctx.check(os.path.exists(f), f"{what}: {s} writes no table")
            compare_table(ctx, open(f).read(), sim.ch[s], f"{what}: {s}")


def check_meta(ctx, c, d, case, dt, what):
    m = read_meta(c.s.cwd + "/" + d + "Propagation.meta")
    want = dict(CLASS="Propagation", WFBaseName=case["fname"] or "WF", Wcycle=str(case["wcycle"] or 10), Nt=str(case["n"]))
    for k, v in want.items():
        ctx.check(m.get(k) == v, f"{what}: metadata {k} is {m.get(k)!r} instead of {v!r}")
    ctx.check(abs(float(m.get("dt", "nan")) - dt) <= 1e-12 * abs(dt), f"{what}: metadata says dt = {m.get('dt')} instead of {dt}")


def run_traj(case, ctx):
    with ctx.srv().case() as c:
        p, dt = prepare(case, ctx, c)
        write_init(c, case)
        extra = "".join(section(case, s, p.ops) for s in ("filterinit", "filterpre", "filterpost"))
        doc = document(case, propa_xml(case, p, extra))
        sim = Sim(p, case, ctx)
        if sim.lost:
            return
        what = tag(case)
        ctx.label(("start " if case["first"] else "") + ("back " if case.get("back") else "") + "+".join(s[6:] for s in sim.ch))
        r = run_qdng(ctx, c, case, doc, what)
        outputs(ctx, c, case, p, sim, r, what)


# ------------------------------------------------------------------ restart
@st.composite
def restart(draw):
    k = draw(rcase(filters=0, start=False))
    k["n"] = draw(st.integers(2, 24))
    k["wcycle"] = draw(st.integers(1, max(1, k["n"] // 2)))
    k["at"] = draw(st.integers(1, k["n"] // k["wcycle"]))
    for s in ("filterpre", "filterpost"):
        if draw(st.integers(0, 2)) == 0:
            k[s] = dict(c=[f for f in draw(chain(k["wf"], (1.0, k["n"]) if k["clock"] else None, depth=1)) if not f.get("int")] or [dict(a="normalize")], renorm=draw(st.sampled_from([None, True, False])), fname=False)
    for o in ("spectrum", "nfile", "proj0", "proj0Abs"):
        k["opt"].pop(o, 0)
    k["odir"] = None
    k["samedir"] = draw(st.booleans())
    return k


def run_restart(case, ctx):
    """The continued run writes the files and rows of the run it continues."""
    k, wc = case["at"], case["wcycle"]
    with ctx.srv().case() as c:
        p, dt = prepare(case, ctx, c)
        write_init(c, case)
        extra = "".join(section(case, s, p.ops) for s in ("filterpre", "filterpost"))
        what = tag(case)
        short = dict(case, n=k * wc)
        ctx.label("last" if (k + 1) * wc > case["n"] else "middle")
        a = run_qdng(ctx, c, case, document(case, propa_xml(case, p, extra, dir="A")), what)
        fn = case["fname"] or "WF"
        exts = {}
        for s, f in (("filterpre", "expec_pre.dat"), ("filterpost", "expec_post.dat")):
            if s in case and filt.writes(case[s]["c"]):
                exts[f] = open(f"{c.s.cwd}/A/{f}").read().split("\n")
        if any(float(np.linalg.norm(v)) < 1e-5 for v in [p.v]):
            return
        vs = {}
        for q in sorted(series(c.s.cwd, "A/" + fn)):
            c("fw.new", "o", f"A/{fn}_{q}")
            c("fw.readnew", "o", "w")
            vs[q] = get(c, "w")
        if any(not (1e-5 < p.norm(v) < 1e5) for v in vs.values()):
            return
        d = "A" if case["samedir"] else "B"
        b = run_qdng(ctx, c, case, document(case, propa_xml(case, p, extra, dir=d, start=k + 1, wf=f'<wf file="A/{fn}_{k}"/>')), what + f" continued from {k}")
        what += f", continued from wave function {k}"
        check_files(ctx, c, case, f"{d}/{fn}", vs if case["samedir"] else {q: v for q, v in vs.items() if q > k}, what, 1e-10)
        _, ra = table(ctx, a.out, what)
        _, rb = table(ctx, b.out, what)
        ra = ra[k * wc:]
        same_rows(ctx, ra, rb, what)
        for f, l in exts.items():
            m = open(f"{c.s.cwd}/{d}/{f}").read().split("\n")
            ctx.check(m[0] == l[0] or k * wc == case["n"], f"{what}: header {m[0]!r} of {f} instead of {l[0]!r}")
            same_rows(ctx, [x for x in l[1:] if x.strip()][k * wc:], [x for x in m[1:] if x.strip()], f"{what}: {f}", 1e-8)


def same_rows(ctx, ra, rb, what, rel=1e-8):
    ctx.check(len(ra) == len(rb), f"{what}: {len(rb)} rows instead of {len(ra)}")
    for x, y in zip(ra, rb):
        ta, tb = x.split("\t"), y.split("\t")
        ok = len(ta) == len(tb)
        sc = 0.0
        for u, v in zip(ta, tb):
            if u == v:
                continue
            try:
                g, h = numbers(u.strip()), numbers(v.strip())
            except ValueError:
                ok = False
                break
            sc = max([abs(z) for z in g + h] + [1e-2])
            ok &= len(g) == len(h) and all(abs(i - j) <= rel * sc + 2e-6 * (sc if "e" in u else 1) * 0 + 1.1 * max(tick(u), tick(v)) for i, j in zip(g, h))
        ctx.check(ok, f"{what}: row {y!r} instead of {x!r}")


def tick(tok):
    m = re.findall(r"[-+]?\d+(?:\.\d*)?(?:e[-+]?\d+)?", tok)
    return max([2 * digits(x) for x in m] + [0.0])


# ------------------------------------------------------------------ write cycle and options do not matter
@st.composite
def cycle(draw):
    k = draw(rcase(filters=1, start=False))
    k["odir"] = None
    k["other"] = dict(wcycle=draw(st.integers(1, k["n"] + 1)), fmt=draw(st.sampled_from(["binary", "stream"])), opt=draw(options()))
    k["twice"] = draw(st.booleans())
    return k


def run_cycle(case, ctx):
    with ctx.srv().case() as c:
        p, dt = prepare(case, ctx, c)
        write_init(c, case)
        extra = "".join(section(case, s, p.ops) for s in ("filterinit", "filterpre", "filterpost"))
        what = tag(case)
        fn = case["fname"] or "WF"
        o = case["other"]
        k1, k2 = dict(case, wcycle=case["wcycle"] or 10), dict(case, **o)
        ra = run_qdng(ctx, c, case, document(k1, propa_xml(k1, p, extra, dir="A", start=None)), what)
        rb = run_qdng(ctx, c, k2, document(k2, propa_xml(k2, p, extra, dir="B", start=None)), what)
        get_ = lambda d, q: (c("fw.new", "o", f"{d}/{fn}_{q}"), c("fw.readnew", "o", "w"), get(c, "w"))[2]
        n = 0
        for q in sorted(series(c.s.cwd, "A/" + fn)):
            if q * k1["wcycle"] % k2["wcycle"] == 0:
                q2 = q * k1["wcycle"] // k2["wcycle"]
                a, b = get_("A", q), get_("B", q2)
                n += 1
                ctx.check(np.array_equal(a, b) or p.norm(a - b) <= 1e-13 * p.norm(a) or not np.isfinite(p.norm(a)), lambda: f"{what}: the state at step {q * k1['wcycle']} depends on write cycle ({k2['wcycle']}), format or reporting options {o['opt']}: {p.norm(a - b):.3g}")
        ctx.label(f"{min(n, 3)} common states")


# ------------------------------------------------------------------ break down
@st.composite
def abort(draw):
    wf = draw(pwf(multi=4, maxpts=12))
    n = draw(st.integers(10, 40))
    return dict(wf=wf, clock=False, n=n, wcycle=draw(st.integers(1, 7)), seed=draw(seeds), fname=draw(st.sampled_from([None, "P"])), dir="out", odir=None, fmt=draw(st.sampled_from(["binary", "stream"])),
                opt={}, first=0, g=draw(flt(20, 60)), prop=dict(t="RK4"), op=dict(t="scalar", value=1.0), spec=draw(st.booleans()))


def run_abort(case, ctx):
    """The step is far too large, the norm overflows on the way: reported as an error; what is on disk stays consistent with the metadata."""
    with ctx.srv().case() as c:
        c(*GP)
        wf = case["wf"]
        v = amps(wf, case["seed"])
        put(c, "psi", wf, v)
        c("fw.new", "f", "init")
        c("fw.write", "f", "psi")
        x = 10.0 ** case["g"]
        o = dict(spectrum="s.dat") if case["spec"] else {}
        text = f'<propa{xa(dt=1.0, steps=case["n"], wcycle=case["wcycle"], fname=case["fname"], dir="out", **o)}><propagator name="RK4"><hamiltonian name="Scalar" value="{x:.6g}"/></propagator><wf file="init"/></propa>'
        what = f"run with RK4 far outside its range (growth 1e{4 * case['g']:.0f} per step), {case['n']} steps, write cycle {case['wcycle']}"
        r = run_qdng(ctx, c, case, document(case, text), what, ok=False)
        m = read_meta(c.s.cwd + "/out/Propagation.meta")
        have = series(c.s.cwd, "out/" + (case["fname"] or "WF"))
        Nt = int(m.get("Nt", -1))
        ctx.check(0 <= Nt < case["n"], f"{what}: metadata says {m.get('Nt')} steps are done")
        ctx.check(have == set(range(Nt // case["wcycle"] + 1)), f"{what}: metadata says {Nt} steps but the wave functions are {sorted(have)}")
        ctx.check(m.get("Wcycle") == str(case["wcycle"]) and m.get("WFBaseName") == (case["fname"] or "WF"), f"{what}: metadata {m}")
        ctx.label(f"{Nt} steps")


# ------------------------------------------------------------------ refused set-ups
BADP = {
    "dt 0": dict(dt=0.0), "no dt": dict(dt=None), "steps 0": dict(steps=0), "steps -3": dict(steps=-3), "no steps": dict(steps=None), "wcycle 0": dict(wcycle=0), "wcycle -1": dict(wcycle=-1),
    "start -1": dict(start=-1), "start behind the end": dict(start=100),
    "no propagator": "p", "no wave function": "w", "missing file": "f", "empty": "e", "unknown propagator": "u", "unknown filter": "x", "empty filter": "y", "filter of unknown operator": "z", "rho of a single state": "r",
}


def run_refuse(case, ctx):
    with ctx.srv().case() as c:
        p, dt = prepare(case, ctx, c)
        write_init(c, case)
        b = BADP[case["bad"]]
        what = f"propagation with {case['bad']}"
        good = dict(case, opt={}, first=0, wcycle=2, n=4)
        if isinstance(b, dict):
            x = propa_xml(good, p, "", **b)
        else:
            x = propa_xml(good, p, "")
            x = {"p": lambda: x.replace(p.text, ""), "w": lambda: x.replace('<wf file="init"/>', ""), "f": lambda: x.replace('file="init"', 'file="nix"'), "e": lambda: re.sub(r">.*</propa>", "></propa>", x, flags=re.S),
                 "u": lambda: x.replace('<propagator name="', '<propagator name="No'), "x": lambda: x.replace("</propa>", f'<{case["sec"]}><expecc name="Scalar" /></{case["sec"]}></propa>'),
                 "y": lambda: x.replace("</propa>", f'<{case["sec"]}/></propa>'), "z": lambda: x.replace("</propa>", f'<{case["sec"]}><expec name="Nix"/></{case["sec"]}></propa>'),
                 "r": lambda: x.replace("</propa>", f'<{case["sec"]}><rho ms="0,9"/></{case["sec"]}></propa>')}[b]()
        ctx.label(case["bad"])
        d = where(case)
        r = run_qdng(ctx, c, case, document(case, x), what, ok=False)
        k = series(c.s.cwd, d + (case["fname"] or "WF"))
        ctx.check(not k - {0}, f"{what}: writes wave functions {sorted(k)}")


@st.composite
def refuse(draw):
    k = draw(rcase(filters=0, start=False))
    k["bad"] = draw(st.sampled_from(sorted(BADP)))
    k["sec"] = draw(st.sampled_from(["filterinit", "filterpre", "filterpost"]))
    return k


SUBS = [
    Sub("trajectory", rcase(), run_traj, (350, 5000), lambda c: c["n"] >= (c["wcycle"] or 10), "at least one further wave function is due"),
    Sub("restart", restart(), run_restart, (120, 1500), lambda c: c["n"] > c["at"] * c["wcycle"], "steps are left after the restart"),
    Sub("cycle", cycle(), run_cycle, (100, 1200), lambda c: c["n"] > 1, "more than one step"),
    Sub("breakdown", abort(), run_abort, (40, 400), lambda c: True, "every run overflows"),
    Sub("refuse", refuse(), run_refuse, (60, 500), lambda c: True, "every set-up is invalid"),
]
