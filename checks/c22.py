"""C22: generated correlation functions (one point, two points with the intermediate operator on either side, operators before the propagation, explicit or implied bra, write cycle, limit of intermediate steps, small wave function buffers, baselines propagated, written and read) compared element by element with the overlaps of wave functions stepped through the library; invalid requests."""
from c19 import *

BUILD = [("opt", ["qdrv", "qdng"])]
BUDGET = 150


@st.composite
def ops_list(draw, wf, lo, hi, ck=None):
    return [draw(filt.measured(wf, ck, None, 1)) for _ in range(draw(st.integers(lo, hi)))]


names = dict(dir=st.sampled_from([None, "out", "a/b/"]), odir=st.sampled_from([None, None, None, "over"]), fmt=st.sampled_from(["binary", "stream"]))


@st.composite
def cf(draw, kinds=("one", "one", "left", "right"), maxpts=24):
    k = draw(pcase(zmax=1, fields=True).filter(lambda k: wf_size(k["wf"]) <= maxpts))
    k.pop("start", 0)
    k["kind"] = draw(st.sampled_from(kinds))
    k["wcycle"] = draw(st.sampled_from([None, 1, 1, 2, 3]))
    wc = k["wcycle"] or 1
    nt = draw(st.integers(1, 12 if k["kind"] == "one" else 6))
    if not k["clock"]:
        k["n"] = nt * wc + draw(st.integers(0, wc - 1))
    else:
        k["wcycle"], k["n"] = (wc if wc <= k["n"] else 1), k["n"]
        if k["kind"] != "one":
            k["n"] = min(k["n"], 6 * wc)
    wf = k["wf"]
    ck = (1.0, k["n"]) if k["clock"] and draw(st.integers(0, 3)) else None      # interactions with a field
    k["k0"] = draw(ops_list(wf, 0, 2, ck)) if draw(st.booleans()) else []
    k["probe"] = draw(ops_list(wf, 1, 2, ck))
    k["mid"] = draw(ops_list(wf, 0, 2, ck)) if k["kind"] != "one" else []
    k["bra"] = True if k["kind"] == "right" else draw(st.booleans())
    k["b0"] = draw(ops_list(wf, 0, 2, ck)) if k["bra"] and draw(st.booleans()) else []
    if k["kind"] != "one" and draw(st.integers(0, 2)) == 0:
        k["stepsint"] = draw(st.integers(1, nt + 1))
    k["lim"] = draw(st.sampled_from([None, None, 4, 5, 8]))
    k["back"] = not k["clock"] and draw(st.integers(0, 4)) == 0
    k["fname"] = draw(st.sampled_from([None, None, "corr"]))
    k.update({a: draw(s) for a, s in names.items()})
    return k


def sides(case, ops):
    x = lambda l: "".join(ops.xml(s, f"o{i}") for i, s in enumerate(l))
    if case["kind"] == "left":
        ket = x(case["k0"]) + "<U/>" + x(case["mid"]) + "<U/>" + x(case["probe"])
    else:
        ket = x(case["k0"]) + "<U/>" + x(case["probe"])
    bra = ""
    if case["bra"]:
        bra = f"<bra>{x(case['b0'])}<U/>{x(case['mid']) + '<U/>' if case['kind'] == 'right' else ''}</bra>"
    return f"<ket>{ket}</ket>{bra}"


def cf_xml(case, p, wf='<wf file="init"/>', **kw):
    a = dict(dt=float(p.dt), steps=case["n"], wcycle=case["wcycle"], stepsint=case.get("stepsint"), dir=case["dir"], fname=case["fname"])
    a.update(kw)
    return f"<cfunc{xa(**a)}>{p.text}{wf}{sides(case, p.ops)}</cfunc>"


def cf_document(case, body, lim=True):
    b = f' MaxBufferSize="{case["lim"] * wf_size(case["wf"]) * 16}"' if lim and case["lim"] else ""
    return document(case, body).replace("<qdng ", f"<qdng{b} ", 1)


class Ref:
    """Overlaps of wave functions stepped by the propagator loaded through the library."""
    def __init__(self, p, case):
        self.p, self.case = p, case
        self.wc = case["wcycle"] or 1
        self.Nt = case["n"] // self.wc
        self.w = metric(p.wf)
        self.M = {}
        p.init()
        self.size = 1.0

    def U(self, v, t):
        """One write cycle from step t on."""
        p = self.p
        p.goto(t)
        p.v = v
        put_again(p.c, p)
        for _ in range(self.wc):
            p.step()
            p.tick()
        return get(p.c, "psi")

    def mats(self, k, i):
        """Matrices of the operators k at the cycle i."""
        q = (k, i if self.case["clock"] else 0)
        if q not in self.M:
            self.p.ops.t = i * self.wc
            self.M[q] = [self.p.ops.mat(s) for s in self.case[k]]
        return self.M[q]

    def ap(self, k, v, i):
        for M in self.mats(k, i):
            v = M @ v
        return v

    def line(self, v, t, n):
        """States at the cycles t, t+1, ..."""
        out = [v]
        for i in range(t, t + n - 1):
            out.append(self.U(out[-1], i * self.wc))
        return out

    def run(self):
        case, Nt = self.case, self.Nt
        psi = self.p.v0
        kets = self.line(self.ap("k0", psi, 0), 0, Nt)
        bras = self.line(self.ap("b0", psi, 0), 0, Nt) if case["bra"] else kets
        sc = np.zeros((Nt, Nt))
        C = np.zeros((Nt, Nt), complex)

        def ov(i, j, b, s):
            t = max(i, j)
            u = self.ap("probe", s, t)
            C[i, j] = np.vdot(b, self.w * u)
            m = np.prod([np.abs(M).sum(axis=1).max() for M in self.mats("probe", t)])
            sc[i, j] = self.p.norm(b) * max(self.p.norm(u), m * self.p.norm(s))
        if case["kind"] == "one":
            for i in range(Nt):
                ov(i, 0, bras[i], kets[i])
            return C[:, 0], sc[:, 0], None
        far = np.zeros((Nt, Nt), bool)
        q = case.get("stepsint") or Nt
        for i in range(Nt):
            # propagated on after the intermediate interaction
            l = self.line(self.ap("mid", kets[i] if case["kind"] == "left" else bras[i], i), i, Nt - i)
            for j in range(i, Nt):
                if case["kind"] == "left":
                    ov(i, j, bras[j], l[j - i])
                else:
                    ov(j, i, l[j - i], kets[j])
                far[(i, j) if case["kind"] == "left" else (j, i)] = j - i > q
        return C, sc, far


def label_of(case):
    return f"{case['kind']}-point correlation function with {case['prop']['t']}, {case['n']} steps, write cycle {case['wcycle']}, stepsint {case.get('stepsint')}, {len(case['k0'])} U {len(case['mid'])} {len(case['probe'])} operators, bra {case['bra'] and len(case['b0'])}, buffer {case['lim']} on {kind(case['wf'])} ({brief(case.get('op') or case['parts'])[:150]})"


def check_cf(ctx, c, case, ref, what, C, sc, far, dt, dt_meta=None):
    n = 1 if case["kind"] == "one" else 2
    base = f"{c.s.cwd}/{where(case)}{case['fname'] or 'Cfun'}_{n}"
    try:
        d = np.fromfile(base + ".cf", complex)
    except OSError as e:
        ctx.fail(f"{what}: {e}")
    ctx.check(d.size == C.size, f"{what}: {d.size} values instead of {C.size}")
    d = d.reshape(C.shape)
    lim = 1e-9 * sc + 1e-60
    ok = np.abs(d - C) <= lim
    if far is not None:
        ok |= far & (d == 0)                  # beyond the limit of intermediate steps
    i = tuple(np.argwhere(~ok)[0]) if not ok.all() else None
    ctx.check(i is None, lambda: f"{what}: element {[int(x) for x in i]} is {d[i]} instead of {C[i]} (scale {sc[i]:.3g})")
    m = read_meta(base + ".meta")
    want = dict(Nt=str(ref.Nt), dim=str(n))
    for k, v in want.items():
        ctx.check(m.get(k) == v, f"{what}: metadata {k} is {m.get(k)!r} instead of {v!r}")
    ctx.check(abs(float(m.get("dt", "nan")) - dt * ref.wc) <= 1e-12 * abs(dt * ref.wc), f"{what}: metadata dt is {m.get('dt')} instead of {dt * ref.wc}")


def run_cf(case, ctx):
    with ctx.srv().case() as c:
        p, dt = prepare(case, ctx, c)
        write_init(c, case)
        p.v0 = p.v
        wr = case.get("write")
        doc = cf_document(case, cf_xml(case, p, write=wr))
        what = label_of(case)
        ref = Ref(p, case)
        C, sc, far = ref.run()
        ctx.label(f"{case['kind']}{' bra' if case['bra'] else ''}{' first operators' if case['k0'] or case['b0'] else ''}")
        run_qdng(ctx, c, case, doc, what)
        check_cf(ctx, c, case, ref, what, C, sc, far, dt)


# ------------------------------------------------------------------ stored baselines
@st.composite
def stored_cf(draw):
    k = draw(cf())
    k["k0"] = k["b0"] = []
    k["write"] = draw(st.sampled_from([None, "base", "x/base/"]))
    k["pbase"] = draw(st.sampled_from(["WF", "WF", "psi"]))
    k["sl"] = draw(st.sampled_from(["", "/"]))
    return k


def run_stored_cf(case, ctx):
    """The first propagation is read from files written by a propagation or by an earlier correlation function."""
    with ctx.srv().case() as c:
        p, dt = prepare(case, ctx, c)
        write_init(c, case)
        p.v0 = p.v
        what = label_of(case)
        ref = Ref(p, case)
        C, sc, far = ref.run()
        if case["write"]:
            d = case["write"]
            run_qdng(ctx, c, case, cf_document(case, cf_xml(case, p, write=d)), what + ", writes the baseline")
            check_cf(ctx, c, case, ref, what, C, sc, far, dt)
        else:
            d = "prop" + case["sl"]
            k1 = dict(case, opt={}, first=0, odir=None)
            run_qdng(ctx, c, k1, document(case, propa_xml(k1, p, dir="prop", fname=case["pbase"], wcycle=ref.wc)), what + ", propagation")
        ctx.label("written by cfunc" if case["write"] else "written by propa")
        case = dict(case, dir="second", odir=None)
        run_qdng(ctx, c, case, cf_document(case, cf_xml(case, p, wf="", read=d, wcycle=None, dt=float(dt))), what + ", reads the baseline")
        # the propagation has the state behind the last step, too
        check_cf(ctx, c, case, ref, what + ", reads the baseline", C, sc, far, dt)


# ------------------------------------------------------------------ invalid requests
X = '<o name="Sum"><a name="Scalar" value="1"/></o>'
BADC = {
    "no propagator": "p", "no wave function": "w", "missing wave function": "f", "empty": "e", "no ket": ("", None), "empty ket": ("<ket/>", None), "ket without propagator": (f"<ket>{X}</ket>", None), "ket without probe": ("<ket><U/></ket>", None), "ket ends with a propagator": (f"<ket><U/>{X}<U/></ket>", None),
    "too many propagators": (f"<ket><U/>{X}<U/>{X}<U/>{X}</ket>", None), "bra without propagator": (f"<ket><U/>{X}</ket><bra>{X}</bra>", None), "bra ends with an operator": (f"<ket><U/>{X}</ket><bra><U/>{X}</bra>", None), "three points": (f"<ket><U/>{X}<U/>{X}</ket><bra><U/>{X}<U/></bra>", None),
    "empty bra": (f"<ket><U/>{X}</ket><bra/>", None), "unknown operator": ('<ket><U/><o name="Nix"/></ket>', None), "no dt": dict(dt=None), "dt 0": dict(dt=0), "no steps": dict(steps=None), "steps 0": dict(steps=0), "steps -3": dict(steps=-3), "stepsint 0": dict(stepsint=0), "stepsint -1": dict(stepsint=-1), "wcycle 0": dict(wcycle=0), "wcycle -1": dict(wcycle=-1),
    "baseline of nothing": dict(read="nowhere"), "empty baseline": dict(read="void"),
}


@st.composite
def refuse22(draw):
    k = draw(cf(("one",)))
    k["bad"] = draw(st.sampled_from(sorted(BADC)))
    return k


def run_refuse22(case, ctx):
    with ctx.srv().case() as c:
        p, dt = prepare(case, ctx, c)
        write_init(c, case)
        os.mkdir(c.s.cwd + "/void")
        b = BADC[case["bad"]]
        x = cf_xml(case, p, **(b if isinstance(b, dict) else {}))
        if isinstance(b, tuple):
            x = re.sub(r"<ket>.*(?=</cfunc>)", lambda m: b[0], x, flags=re.S)
        elif not isinstance(b, dict):
            x = {"p": lambda: x.replace(p.text, ""), "w": lambda: x.replace('<wf file="init"/>', ""), "f": lambda: x.replace('file="init"', 'file="nix"'), "e": lambda: re.sub(r"(<cfunc[^>]*>).*</cfunc>", r"\1</cfunc>", x, flags=re.S)}[b]()
        ctx.label(case["bad"])
        run_qdng(ctx, c, case, document(case, x), f"cfunc with {case['bad']}", ok=False)
        ctx.check(not any(f.endswith(".cf") for _, _, l in os.walk(c.s.cwd) for f in l), f"cfunc with {case['bad']}: writes a correlation function")


SUBS = [
    Sub("functions", cf(), run_cf, (300, 5000), lambda k: k["n"] // (k["wcycle"] or 1) > 1, "more than one time"),
    Sub("stored", stored_cf(), run_stored_cf, (120, 2000), lambda k: k["n"] // (k["wcycle"] or 1) > 1, "more than one time"),
    Sub("refuse", refuse22(), run_refuse22, (60, 600), lambda k: True, "every request is invalid"),
]
