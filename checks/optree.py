"""Generated operator trees and histories of calls on them, compared with dense matrices."""
from oplib import *
import c13, c14

mass = st.one_of(flt(0.2, 5.0), flt(100.0, 20000.0), st.just(1.0))


@st.composite
def fdorder(draw, dims):
    nm = min(d[0] for d in dims)
    return 2 * draw(st.integers(1, min(nm // 2, draw(st.sampled_from([2, 4, 10])))))


@st.composite
def nsq(draw, dims, zero=True):
    s = dict(t="nablasq", mass=draw(c13.massv(len(dims), zero)))
    # (a one-dimensional finite difference grid without pbc is a listed finding of C13)
    if draw(st.integers(0, 3)) == 0:
        s.update(method="HOFD", order=draw(fdorder(dims)), pbc=True if len(dims) == 1 else draw(st.booleans()))
    return s


@st.composite
def hofd(draw, dims):
    s = dict(t="hofd", deriv=draw(st.integers(1, 2)), order=draw(fdorder(dims)), pbc=draw(st.booleans()))
    if draw(st.booleans()):
        s["dim"] = draw(st.integers(0, len(dims) - 1))
    return s


@st.composite
def nabla(draw, dims):
    s = dict(t=draw(st.sampled_from(["nabla", "momentum"])))
    if draw(st.booleans()):
        s["dim"] = draw(st.integers(0, len(dims) - 1))
    if draw(st.integers(0, 2)) == 0:
        s["factor"] = draw(flt(-4, 4))
    return s


@st.composite
def gmat(draw, dims, chain=True):
    n = len(dims)
    style = draw(st.sampled_from(["c", "g", "mix", "mix"]))
    el = []
    for k in range(n * (n + 1) // 2):
        t = style if style != "mix" else draw(st.sampled_from("cgx"))
        el.append({"c": draw(flt(-2, 2))} if t == "c" else {"g": draw(seeds)} if t == "g" else {"x": 1})
    s = dict(t="gmat", el=el)
    if draw(st.booleans()):
        s["coup"] = draw(st.booleans())
    m = draw(st.integers(0, 5))
    if m == 0:
        s.update(method="HOFD", order=draw(fdorder(dims)), pbc=draw(st.booleans()))
    elif m == 1 and chain:
        s.update(chainrule=True, order=draw(fdorder(dims)))
    return s


@st.composite
def nac(draw, dims):
    s = dict(t="nac", f=[draw(seeds) for _ in dims])
    if draw(st.booleans()):
        s["sign"] = draw(st.sampled_from([1, -1]))
    if len(dims) == 1 and draw(st.booleans()):
        s["mass"] = draw(mass)
    return s


@st.composite
def pml(draw, dims):
    return dict(t="pml", mass=draw(c13.massv(len(dims))), thick=[draw(st.integers(1, min(d[0] for d in dims)))], lmap=[draw(st.integers(0, 3)) for _ in dims], smax=draw(st.sampled_from([0.5, 3.0])))


@st.composite
def scalar(draw):
    s = dict(t="scalar", value=draw(st.one_of(flt(-5, 5), st.just(0.0))))
    if draw(st.booleans()):
        s["im"] = draw(flt(-5, 5))
    return s


@st.composite
def proj(draw):
    s = dict(t="projection", seed=draw(seeds), num=draw(st.integers(1, 3)), amp=draw(st.sampled_from([1.0, 0.1])), fmt=draw(st.sampled_from(["binary", "stream"])))
    for k in ("inv", "positive"):
        if draw(st.booleans()):
            s[k] = draw(st.booleans())
    return s


@st.composite
def noscale(draw, e):
    """Field coupled operators without the scale option (listed finding of C14)."""
    s = draw(e)
    s.pop("scale", None)
    return s


def leaf(wf, ck=None, field=None):
    """Leaf operators for a wave function.  field: None any, True only field coupled ones."""
    if wf["k"] == "grid":
        d = wf["dims"]
        f = [noscale(c14.s_dipole(d)), noscale(c14.s_raman(d))] if ck else []
        if field:
            return st.one_of(f)
        l = [nsq(d), c14.s_pot(d), c14.s_position(d), nabla(d), gmat(d), nac(d), c14.s_kick(d), c14.s_gobbler(d), hofd(d), scalar(), proj(), pml(d)] + f
        return st.one_of(l)
    if wf["k"] == "level":
        m = c14.s_mat()
        f = [st.builds(lambda s, l, f: dict(s, t="matdipole", laser=l, scale=f), m, c14.laser(), st.one_of(st.none(), flt(-3, 3)))] if ck else []
        if field:
            return st.one_of(f)
        return st.one_of([m, m, scalar(), proj()] + f)
    return st.one_of([scalar(), proj()])


@st.composite
def tree(draw, wf, depth=2, ck=None, keys=None, force=False, leafs=leaf):
    """An operator for this wave function.  keys: dict of operators that can be referred to, extended while drawing."""
    multi = wf["k"] == "multi"
    if multi:
        kinds = ["multistate"] * 4 + ["leaf"] + (["sum", "product"] if depth > 0 else [])
    else:
        kinds = ["leaf"] * 2 + (["sum", "sum", "product", "product"] if depth > 0 else [])
        if depth > 0 and wf["k"] == "grid":
            kinds.append("gridsum")
    if force:
        kinds = [k for k in kinds if k != "leaf"] or kinds
    k = draw(st.sampled_from(kinds))
    lev = "m" if multi else "s"
    if keys is not None and not force:
        have = [q for q, (l, s) in keys.items() if l == lev]
        if have and draw(st.integers(0, 3)) == 0:
            return dict(t="ref", key=draw(st.sampled_from(have)))
    rec = lambda w, d: tree(w, d, ck, keys, False, leafs)
    if k == "leaf":
        s = draw(leafs(wf, ck))
    elif k in ("sum", "product"):
        s = dict(t=k, m=[draw(rec(wf, depth - 1)) for _ in range(draw(st.integers(1, 4)))])
    elif k == "gridsum":
        s = dict(t="gridsum", m=[draw(c14.s_pot(wf["dims"])) for _ in range(draw(st.integers(1, 4)))])
    else:
        n, w = len(wf["states"]), wf["states"][0]
        non = draw(st.integers(0, 2)) == 0
        s = dict(t="multistate", unity=draw(st.sampled_from([None, True, False])), states=n, el=[])
        if non:
            s["nonhermitian"] = True
        for i in range(n):
            for j in range(n):
                if i == j:
                    if draw(st.integers(0, 2)):
                        s["el"].append([i, i, draw(rec(w, depth - 1))])
                elif non:
                    if draw(st.integers(0, 1)):
                        s["el"].append([i, j, draw(rec(w, depth - 1))])
                elif i < j and draw(st.integers(0, 1)):
                    # off-diagonals are needed once, in either triangle; the fill-in is the adjoint
                    a, b = (i, j) if draw(st.booleans()) else (j, i)
                    s["el"].append([a, b, draw(herm(w, depth - 1, ck))])
        if not s["el"]:
            s["el"].append([0, 0, draw(rec(w, depth - 1))])
    if keys is not None and len(keys) < 4 and draw(st.integers(0, 4)) == 0:
        q = f"K{len(keys)}"
        keys[q] = (lev, s)
        return dict(t="ref", key=q)
    return s


@st.composite
def herm(draw, wf, depth=1, ck=None):
    """Hermitian single-state operators (used where the input form fills in the adjoint)."""
    if depth > 0 and draw(st.integers(0, 3)) == 0:
        return dict(t="sum", m=[draw(herm(wf, depth - 1, ck)) for _ in range(draw(st.integers(1, 3)))])
    if wf["k"] == "grid":
        d = wf["dims"]
        return draw(st.one_of([nsq(d), c14.s_pot(d), c14.s_position(d), gmat(d, chain=False)] + ([noscale(c14.s_dipole(d))] if ck else [])))
    m = c14.s_mat()
    return draw(st.one_of([m] + ([st.builds(lambda s, l, f: dict(s, t="matdipole", laser=l, scale=f), m, c14.laser(), st.one_of(st.none(), flt(-3, 3)))] if ck else [])))


@st.composite
def smallwf(draw, multi=2, maxpts=40):
    """Wave functions small enough for dense matrices; multi: one in `multi` is a multistate."""
    if draw(st.integers(0, 3)) == 0:
        s = {"k": "level", "n": draw(st.integers(1, 8))}
    else:
        s = {"k": "grid", "dims": draw(grids(3, maxpts, 2, 16))}
    if multi and draw(st.integers(0, multi - 1)) == 0:
        return {"k": "multi", "states": [s] * draw(st.integers(1, 4))}
    return s


def kinds_of(s, out=None):
    out = set() if out is None else out
    out.add(s["t"] + (" d" if s.get("d") else ""))
    for m in s.get("m", []):
        kinds_of(m, out)
    for e in s.get("el", []):
        if isinstance(e, list):
            kinds_of(e[2], out)
    return out


def depth_of(s):
    return 1 + max([depth_of(m) for m in s.get("m", [])] + [depth_of(e[2]) for e in s.get("el", []) if isinstance(e, list)] + [0])


def uses(s, ks, keys, seen=()):
    """Kinds in a tree with references followed."""
    out = set()
    def go(x, seen):
        out.add(x["t"])
        if x["t"] == "ref":
            go(keys[x["key"]][1], seen)
        for m in x.get("m", []):
            go(m, seen)
        for e in x.get("el", []):
            if isinstance(e, list):
                go(e[2], seen)
    go(s, seen)
    return out


class Run:
    """A loaded operator with its reference; every way of applying it is compared with the dense matrix."""
    def __init__(self, ctx, c, wf, spec, keys=None, clock=None, tol=1e-11, oid="O", plan=None):
        self.ctx, self.c, self.wf, self.spec, self.tol, self.oid = ctx, c, wf, spec, tol, oid
        c(*gp_plan(plan or "estimate"))
        self.ops = Ops(c, wf, clock)
        self.w = metric(wf)
        self.ops.keys = {}
        for q, (lev, s) in (keys or {}).items():
            o = self.ops.sub if (lev == "s" and wf["k"] == "multi") else self.ops
            x = o.xml(s)
            c("op.load", "D" + q, x.replace(" name=", f" key=\"{q}\" name=", 1))
            self.ops.keys[q] = s
        new_wf(c, "init", wf)
        put(c, "init", wf, amps(wf, 99))
        load_op(c, self.ops, spec, "init", oid)
        self.cache = {}
        self.k = 0

    def M(self):
        t = self.ops.t
        if t not in self.cache:
            m = self.ops.mat(self.spec)
            self.cache[t] = (m, max(np.abs(m).sum(axis=1).max(), self.mag()))
        return self.cache[t]

    def mag(self):
        """Size of the intermediate results: cancellation in sums and products is not counted as an error."""
        def go(s, o):
            if s["t"] == "ref":
                return go(o.top.keys[s["key"]], o)
            if s["t"] in ("sum", "gridsum"):
                return sum(go(m, o) for m in s["m"])
            if s["t"] == "product":
                return float(np.prod([go(m, o) for m in s["m"]]))
            if s["t"] == "multistate":
                return sum(go(e[2], o.sub) for e in s["el"]) + 1
            m = np.abs(o.mat(s)).sum(axis=1).max()
            if s["t"] in ("dipole", "raman", "matdipole", "pot", "hermmat"):
                # offsets and minima are subtracted before scaling
                v = s.get("v", s)
                m = max(m, 10 * abs(s.get("offset") or 0) * abs(s.get("scale") or 1), 3 * (abs(v.get("off", 0)) + 5 * v.get("amp", 1.0)) * abs(s.get("scale") or 1) * (1 if s["t"] in ("pot", "hermmat") else abs(m) / max(1e-300, m) if m else 0))
            return m
        return go(self.spec, self.ops)

    def step(self, t):
        at_step(self.c, self.ops, t, self.oid)

    def vec(self, seed, style="gauss"):
        self.k += 1
        n = f"v{self.k}"
        v = amps(self.wf, seed, style)
        put(self.c, n, self.wf, v)
        return n, v

    def cmp(self, out, v, what):
        M, nrm = self.M()
        e = M @ v
        sc = nrm * max(np.abs(v).max(), 1e-300) + 1e-300
        d = err(out, e)
        if not d <= self.tol * sc:
            self.ctx.fail(f"{what} of {brief(self.spec)} on {kind(self.wf)}" + (f" at step {self.ops.t}" if self.ops.clock else "") + f": off by {d:.3g} (scale {sc:.3g})")

    def same(self, name, v, what):
        self.ctx.check(same_bits(get(self.c, name), v), f"{what} of {brief(self.spec)} on {kind(self.wf)} changes the wave function it is applied to")

    def act(self, a):
        """One call: [how, seed, style, seed2, reuse]"""
        how, seed, style = a[0], a[1], a[2]
        top = self.ops.keys[self.spec["key"]] if self.spec["t"] == "ref" else self.spec
        if how == "expec" and top.get("residue"):
            how = "matel"        # documented: the squared norm of what remains (checked in C14)
        c, O = self.c, self.oid
        n, v = self.vec(seed, style)
        if how == "apply":
            # into a wave function that holds something else
            d, g = self.vec(a[3])
            c("op.apply", O, d, n)
            self.cmp(get(c, d), v, "application")
            self.same(n, v, "application")
        elif how == "inplace":
            c("op.inplace", O, n)
            self.cmp(get(c, n), v, "in-place application")
        elif how == "add":
            d, g = self.vec(a[3])
            c("op.applyadd", O, d, n)
            M, nrm = self.M()
            out = get(c, d)
            sc = nrm * np.abs(v).max() + np.abs(g).max() + 1e-300
            e = err(out, g + M @ v)
            self.ctx.check(e <= self.tol * sc, f"add-application of {brief(self.spec)} on {kind(self.wf)}" + (f" at step {self.ops.t}" if self.ops.clock else "") + f": off by {e:.3g} (scale {sc:.3g})")
            self.same(n, v, "add-application")
        elif how in ("matel", "expec"):
            b, u = (n, v) if how == "expec" else self.vec(a[3])
            M, nrm = self.M()
            x = cplx(c("op.matel", O, b, n)[0]) if how == "matel" else dbl(c("op.expec", O, n)[0])
            e = np.vdot(u, self.w * (M @ v))
            if how == "expec":
                e = e.real
            sc = nrm * np.abs(v).max() * (self.w * np.abs(u)).sum() + 1e-300
            self.ctx.check(abs(x - e) <= self.tol * sc, f"{'matrix element' if how == 'matel' else 'expectation value'} of {brief(self.spec)} on {kind(self.wf)}" + (f" at step {self.ops.t}" if self.ops.clock else "") + f": {x} instead of {e}")
            self.same(n, v, how)
            self.same(b, u, how)
        elif how == "twice":
            d, g = self.vec(a[3])
            c("op.apply", O, d, n)
            r1 = get(c, d)
            c("op.apply", O, d, n)
            self.ctx.check(same_bits(get(c, d), r1), f"second application of {brief(self.spec)} differs from the first")
            self.cmp(r1, v, "application")
        elif how == "reinit":
            c("op.init", O, n)
            if self.ops.clock:
                c("op.update", O)
            self.same(n, v, "initialisation")
        for x in list(range(self.k - 1, self.k + 1)):
            pass

    def run(self, acts):
        for a in acts:
            if a[0] == "step":
                self.step(a[1])
            else:
                self.act(a)


def brief(s):
    if isinstance(s, list):
        return "parts " + str([brief(x) for x in s])
    t = s["t"]
    if t in ("sum", "product", "gridsum"):
        return f"{t}[{', '.join(brief(m) for m in s['m'])}]"
    if t == "multistate":
        return f"{'D' if s.get('d') else ''}multistate[{', '.join(f'm{i}.{j}: {brief(o)}' for i, j, o in s['el'])}" + (", unity" if s.get("unity") else "") + (", nonhermitian" if s.get("nonhermitian") else "") + "]"
    if t == "ref":
        return "ref " + s["key"]
    return str({k: v for k, v in s.items() if k not in ("seed", "v")})


plans = st.sampled_from(["estimate"] * 6 + ["measure"] * 3 + ["patient"])


@st.composite
def action(draw, ck=None, hows=("apply", "inplace", "add", "matel", "expec", "twice", "reinit")):
    if ck and draw(st.integers(0, 2)) == 0:
        return ["step", draw(st.integers(0, ck[1] - 1))]
    return [draw(st.sampled_from(hows)), draw(seeds), draw(safe_styles), draw(seeds)]


@st.composite
def scenario(draw, depth=2, multi=2, clock=0, keyed=False, force=False, maxpts=40, field=False, nact=8, leafs=leaf):
    wf = draw(smallwf(multi, maxpts))
    ck = draw(c14.clocks()) if clock and (field or draw(st.integers(0, clock - 1)) == 0) else None
    keys = {} if keyed else None
    op = draw(tree(wf, depth, ck, keys, force, leafs))
    return dict(wf=wf, clock=ck, plan=draw(plans), keys={q: list(v) for q, v in (keys or {}).items()}, op=op, acts=draw(st.lists(action(ck), min_size=2, max_size=nact)))


def run_scenario(case, ctx, tol=1e-11):
    with ctx.srv().case() as c:
        r = Run(ctx, c, case["wf"], case["op"], case["keys"], case["clock"], tol, plan=case.get("plan"))
        r.run(case["acts"])
    return r
