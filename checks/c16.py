"""C16: field-coupled operators over generated clock histories against the field value of the step; generated pulses, pulse energy and spectrum against their formulas; mismatching fields must be refused."""
import re
from optree import *
from runner import Sub

BUILD = [("opt", ["qdrv"])]


# ------------------------------------------------------------------ operators with fields, in every context, over histories of steps
def fleaf(wf, ck=None, field=None):
    return st.one_of(leaf(wf, ck, True), leaf(wf, ck, True), leaf(wf, ck)) if wf["k"] in ("grid", "level") else leaf(wf, ck)


@st.composite
def history(draw):
    k = draw(scenario(2, 2, 1, field=True, keyed=True, maxpts=30, leafs=fleaf))
    n = k["clock"][1]
    acts = []
    for a in k["acts"]:
        acts.append(a)
        acts.append(["step", draw(st.one_of(st.integers(0, n - 1), st.sampled_from([0, n - 1])))])
        if draw(st.integers(0, 2)) == 0:
            acts.append([draw(st.sampled_from(["apply", "inplace", "add", "matel", "twice"])), draw(seeds), draw(safe_styles), draw(seeds)])
    acts.append(["apply", draw(seeds), "gauss", draw(seeds)])
    k["acts"] = acts
    return k


def fields(k):
    return uses(k["op"], None, {q: v for q, v in k["keys"].items()}) & {"dipole", "raman", "matdipole"}


def run_history(case, ctx):
    f = fields(case)
    ctx.label("+".join(sorted(f)) or "no field operator")
    run_scenario(case, ctx)


# ------------------------------------------------------------------ the field samples themselves
@st.composite
def pulse(draw):
    ck = draw(c14.clocks())
    kind_ = draw(st.sampled_from(["gauss", "gauss2"]))
    L = dict(k=kind_)
    T = ck[0] * ck[1]
    for x in ["", "2"]:
        for nm, s in (("Emax", flt(-1, 1)), ("t0", flt(-0.5, 1.5).map(lambda x: x * T)), ("sigma", flt(0.02, 2).map(lambda x: x * T)), ("w0", flt(0, 3)), ("phi", flt(-7, 7)), ("b", flt(-0.5, 0.5))):
            if draw(st.booleans()):
                L[nm + x] = draw(s)
    op = draw(st.sampled_from(["dipole", "matdipole"]))
    # (the factor of a GridDipole is the subject of a listed finding of C14)
    return dict(clock=ck, laser=L, scale=draw(st.one_of(st.none(), flt(-3, 3))) if op == "matdipole" else None, out=draw(st.booleans()), op=op,
                order=draw(st.lists(st.integers(0, ck[1] - 1), min_size=1, max_size=8)))


def run_pulse(case, ctx):
    L = case["laser"]
    ctx.label(L["k"] + (" scale" if case["scale"] is not None else "") + (" written" if case["out"] else ""))
    wf = {"k": "grid", "dims": [[4, -1.0, 1.0]]} if case["op"] == "dipole" else {"k": "level", "n": 2}
    with ctx.srv().case() as c:
        c(*GP)
        o = Ops(c, wf, case["clock"])
        E = o.field(L)
        s = dict(t=case["op"], laser=dict(L))
        if case["op"] == "dipole":
            s["v"] = dict(k="noise", seed=1)
        else:
            s.update(seed=1)
        x = o.xml(s)
        more = xa(scale=case["scale"], lasero="outE" if case["out"] else None)
        x = x.replace("/>", more + "/>")
        put(c, "p", wf, amps(wf, 1))
        c("op.load", "O", x)
        c("clock", float(case["clock"][0]), case["clock"][1], 0)
        c("op.clock", "O")
        r = c("op.laser", "O", 0)
        sc = np.abs(E).max() + 1e-300
        amp = sum(abs(L.get("Emax" + q, 1e-4)) for q in ("", "2")) + 1e-300
        g = dvec(r[3])
        f = case["scale"] if case["scale"] is not None else 1.0
        ctx.check(len(g) == case["clock"][1] and abs(dbl(r[2]) - case["clock"][0]) == 0, f"generated pulse has {len(g)} steps of {dbl(r[2])} for the clock {case['clock']}")
        ctx.check(err(g, E) <= 1e-11 * amp, f"generated pulse differs from its formula by {err(g, E):.3g} (amplitude {amp:.3g}): {L}, clock {case['clock']}")
        for t in case["order"]:
            c("clock.step", t)
            v = dbl(c("op.lget", "O", 0)[0])
            ctx.check(abs(v - f * E[t]) <= 1e-11 * amp * (abs(f) + 1e-300), f"field at step {t} is {v} instead of {f * E[t]}")
        pe = 137.0359996 / (4 * np.pi) * f * f * (E * E).sum() * case["clock"][0]
        ctx.check(abs(dbl(r[4]) - pe) <= 1e-10 * (pe + f * f * amp * amp * case["clock"][0]), f"pulse energy {dbl(r[4])} instead of {pe}")
        if case["out"]:
            q = c("fo.readlaser", "outE", "binary")
            ctx.check(any(len(b) == 8 * len(E) and err(dvec(b), E) <= 1e-11 * amp for b in q), "the written pulse differs from the generated one")


# ------------------------------------------------------------------ sampled fields: energy, spectrum and back
@st.composite
def samples(draw):
    n = draw(st.integers(2, 200))
    return dict(dt=draw(flt(0.01, 10)), n=n, extra=draw(st.sampled_from([0, 0, 1, 7])), seed=draw(seeds), amp=draw(st.sampled_from([1.0, 1e-4, 30.0])), scale=draw(st.one_of(st.just(1.0), flt(-3, 3))), step=draw(st.integers(0, n - 1)))


def run_samples(case, ctx):
    n, N = case["n"], case["n"] + case["extra"]
    d = case["amp"] * np.random.RandomState(case["seed"] & 0x7FFFFFFF).standard_normal(N)
    s, a = case["scale"], np.abs(d).max()
    with ctx.srv().case() as c:
        c(*GP)
        r = c("laser", float(case["dt"]), d, n, float(s), case["step"])
    ctx.check(dbl(r[0]) == d[case["step"]] * s or abs(dbl(r[0]) - d[case["step"]] * s) <= 1e-15 * a * abs(s), f"field at step {case['step']} is {dbl(r[0])} instead of {d[case['step']] * s}")
    A = d[:case["step"]].sum() * case["dt"]
    ctx.check(abs(dbl(r[1]) - A) <= 1e-12 * n * a * case["dt"], f"integral of the field is {dbl(r[1])} instead of {A}")
    pe = 137.0359996 / (4 * np.pi) * (s * d) @ (s * d) * case["dt"]
    ctx.check(abs(dbl(r[2]) - pe) <= 1e-12 * pe, f"pulse energy {dbl(r[2])} instead of {pe} (factor {s})")
    ctx.check(dbl(r[3]) == s, f"a copy of the field has the factor {dbl(r[3])} instead of {s}")
    f = np.fft.rfft(d[:n])
    g = cvec(r[4])
    ctx.check(g.shape == f.shape and err(g, f) <= 1e-12 * n * a, "spectrum of the field differs from the Fourier transform of its samples")
    b = dvec(r[5])[:n]
    ctx.check(err(b, d[:n] * n) <= 1e-12 * n * n * a, "transforming the spectrum back does not give the samples")


# ------------------------------------------------------------------ fields that do not fit the clock
@st.composite
def badfield(draw):
    ck = draw(c14.clocks())
    why = draw(st.sampled_from(["dt", "short", "short1", "none", "type", "missing", "fits", "longer"]))
    return dict(clock=ck, why=why, f=draw(flt(0.1, 3).filter(lambda x: abs(x - 1) > 1e-3)), n=draw(st.integers(1, ck[1] - 1)), op=draw(st.sampled_from(["dipole", "raman", "matdipole"])), seed=draw(seeds),
                wrap=draw(st.sampled_from([None, "sum", "product", "multi"])))


def run_bad(case, ctx):
    ck, why = case["clock"], case["why"]
    ctx.label(why)
    dims = [[4, -1.0, 1.0]]
    wf = {"k": "level", "n": 2} if case["op"] == "matdipole" else {"k": "grid", "dims": dims}
    with ctx.srv().case() as c:
        c(*GP)
        o = Ops(c, wf, ck)
        L = dict(k="file", seed=case["seed"])
        s = dict(t=case["op"], laser=L, lasers=[L], v=dict(k="noise", seed=1), seed=1)
        x = o.xml(s)
        n, dt = ck[1], ck[0]
        if why == "dt":
            dt *= case["f"]
        elif why == "short":
            n = case["n"]
        elif why == "short1":
            n -= 1
        elif why == "longer":
            n += case["n"]
        nm = re.search(r' laser0?="([^"]*)"', x).group(1)
        c("fo.writelaser", "F", "stream", "none", float(dt), np.ones(n))
        attr = f' laser="F"'
        if why == "none":
            attr = ""
        elif why == "type":
            attr = ' gen="sine"' if case["op"] != "raman" else ""
        elif why == "missing":
            attr = ' laser="nofile"'
        x = x.replace(f' laser="{nm}"', attr)
        w = case["wrap"]
        top = wf
        if w in ("sum", "product"):
            x = f'<op name="{w.capitalize()}">' + x.replace("<op ", "<A ", 1) + '<B name="Scalar" value="1.0"/></op>'
        elif w == "multi":
            x = '<op name="Multistate">' + x.replace("<op ", "<m0.0 ", 1) + '</op>'
            top = {"k": "multi", "states": [wf]}
        put(c, "p", top, amps(top, 1))
        new_wf(c, "d", top)
        try:
            c("op.load", "O", x)
            c("clock", float(ck[0]), ck[1], 0)
            c("op.clock", "O")
            c("op.ginit", "O", "p")
            c("op.update", "O")
            c("op.apply", "O", "d", "p")
        except QdError as e:
            ctx.check(why not in ("fits", "longer"), f"field of {n} steps {dt} is refused for the clock {ck}: {e}")
            return
    ctx.check(why in ("fits", "longer"), f"a field that does not fit ({why}: {n} steps of {dt}) is accepted for the clock {ck}")


# ------------------------------------------------------------------ setting the field while the clock runs (optimal control)
@st.composite
def setting(draw):
    ck = draw(c14.clocks())
    h = draw(st.lists(st.tuples(st.sampled_from(["set", "set", "step", "apply"]), st.integers(0, ck[1] - 1), flt(-2, 2)), min_size=2, max_size=14))
    return dict(clock=ck, op=draw(st.sampled_from(["dipole", "matdipole"])), h=[list(x) for x in h], seed=draw(seeds))


def run_setting(case, ctx):
    wf = {"k": "level", "n": 3} if case["op"] == "matdipole" else {"k": "grid", "dims": [[5, -1.0, 1.0]]}
    L = dict(k="file", seed=case["seed"])
    s = dict(t=case["op"], laser=L, v=dict(k="noise", seed=1), seed=1)
    with ctx.srv().case() as c:
        r = Run(ctx, c, wf, s, None, case["clock"])
        E = r.ops.field(L).copy()
        r.ops.field = lambda L: E
        for how, t, x in case["h"] + [["apply", 0, 0.0]]:
            if how == "step":
                r.step(t)
            elif how == "set":
                c("op.lset", "O", 0, float(x))
                c("op.update", "O")
                E[r.ops.t] = x
            else:
                r.cache = {}
                r.act(["apply", t, "gauss", t + 1])


# ------------------------------------------------------------------ the clock
@st.composite
def ticks(draw):
    return dict(dt=draw(flt(0.001, 100)), n=draw(st.integers(1, 1000)), h=draw(st.lists(st.one_of(st.sampled_from(["inc", "dec"]), st.integers(0, 999)), min_size=1, max_size=30)))


def run_ticks(case, ctx):
    t = 0
    with ctx.srv().case() as c:
        c("clock", float(case["dt"]), case["n"], 0)
        for x in case["h"]:
            if x == "inc":
                c("clock.inc"); t += 1
            elif x == "dec":
                c("clock.dec"); t -= 1
            else:
                c("clock.step", x); t = x
            r = c("clock.get")
            ctx.check(dbl(r[0]) == case["dt"] and int(r[1]) == case["n"] and int(r[2]) == t and abs(dbl(r[3]) - t * case["dt"]) <= 1e-15 * abs(t * case["dt"]), f"clock after {x}: {[dbl(r[0]), int(r[1]), int(r[2]), dbl(r[3])]} instead of step {t} of {case['n']}")


SUBS = [
    Sub("history", history(), run_history, (600, 10000), lambda k: fields(k) and sum(a[0] == "step" for a in k["acts"]) > 1, "at least one field operator and two changes of the step"),
    Sub("pulse", pulse(), run_pulse, (250, 5000), lambda k: len(k["laser"]) > 2, "parameters beyond the defaults"),
    Sub("samples", samples(), run_samples, (250, 5000), lambda k: k["scale"] != 1.0 or k["extra"], "a factor or a longer field",
        fixed=[dict(dt=0.5, n=4, extra=0, seed=1, amp=1.0, scale=2.0, step=1)]),
    Sub("refuse", badfield(), run_bad, (200, 3000), None, "every case"),
    Sub("setting", setting(), run_setting, (150, 3000), lambda k: any(x[0] == "set" for x in k["h"]), "the field is changed"),
    Sub("clock", ticks(), run_ticks, (80, 1000), None, "every case"),
]
