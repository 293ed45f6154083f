"""C24: generated wave function descriptions (files, linear combinations, multistate compositions and state maps, nested, with normalisation, phases and coefficients) loaded by the program and compared with the combination computed from the stored amplitudes; invalid descriptions must be refused; the propagation program must start from the described state."""
from common import *
from runner import Sub

BUILD = [("asan", ["qdrv", "qdng"])]
CLS = {"grid": "WFGridCartesian", "level": "WFLevel", "multi": "WFMultistate"}

num = st.one_of(flt(-3, 3), st.sampled_from([0.0, 1.0, -1.0, 0.5, 1e-3]))


@st.composite
def attrs(draw, p=3):
    a = {}
    if draw(st.integers(0, p)) == 0:
        a["normalize"] = draw(st.sampled_from([True, True, False]))
    if draw(st.integers(0, p)) == 0:
        a["phase"] = draw(st.one_of(flt(-3, 3), st.sampled_from([0.0, 0.5, 1.0, -0.25])))
    k = draw(st.integers(0, 2 * p))
    if k < 2:
        a["coeff"] = draw(num)
    elif k == 2:
        a["coeff2"] = draw(st.one_of(flt(0, 4), st.sampled_from([0.0, 0.25, 1.0])))
    return a


@st.composite
def desc(draw, n, depth):
    """n = 0: single state, otherwise number of states."""
    k = draw(st.integers(0, 5)) if depth else 0
    d = dict(a=draw(attrs()))
    if n:
        if k in (0, 1) and (draw(st.booleans()) or depth == 0):
            d.update(t="file", f=draw(seeds), n=n)
        elif k == 2 and n > 1:
            m = draw(st.integers(n, n + 2))
            d.update(t="map", map=draw(st.lists(st.integers(0, m - 1), min_size=n, max_size=n, unique=draw(st.booleans()))), c=draw(st.one_of(st.none(), st.lists(num, min_size=n, max_size=n))), s=draw(desc(m, depth - 1)))
        elif k == 3:
            d.update(t="lc", s=[draw(desc(n, depth - 1)) for _ in range(draw(st.integers(1, 3)))])
        else:
            full = draw(st.booleans())
            idx = sorted(draw(st.sets(st.integers(0, n - 1), min_size=1, max_size=n)))
            if full:
                idx = list(range(n))
            top = max(idx) == n - 1
            d.update(t="multi", i=list(draw(st.permutations(idx))), states=n if not top or draw(st.booleans()) else draw(st.sampled_from([None, None, 1])), s=[draw(desc(0, max(depth - 1, 0))) for _ in idx])
    else:
        if k < 3:
            d.update(t="file", f=draw(seeds), n=0)
        elif k == 3:
            m = draw(st.integers(1, 4))
            d.update(t="map", map=[draw(st.integers(0, m - 1))], c=draw(st.one_of(st.none(), num.map(lambda x: [x]))), s=draw(desc(m, depth - 1)))
        else:
            d.update(t="lc", s=[draw(desc(0, depth - 1)) for _ in range(draw(st.integers(1, 3)))])
    return d


base = st.one_of(st.builds(lambda d: {"k": "grid", "dims": d}, grids(3, 60)), st.integers(1, 12).map(lambda n: {"k": "level", "n": n}))


@st.composite
def case_build(draw):
    return dict(base=draw(base), d=draw(desc(draw(st.sampled_from([0, 0, 1, 2, 2, 3, 4])), draw(st.integers(1, 3)))), seq=draw(st.sampled_from([-1, -1, -1, 0, 2])), fmt=draw(seeds), style=draw(st.sampled_from(["gauss", "gauss", "gauss", "real", "sparse", "neg"])), names=draw(st.booleans()), tags=draw(st.booleans()))


class Build:
    def __init__(self, c, case):
        self.c, self.case, self.n, self.seq = c, case, 0, case["seq"]
        self.w = metric(case["base"])
        self.undef = False

    def leaf(self, d):
        """(file name, amplitudes [states, points])"""
        c, case = self.c, self.case
        name = f"file{self.n}"
        self.n += 1
        spec = case["base"] if not d["n"] else {"k": "multi", "states": [case["base"]] * d["n"]}
        c("fw.new", "f", name)
        c("fw.format", "f", ["binary", "stream"][(case["fmt"] >> (self.n % 20)) & 1])
        if self.seq >= 0:
            c("fw.seq", "f", 1)
        for k in range(self.seq + 2 if self.seq >= 0 else 1):
            v = rng_amps(wf_size(spec), d["f"] + 17 * k, case["style"])
            put(c, "tmpw", spec, v)
            c("fw.write", "f", "tmpw")
            if k == max(self.seq, 0):
                keep = v
        return name, keep.reshape(max(d["n"], 1), -1)

    def attr(self, d):
        a = d["a"]
        s = "".join(f' {k}="{g17(v) if isinstance(v, float) else str(v).lower()}"' for k, v in a.items())
        return s

    def go(self, d, tag="wf"):
        """(input text, amplitudes)"""
        if d["t"] == "file":
            name, v = self.leaf(d)
            cl = ""
            if self.case["names"] and not d["n"] and d["f"] % 2:
                cl = f' name="{CLS[self.case["base"]["k"]]}"'
            x = f'<{tag}{cl} file="{name}"{self.attr(d)}/>'
        else:
            if d["t"] == "lc":
                s = [self.go(q, f"wf{i}" if self.case["tags"] else "wf") for i, q in enumerate(d["s"])]
                v = sum(q[1] for q in s)
                x, extra = "LC", ""
            elif d["t"] == "map":
                s = [self.go(d["s"])]
                v = s[0][1][d["map"]] * (np.array(d["c"])[:, None] if d["c"] else 1)
                x = "Multimap"
                extra = f' statemap="{",".join(map(str, d["map"]))}"' + (f' coeffs="{",".join(map(g17, d["c"]))}"' if d["c"] else "")
            else:
                s = [self.go(q, f"wf{i}") for i, q in zip(d["i"], d["s"])]
                v = np.zeros((max(max(d["i"]) + 1, d["states"] or 0), len(self.w)), complex)
                for i, q in zip(d["i"], s):
                    v[i] = q[1][0]
                x, extra = "Multistate", f' states="{d["states"]}"' if d["states"] else ""
            sep = "\n " if self.case["tags"] else ""
            x = f'<{tag} name="{x}"{extra}{self.attr(d)}>{sep}' + sep.join(q[0] for q in s) + f'</{tag}>'
        a = d["a"]
        if a.get("normalize"):
            n = np.sqrt((np.abs(v) ** 2 * self.w).sum())
            if n < 1e-6:
                self.undef = True      # the norm of nothing
                n = 1
            v = v / n
        if "phase" in a:
            v = v * np.exp(1j * np.pi * a["phase"])
        if "coeff" in a:
            v = v * a["coeff"]
        if "coeff2" in a:
            v = v * np.sqrt(a["coeff2"])
        return x, v


def depth(d):
    return 1 + max([depth(s) for s in (d["s"] if isinstance(d.get("s"), list) else [d["s"]] if "s" in d else [])] or [0])


def kinds(d):
    r = {d["t"]} | set(k for k in d["a"])
    for s in (d["s"] if isinstance(d.get("s"), list) else [d["s"]] if "s" in d else []):
        r |= kinds(s)
    return r


def norms_top(d):
    """Normalisation is the last thing that happens to it."""
    return d["a"].get("normalize") and not set(d["a"]) - {"normalize", "phase"}


def compare(c, ctx, w, case, v, multi, text, tol=1e-13):
    b = case["base"]
    got = get(c, w)
    ctx.check(len(got) == v.size, lambda: f"{text}: {len(got)} amplitudes, described are {v.size}")
    g = got.reshape(v.shape)
    sc = np.abs(v).max() + 1e-3
    for s in range(len(v)):
        e = np.abs(g[s] - v[s])
        ctx.check(np.all(e <= tol * sc), lambda: f"{text}: state {s}: amplitude {int(e.argmax())} is {g[s][e.argmax()]}, described is {v[s][e.argmax()]}")
    m = c("wf.meta", w)
    ctx.check(m[0].decode() == ("WFMultistate" if multi else CLS[b["k"]]), lambda: f"{text}: gives a {m[0]!r}")
    if multi:
        ctx.check(int(c("wf.states", w)[0]) == len(v), f"{text}: number of states")
    for s in range(len(v)):
        if multi:
            c("wf.state", "st", w, s)
            m = c("wf.meta", "st")
        ctx.check(m[0].decode() == CLS[b["k"]], lambda: f"{text}: state {s} is a {m[0]!r}")
        ctx.check(m[3] == b"0", f"{text}: marked as being in momentum space")
        if b["k"] == "grid":
            gd = [x for d in b["dims"] for x in d]
            ctx.check(dvec(m[6]).tolist() == gd, lambda: f"{text}: grid {dvec(m[6]).tolist()}, stored {gd}")


def run_build(case, ctx):
    with ctx.srv("asan").case() as c:
        c(*GP)
        b = Build(c, case)
        x, v = b.go(case["d"])
        for k in kinds(case["d"]):
            ctx.label(k)
        c("wf.load", "w", x, *([case["seq"]] if case["seq"] >= 0 else []))
        if b.undef or not np.all(np.isfinite(v)):
            ctx.label("norm of zero")
            return
        compare(c, ctx, "w", case, v, case["d"]["t"] == "multi" or multi(case["d"]), x)
        if norms_top(case["d"]):
            ctx.check(abs(dbl(c("wf.norm", "w")[0]) - 1) < 1e-12, lambda: f"{x}: normalised, norm {dbl(c('wf.norm', 'w')[0])}")
        # it is its own object: changing it and loading again gives the same
        c("wf.set", "w", v.ravel() * 2 + 1)
        c("wf.load", "w2", x, *([case["seq"]] if case["seq"] >= 0 else []))
        compare(c, ctx, "w2", case, v, multi(case["d"]), x + " (second time)")
        # the norms the library reports for a composition hold in operations with it, too
        n = c("wf.dot", "w2", "w2")
        ref = (np.abs(v) ** 2 * b.w).sum()
        ctx.check(abs(cplx(n[0]) - ref) <= 1e-12 * (ref + 1e-9), lambda: f"{x}: <w|w> = {cplx(n[0])}, amplitudes give {ref}")


def multi(d):
    """Whether a description is a multistate one."""
    if d["t"] == "multi":
        return True
    if d["t"] == "file":
        return d["n"] > 0
    if d["t"] == "map":
        return len(d["map"]) > 1
    return multi(d["s"][0])


# ------------------------------------------------------------------ what must be refused
@st.composite
def case_bad(draw):
    b = draw(base)
    return dict(base=b, n=draw(st.integers(2, 4)), fault=draw(st.sampled_from(sorted(FAULTS))), where=draw(st.sampled_from(["top", "lc", "multi"])), i=draw(st.integers(0, 3)), seed=draw(seeds), fmt=draw(st.sampled_from(["binary", "stream"])), seq=-1, style="gauss")


FAULTS = {
    "nofile": '<{t} file="absent"/>',
    "nofileattr": '<{t}/>',
    "noclass": '<{t} name="WFNothing" file="s"/>',
    "otherclass": '<{t} name="{other}" file="s"/>',
    "lcsize": '<{t} name="LC"><wf file="s"/><wf file="bigger"/></{t}>',
    "lcsize2": '<{t} name="LC"><wf file="bigger"/><wf file="s"/></{t}>',
    "lckind": '<{t} name="LC"><wf file="s"/><wf file="m"/></{t}>',
    "lckind2": '<{t} name="LC"><wf file="m"/><wf file="s"/></{t}>',
    "lcstates": '<{t} name="LC"><wf file="m"/><wf file="more"/></{t}>',
    "lcempty": '<{t} name="LC"/>',
    "lcblank": '<{t} name="LC"> </{t}>',
    "mempty": '<{t} name="Multistate"/>',
    "mempty2": '<{t} name="Multistate" states="2"> <!-- nothing --> </{t}>',
    "mneg": '<{t} name="Multistate"><wf-1 file="s"/><wf0 file="s"/></{t}>',
    "mnonum": '<{t} name="Multistate"><wfx file="s"/><wf0 file="s"/></{t}>',
    "mnonum2": '<{t} name="Multistate"><wf file="s"/><wf1 file="s"/></{t}>',
    "mhuge": '<{t} name="Multistate"><wf0 file="s"/><wf1000000 file="s"/></{t}>',
    "mstates": '<{t} name="Multistate" states="1000000"><wf0 file="s"/></{t}>',
    "mnest": '<{t} name="Multistate"><wf0 file="m"/></{t}>',
    "mnest2": '<{t} name="Multistate"><wf0 file="s"/><wf1 file="m"/></{t}>',
    "mtwice": '<{t} name="Multistate"><wf1 file="s"/><wf0 file="s"/><wf1 file="s"/></{t}>',
    "msize": '<{t} name="Multistate"><wf0 file="s"/><wf1 file="bigger"/></{t}>',
    "msize2": '<{t} name="Multistate"><wf0 file="bigger"/><wf2 file="s"/></{t}>',
    "mapsingle": '<{t} name="Multimap" statemap="0"><wf file="s"/></{t}>',
    "mapnone": '<{t} name="Multimap"><wf file="m"/></{t}>',
    "maprange": '<{t} name="Multimap" statemap="0,{n}"><wf file="m"/></{t}>',
    "maprange1": '<{t} name="Multimap" statemap="{n}"><wf file="m"/></{t}>',
    "mapneg": '<{t} name="Multimap" statemap="-1,0"><wf file="m"/></{t}>',
    "mapneg1": '<{t} name="Multimap" statemap="-1"><wf file="m"/></{t}>',
    "mapempty": '<{t} name="Multimap" statemap="0"/>',
    "coeff2": '<{t} file="s" coeff2="-0.5"/>',
}


def run_bad(case, ctx):
    b, n, t = case["base"], case["n"], case["fault"]
    with ctx.srv("asan").case() as c:
        c(*GP)
        big = dict(b, n=b["n"] + 1 + case["i"]) if b["k"] == "level" else dict(b, dims=[[b["dims"][0][0] + 1 + case["i"], *b["dims"][0][1:]]] + b["dims"][1:])
        for nm, spec in (("s", b), ("bigger", big), ("m", {"k": "multi", "states": [b] * n}), ("more", {"k": "multi", "states": [b] * (n + 1)})):
            c("fw.new", "f", nm)
            c("fw.format", "f", case["fmt"])
            put(c, "tmp", spec, amps(spec, case["seed"]))
            c("fw.write", "f", "tmp")
        tag = "wf" if case["where"] == "top" else f"wf{case['i']}"
        x = FAULTS[t].format(t=tag, n=n + case["i"], other={"grid": "WFLevel", "level": "WFGridCartesian"}[b["k"]])
        if case["where"] == "lc":
            x = f'<wf name="LC">{"<wf9 file=%ss%s/>" % (chr(34), chr(34)) if case["seed"] % 2 else ""}{x}</wf>'
        elif case["where"] == "multi":
            x = f'<wf name="Multistate"><wf5 file="s"/>{x}</wf>'
        ctx.label(t)
        try:
            c("wf.load", "w", x)
        except QdError:
            pass
        except OtherError as e:
            ctx.fail(f"{x}: ends in {e} instead of an error of the program")
        else:
            m = c("wf.meta", "w")
            ctx.fail(f"{x}: accepted, gives a {m[0].decode()} of {m[1].decode()} amplitudes")
        # and it does not spoil what comes afterwards
        c("wf.load", "g", '<wf file="m" coeff="2"/>')
        ctx.check(same_bits(get(c, "g"), 2 * amps({"k": "multi", "states": [b] * n}, case["seed"])), f"loading after refused {x}")


# ------------------------------------------------------------------ the program starts from it
@st.composite
def case_start(draw):
    c = draw(case_build())
    c["seq"] = -1
    c["out"] = draw(st.sampled_from(["binary", "stream"]))
    return c


def run_start(case, ctx):
    with ctx.srv("asan").case() as c:
        c(*GP)
        b = Build(c, case)
        x, v = b.go(case["d"])
        if b.undef:
            return
        inp = f'<?xml version="1.0"?>\n<qdng wf_format="{case["out"]}" fftwOptimize="false"><propa dt="1" steps="1" wcycle="1" dir="out" fname="WF"><propagator name="RK4"><hamiltonian name="Scalar" value="0"/></propagator>{x}</propa></qdng>'
        open(c.s.cwd + "/in.xml", "w").write(inp)
        r = run("qdng", ["in.xml"], c.s.cwd, "asan")
        ctx.check(not r.crashed and r.ok, lambda: f"{x}: qdng exit status {r.rc}: {rtail(r)}")
        for i in (0, 1):
            c("fw.new", "o", f"out/WF_{i}")
            c("fw.readnew", "o", "w")
            compare(c, ctx, "w", case, v, multi(case["d"]), f"WF_{i} of a run starting from {x}")


def nontriv(c):
    return depth(c["d"]) > 1 or len(c["d"]["a"]) > 0


SUBS = [
    Sub("build", case_build(), run_build, (3000, 40000), nontriv, "a composition or a factor, phase or normalisation is involved"),
    Sub("refuse", case_bad(), run_bad, (700, 6000), lambda c: True, "every case is an invalid description"),
    Sub("start", case_start(), run_start, (250, 3000), nontriv, "a composition or a factor, phase or normalisation is involved"),
]
