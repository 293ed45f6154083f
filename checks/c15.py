"""C15: generated trees of sums, products, grid sums and operator matrices (nested, with references and shared members) against the same algebra of dense numpy matrices."""
from optree import *
from runner import Sub

BUILD = [("opt", ["qdrv"])]


def run_tree(case, ctx):
    top = case["op"]
    while top["t"] == "ref":
        top = case["keys"][top["key"]][1]
    ctx.label(f"{top['t']} depth {depth_of(top)}" + (" refs" if "ref" in kinds_of(case["op"]) or case["keys"] else ""))
    run_scenario(case, ctx)


# ------------------------------------------------------------------ one operator in several places
@st.composite
def shared(draw):
    wf = draw(smallwf(2, 30))
    ck = draw(c14.clocks()) if draw(st.booleans()) else None
    multi = wf["k"] == "multi"
    w = wf["states"][0] if multi else wf
    # ("s": acts on one state, "m": on all)
    inner = draw(st.one_of(herm(w, 1, ck), leaf(w, ck)))
    keys = {"K0": ["s", inner]}
    ref = dict(t="ref", key="K0")
    if multi:
        n = len(wf["states"])
        cells = [(i, j) for i in range(n) for j in range(n)]
        sel = draw(st.lists(st.sampled_from(cells), min_size=1, max_size=6, unique=True))
        if draw(st.booleans()):
            # a new name for an operator that is known by another
            keys["K1"] = ["s", dict(t="sum", m=[ref, draw(leaf(w, ck))])]
        pick = lambda: dict(t="ref", key=draw(st.sampled_from(sorted(keys))))
        s = dict(t="multistate", nonhermitian=True, unity=draw(st.sampled_from([None, True, False])), states=n, el=[[i, j, pick() if draw(st.integers(0, 2)) else draw(leaf(w, ck))] for i, j in sorted(sel)])
        if draw(st.integers(0, 2)) == 0:
            keys["K2"] = ["m", s]
            s = dict(t=draw(st.sampled_from(["sum", "product"])), m=[dict(t="ref", key="K2")] * draw(st.integers(2, 3)))
    else:
        k = draw(st.integers(0, 2))
        m = [ref] * draw(st.integers(1, 3)) + [draw(leaf(w, ck)) for _ in range(draw(st.integers(0, 2)))]
        m = draw(st.permutations(m))
        s = dict(t=draw(st.sampled_from(["sum", "product"])), m=list(m))
        if k:
            o = dict(t=draw(st.sampled_from(["sum", "product"])), m=[ref, draw(leaf(w, ck))])
            s = dict(t=draw(st.sampled_from(["sum", "product"])), m=[s, o] if k == 1 else [o, ref, s])
    return dict(wf=wf, plan=draw(plans), clock=ck, keys=keys, op=s, acts=draw(st.lists(action(ck), min_size=2, max_size=6)))


# ------------------------------------------------------------------ grid sums
@st.composite
def gsum(draw):
    dims = draw(grids(3, 60, 2, 30))
    wf = {"k": "grid", "dims": dims}
    ck = None
    m = [draw(c14.s_pot(dims)) for _ in range(draw(st.integers(1, 6)))]
    if draw(st.integers(0, 5)) == 0:
        ck = draw(c14.clocks())
        m[draw(st.integers(0, len(m) - 1))] = draw(noscale(c14.s_dipole(dims)))
    s = dict(t="gridsum", m=m)
    if draw(st.integers(0, 2)) == 0:
        s = dict(t=draw(st.sampled_from(["sum", "product"])), m=draw(st.permutations([s, draw(leaf(wf))])))
    return dict(wf=wf, plan=draw(plans), clock=ck, keys={}, op=s, acts=draw(st.lists(action(None), min_size=2, max_size=5)))


def run_gsum(case, ctx):
    wf, op = case["wf"], case["op"]
    if case["clock"]:
        # the field of a dipole member is left out: a listed finding, recognised by exactly that result
        if op["t"] != "gridsum":
            return
        ctx.label("with dipole")
        v = amps(wf, 5)
        with ctx.srv().case() as c:
            r = Run(ctx, c, wf, op, None, case["clock"])
            out = apply_to(c, "O", "init", wf)
            v = get(c, "init")
            M, nrm = r.M()
            if err(out, M @ v) > 1e-11 * nrm * np.abs(v).max():
                A = sum(r.ops.potval(m) if m["t"] == "dipole" else np.diag(r.ops.mat(m)) for m in op["m"])
                sc = nrm + np.abs(A).max()
                ctx.fail(f"{brief(op)} on {kind(wf)}: off by {err(out, M @ v):.3g}", "gridsum-dipole" if err(out, A * v) <= 1e-11 * sc * np.abs(v).max() else None)
        return
    run_scenario(case, ctx)


# ------------------------------------------------------------------ diagonalisable matrices of operators
@st.composite
def dms(draw):
    if draw(st.integers(0, 3)):
        w = {"k": "grid", "dims": draw(grids(2, 30, 2, 16))}
    else:
        w = {"k": "level", "n": draw(st.integers(1, 8))}
    n = draw(st.integers(1, 4))
    wf = {"k": "multi", "states": [w] * n}
    el = []
    if w["k"] == "level":
        el = [[i, i, draw(c14.s_mat())] for i in range(n)]
    elif draw(st.integers(0, 2)) == 0:
        el = [[i, i, draw(gcon(w["dims"]))] for i in range(n)]
    else:
        full = draw(st.booleans())
        for i in range(n):
            if draw(st.integers(0, 3)) or i == 0:
                el.append([i, i, draw(c14.s_pot(w["dims"]))])
            for j in range(i):
                if draw(st.booleans()):
                    o = draw(c14.s_pot(w["dims"]))
                    el.append([i, j, o] if draw(st.booleans()) else [j, i, o])
    s = dict(t="multistate", d=True, unity=draw(st.sampled_from([None, True, False])), states=n, el=el)
    return dict(wf=wf, plan=draw(plans), clock=None, keys={}, op=s, acts=draw(st.lists(action(None), min_size=2, max_size=5)))


@st.composite
def gcon(draw, dims):
    return dict(t="nablasq", mass=[draw(mass) for _ in dims])


# ------------------------------------------------------------------ both triangles, order of the elements in the input
@st.composite
def blocks(draw):
    wf = draw(smallwf(1, 20))
    n, w = len(wf["states"]), wf["states"][0]
    el = []
    for i in range(n):
        for j in range(n):
            if draw(st.booleans()):
                el.append([i, j, draw(leaf(w))])
    if not el:
        el = [[0, 0, draw(leaf(w))]]
    el = list(draw(st.permutations(el)))
    s = dict(t="multistate", nonhermitian=True, unity=draw(st.sampled_from([None, True, False])), el=el)
    # the number of states is the largest index unless it is given
    if max(max(e[0], e[1]) for e in el) < n - 1 or draw(st.booleans()):
        s["states"] = n
    return dict(wf=wf, plan=draw(plans), clock=None, keys={}, op=s, acts=draw(st.lists(action(None), min_size=2, max_size=6)))


deep = lambda k: depth_of(k["op"]) > 1 or k["keys"]
SUBS = [
    Sub("trees", scenario(3, 2, 4, keyed=True, force=True, maxpts=24, nact=6), run_tree, (500, 8000), lambda k: depth_of(k["op"]) > 2, "nested compositions"),
    Sub("shared", shared(), lambda k, x: run_scenario(k, x), (300, 5000), None, "every case"),
    Sub("gridsum", gsum(), run_gsum, (150, 2000), lambda k: len(k["op"]["m"]) > 1, "more than one member",
        fixed=[dict(wf={"k": "grid", "dims": [[4, -1.0, 1.0]]}, clock=[1.0, 8], keys={}, op=dict(t="gridsum", m=[dict(t="pot", v=dict(k="noise", seed=1)), dict(t="dipole", v=dict(k="noise", seed=2), laser=dict(k="file", seed=3))]), acts=[])]),
    Sub("dmultistate", dms(), lambda k, x: run_scenario(k, x), (150, 2000), lambda k: len(k["wf"]["states"]) > 1, "more than one state"),
    Sub("blocks", blocks(), lambda k, x: run_scenario(k, x), (250, 4000), lambda k: len(k["op"]["el"]) > 1, "more than one element"),
]
