"""C11: histories of calls (apply, in place, add, matrix element, expectation value, repeated, re-initialised) on every kind of operator against one dense numpy matrix per operator."""
from optree import *
from runner import Sub

BUILD = [("opt", ["qdrv"])]


@st.composite
def single_op(draw):
    wf = draw(smallwf(0, 60))
    ck = draw(c14.clocks()) if draw(st.booleans()) else None
    return dict(wf=wf, clock=ck, keys={}, op=draw(leaf(wf, ck)), acts=draw(st.lists(action(ck), min_size=2, max_size=8)))


def run_single(case, ctx):
    ctx.label(case["op"]["t"])
    run_scenario(case, ctx)


def run_comp(case, ctx):
    for k in kinds_of(case["op"]):
        ctx.label(k)
    run_scenario(case, ctx)


@st.composite
def mismatch(draw):
    """An operator made for one wave function offered another one it cannot act on."""
    wf = draw(smallwf(3, 60))
    m = draw(st.sampled_from(["kind", "size", "states", "wrap"]))
    if wf["k"] == "multi":
        op = draw(tree(wf, 1, None, None, True))
        s = wf["states"][0]
        n = len(wf["states"])
        if m == "kind" and not uses(op, None, {}) & {"nablasq", "pot", "position", "nabla", "momentum", "gmat", "nac", "kick", "gobbler", "hofd", "pml", "hermmat"}:
            m = "states"        # scalars act on anything
        if m == "wrap":
            new = s
        elif m == "kind":
            new = {"k": "multi", "states": [{"k": "level", "n": 3} if s["k"] == "grid" else {"k": "grid", "dims": [[4, -1.0, 1.0]]}] * n}
        else:
            new = {"k": "multi", "states": [s] * (n + draw(st.integers(1, 3)))} if n == 1 or draw(st.booleans()) else {"k": "multi", "states": [s] * draw(st.integers(1, n - 1))}
    elif wf["k"] == "grid":
        d = wf["dims"]
        op = draw(st.one_of([nsq(d, False), gmat(d), nac(d), c14.s_pot(d), nabla(d), pml(d), c14.s_kick(d), c14.s_position(d)]))
        if m == "size" and op["t"] in ("nablasq", "gmat", "nac", "pml", "pot"):
            # one dimension more (a potential: other bounds or points)
            new = {"k": "grid", "dims": d + [[3, 0.0, 1.0]]}
            if op["t"] == "pot" and draw(st.booleans()):
                e = [list(x) for x in d]
                i = draw(st.integers(0, len(e) - 1))
                if draw(st.booleans()):
                    e[i][0] += 1
                else:
                    e[i][2] += 0.5
                new = {"k": "grid", "dims": e}
        elif m == "states":
            new = {"k": "multi", "states": [wf] * draw(st.integers(1, 3))}
        else:
            new = {"k": "level", "n": wf_size(wf)}
    else:
        op = draw(c14.s_mat())
        new = {"k": "level", "n": wf["n"] + draw(st.integers(1, 4))} if wf["n"] == 1 or draw(st.booleans()) else {"k": "level", "n": draw(st.integers(1, wf["n"] - 1))}
        if m == "states":
            new = {"k": "multi", "states": [wf] * draw(st.integers(1, 3))}
    comp = draw(st.integers(0, 3))
    if comp == 0:
        op = dict(t="sum", m=[dict(t="scalar", value=1.0), op])
    elif comp == 1:
        op = dict(t="product", m=[op, dict(t="scalar", value=2.0)])
    return dict(wf=wf, new=new, op=op)


def run_mismatch(case, ctx):
    wf, new, op = case["wf"], case["new"], case["op"]
    ctx.label(f"{op['t']} {kind(wf)} -> {kind(new)}")
    with ctx.srv().case() as c:
        c(*GP)
        ops = Ops(c, wf)
        put(c, "p", new, amps(new, 1))
        new_wf(c, "d", new)
        try:
            c("op.load", "O", ops.xml(op))
            c("op.ginit", "O", "p")
            c("op.apply", "O", "d", "p")
        except QdError:
            return
    if uses(op, None, {}) <= {"sum", "product", "scalar"}:
        return      # multiplication with a number fits everything
    ctx.fail(f"{brief(op)} made for {wf} is accepted for {new}")


hows = lambda k: len({a[0] for a in k["acts"]} - {"step", "reinit"}) > 1
SUBS = [
    Sub("single", single_op(), run_single, (700, 10000), hows, "at least two ways of calling the operator"),
    Sub("composed", scenario(1, 2, 3, force=True), run_comp, (500, 8000), hows, "at least two ways of calling the operator"),
    Sub("incompatible", mismatch(), run_mismatch, (200, 3000), None, "every case"),
]
