"""C21: generated chains of filters on generated series of stored wave functions and on propagations of the program itself: every written number against dense matrix elements, the printed populations, order and time of the rows; the same chain within a propagation and afterwards; invalid requests and incomplete series."""
import filt
from c19 import *
from filt import Chain, chain, chain_xml, compare_table

BUILD = [("opt", ["qdrv", "qdng"])]
BUDGET = 150
FINAL = "filterdef"


def write_series(c, case, vs, base):
    c("fw.new", "f", base)
    c("fw.format", "f", case["fmt"])
    c("fw.seq", "f", 1)
    new_wf(c, "w0", case["wf"])
    for v in vs:
        put(c, "w0", case["wf"], v)
        c("fw.write", "f", "w0")


def write_meta(c, case, **kw):
    m = dict(CLASS="Propagation", Nt=case["nt"], dt=case["dt"], Wcycle=case["wc"], WFBaseName=case["base"])
    m.update(kw)
    d = c.s.cwd + "/" + case["path"].rstrip("/")
    os.makedirs(d, exist_ok=True)
    with open(d + "/Propagation.meta", "w") as f:
        for k, v in m.items():
            if v is not None:
                f.write(f"{k} = {g17(v) if isinstance(v, float) else v}\n")


def filter_xml(case, section, **kw):
    a = dict(path=case["path"], dir=case["dir"], fname=case["tname"])
    a.update(kw)
    return f"<filter{xa(**a)}>{section}</filter>"


def keydefs(ops, keys):
    """Operators defined in advance and referred to by key."""
    x = ""
    for q, (lev, s) in keys.items():
        o = ops.sub if lev == "s" and ops.wf["k"] == "multi" else ops
        x += o.xml(s, "opdef").replace(" name=", f' key="{q}" name=', 1)
        ops.keys[q] = s
    return f"<opdefs>{x}</opdefs>" if x else ""


names = dict(dir=st.sampled_from([None, "out", "a/b/"]), tname=st.sampled_from([None, None, "values.txt"]), fmt=st.sampled_from(["binary", "stream"]), odir=st.sampled_from([None, None, None, "over"]),
             path=st.sampled_from(["in", "in/", "x/y", "."]), base=st.sampled_from(["WF", "psi_t", "a.b"]), dt=st.one_of(flt(0.01, 10), flt(-5, -0.1), st.sampled_from([1.0, 0.1])))


@st.composite
def stored(draw):
    wf = draw(smallwf(2, 40))
    k = dict(wf=wf, seed=draw(seeds), style=draw(st.sampled_from(["gauss", "gauss", "sparse", "real", "wide"])))
    k.update({a: draw(s) for a, s in names.items()})
    k["n"] = draw(st.one_of(st.integers(1, 4), st.integers(1, 14)))        # files after the first
    k["wc"] = draw(st.sampled_from([1, 1, 2, 3, 10]))
    k["rest"] = draw(st.integers(0, 9)) % k["wc"]                           # steps behind the last file
    k["nt"] = k["n"] * k["wc"] + k["rest"]
    # fields in the operators have the time step of the propagation
    ck = (1.0, k["n"]) if k["wc"] == 1 and draw(st.booleans()) else None
    k["clock"] = bool(ck)
    if ck:
        k["dt"] = abs(k["dt"])          # fields have positive steps
    keys = {} if draw(st.booleans()) else None
    k["c"] = draw(chain(wf, ck, keys, True, 5))
    k["keys"] = {q: list(v) for q, v in (keys or {}).items()}
    k["renorm"] = draw(st.sampled_from([None, True, False]))
    k["secname"] = draw(st.sampled_from([None, None, None, "own.tab"]))
    return k


def pops_of(ctx, text, what):
    """Populations the program prints for every step."""
    lines = [l.strip(" ") for l in text.split("\n")]
    i = next((j for j, l in enumerate(lines) if l.startswith("Step\tTime")), None)
    ctx.check(i is not None, f"{what}: no table is printed")
    return [[t for t in l.split("\t") if t] for l in lines[i + 1:] if re.match(r"-?\d+\t", l)]


def run_stored(case, ctx):
    wf = case["wf"]
    dt = case["dt"]
    with ctx.srv().case() as c:
        ops = Ops(c, wf, (dt, case["n"]) if case["clock"] else None)
        ops.keys = {}
        pre = keydefs(ops, case["keys"])
        section = chain_xml(ops, case["c"], FINAL, renorm=case["renorm"], fname=case["secname"])
        vs = [amps(wf, case["seed"] + 7 * i, case["style"]) for i in range(case["n"] + 1)]
        write_meta(c, case)
        write_series(c, case, vs, case["path"].rstrip("/") + "/" + case["base"])
        what = f"filters {[f['a'] for f in case['c']]} on {case['n'] + 1} {kind(wf)} files (write cycle {case['wc']}, dt {dt:.4g}, renorm {case['renorm']})"
        ctx.label(("field " if case["clock"] else "") + ("keys " if case["keys"] else "") + kind(wf).split("(")[0])
        ref = Chain(ops, case["c"], bool(case["renorm"]))
        T = dt * case["wc"]
        w = metric(wf)
        out = []
        for i, v in enumerate(vs):
            ops.t = i
            with np.errstate(all="ignore"):
                out.append(ref.apply(v, i * T, T))
            if not 1e-100 < float((w * np.abs(out[-1]) ** 2).sum()) < 1e100:
                return          # nothing is left of the state
        r = run_qdng(ctx, c, case, document(case, pre + filter_xml(case, section)), what)
        rows = pops_of(ctx, r.out, what)
        ctx.check(len(rows) == len(vs), f"{what}: {len(rows)} lines printed for {len(vs)} files")
        for i, (v, l) in enumerate(zip(out, rows)):
            pops = [v] + (list(v.reshape(len(wf["states"]), -1)) if wf["k"] == "multi" else [])
            want = [i, i * T] + [float((w[:len(u)] * np.abs(u) ** 2).sum()) for u in pops]
            ctx.check(len(l) == len(want) and all(abs(float(a) - b) <= digits(a) + 1e-9 * abs(b) for a, b in zip(l, want)), lambda: f"{what}: prints {l} instead of {want}")
        path = c.s.cwd + "/" + (case["secname"] or where(case) + (case["tname"] or "expec.dat"))
        if filt.writes(case["c"]):
            ctx.check(os.path.exists(path), f"{what}: no table {path.split('/')[-1]}")
            compare_table(ctx, open(path).read(), ref, what)
        # the series itself is only read
        for i in sorted({0, case["n"], case["seed"] % (case["n"] + 1)}):
            c("fw.new", "o", case["path"].rstrip("/") + f"/{case['base']}_{i}")
            c("fw.readnew", "o", "w")
            ctx.check(np.array_equal(get(c, "w"), vs[i]), f"{what}: the stored wave function {i} was changed")


# ------------------------------------------------------------------ the same chain within the propagation
@st.composite
def along_(draw):
    k = draw(rcase(filters=0, start=False))
    k["n"] = draw(st.integers(1, 16))
    k["wcycle"] = 1 if k["clock"] else draw(st.integers(1, min(4, k["n"])))
    k["opt"] = {}
    k["c"] = [f for f in draw(chain(k["wf"], (1.0, k["n"]) if k["clock"] else None, change=False, depth=2)) if not f.get("int")] or [dict(a="expeconly", op=dict(t="sum", m=[dict(t="scalar", value=2.0)]))]
    k["renorm"] = draw(st.booleans())
    k["sl"] = draw(st.booleans())
    k["tname"] = None
    return k


def values(ctx, path, what):
    try:
        l = [x for x in open(path).read().split("\n")[1:] if x.strip()]
    except OSError as e:
        ctx.fail(f"{what}: {e}")
    return [[numbers(t) for t in x.split("\t") if t] for x in l]


def run_along(case, ctx):
    with ctx.srv().case() as c:
        p, dt = prepare(case, ctx, c)
        write_init(c, case)
        wc = case["wcycle"]
        pre = chain_xml(p.ops, case["c"], "filterpre", renorm=case["renorm"], fname="pre.tab")
        post = chain_xml(p.ops, case["c"], "filterpost", renorm=case["renorm"], fname="post.tab")
        after = chain_xml(p.ops, case["c"], FINAL, renorm=case["renorm"], fname="after.tab")
        what = f"{tag(case)}, filters {[f['a'] for f in case['c']]} (renorm {case['renorm']})"
        run_qdng(ctx, c, case, document(case, propa_xml(case, p, pre + post)), what)
        d = where(case)
        case = dict(case, path=(d or "./") if case["sl"] else (d.rstrip("/") or "."))
        run_qdng(ctx, c, case, document(case, filter_xml(case, after)), what + ", filters afterwards")
        A, B, C = (values(ctx, f"{c.s.cwd}/{f}.tab", what) for f in ("pre", "post", "after"))
        ctx.check(len(A) == len(B) == case["n"], f"{what}: {len(A)} and {len(B)} rows for {case['n']} steps")
        ctx.check(len(C) == case["n"] // wc + 1, f"{what}: {len(C)} rows for {case['n'] // wc + 1} files")
        ref = Chain(p.ops, case["c"], case["renorm"])
        for k, row in enumerate(C):
            for nm, T, i in (("before", A, k * wc), ("after", B, k * wc - 1)):
                if not 0 <= i < case["n"]:
                    continue
                x, y = T[i], row
                ctx.check(len(x) == len(y), f"{what}: {len(x)} columns {nm} the step {i}, {len(y)} afterwards")
                c("fw.new", "o", d + (case["fname"] or "WF") + f"_{k}")
                c("fw.readnew", "o", "w")
                p.ops.t = k * wc
                ref.apply(get(c, "w"), k * wc * dt, dt)
                for a, b, (_, sc) in zip(x, y, ref.rows[-1]):
                    ctx.check(all(abs(s - t) <= 1.2e-9 * (abs(s) + sc) for s, t in zip(a, b)), f"{what}: {a} {nm} step {i} of the propagation, {b} from the stored wave function {k}")
        ctx.label(f"cycle {wc}")


# ------------------------------------------------------------------ invalid requests
BADF = {
    "no path": dict(path=None), "wrong path": dict(path="nowhere"), "no metadata": "nometa", "other metadata": dict(CLASS="WFGridCartesian"), "no class": dict(CLASS=None), "missing first file": "first", "missing file": "middle", "missing last file": "last",
    "empty filters": "<filterdef/>", "unknown filter": '<filterdef><expecc name="Scalar" value="1"/></filterdef>', "unknown operator": '<filterdef><expeconly name="Nix"/></filterdef>', "unknown value": '<filterdef><expeconly value="phase" name="Sum"><a name="Scalar" value="1"/></expeconly></filterdef>',
    "rho without states": '<filterdef><rho/></filterdef>', "rho with one state": '<filterdef><rho ms="0"/></filterdef>', "rho beyond the states": '<filterdef><rho ms="0,7"/></filterdef>', "no content": "void", "unwritable table": '<filterdef fname="no/where/t"><expeconly name="Sum"><a name="Scalar" value="1"/></expeconly></filterdef>',
    "undefined key": '<filterdef><expeconly ref="xyz"/></filterdef>',
}


@st.composite
def refuse21(draw):
    k = draw(stored().filter(lambda k: k["n"] >= 2 and not k["clock"]))
    k["bad"] = draw(st.sampled_from(sorted(BADF)))
    k["keys"] = {}
    k["c"] = [dict(a="expeconly", op=dict(t="sum", m=[dict(t="scalar", value=2.0)]))]
    return k


def run_refuse21(case, ctx):
    with ctx.srv().case() as c:
        ops = Ops(c, case["wf"])
        b = BADF[case["bad"]]
        vs = [amps(case["wf"], case["seed"] + 7 * i, case["style"]) for i in range(case["n"] + 1)]
        meta = b if isinstance(b, dict) and "path" not in b else {}
        write_meta(c, case, **meta)
        p = case["path"].rstrip("/") + "/"
        write_series(c, case, vs, p + case["base"])
        d = c.s.cwd + "/" + p
        if b in ("first", "middle", "last"):
            i = {"first": 0, "middle": max(1, case["n"] // 2), "last": case["n"]}[b]
            for f in os.listdir(d):
                if re.fullmatch(re.escape(case["base"]) + rf"(-\d+)?_{i}\.wf", f):
                    os.unlink(d + f)
        if b == "nometa":
            os.unlink(d + "Propagation.meta")
        section = b if isinstance(b, str) and b.startswith("<") else "" if b == "void" else chain_xml(ops, case["c"], FINAL)
        a = b if isinstance(b, dict) and "path" in b else {}
        ctx.label(case["bad"])
        run_qdng(ctx, c, case, document(case, filter_xml(case, section, **a)), f"filter with {case['bad']} ({kind(case['wf'])}, {case['fmt']})", ok=False)


SUBS = [
    Sub("stored", stored(), run_stored, (500, 8000), lambda k: filt.writes(k["c"]) and len(k["c"]) > 1, "a table of a chain of several filters is written"),
    Sub("along", along_(), run_along, (150, 2000), lambda k: k["n"] >= k["wcycle"], "further wave functions are written"),
    Sub("refuse", refuse21(), run_refuse21, (90, 900), lambda k: True, "every request is invalid"),
]
