"""C27: (programs) inputs of every program generated by the other checks, run again with several threads, repeated in the same directory, after other calculations in the same directory (with their stored FFT plans) and before or after other program blocks of the same input; (large) operators and time steps on wave functions large enough to be shared by several threads, compared with one thread, with repetitions; every comparison is between two runs of the program itself, to rounding."""
import bz2, re, shutil, tempfile, zlib
import xml.etree.ElementTree as ET
from common import *
from runner import Sub
import c19, c26, optree
from c26 import BASES, SUB, PROGS, base, start, where
from c28 import fields
from oplib import Ops, gp_plan

BUILD = [("opt", ["qdrv", "qdng"])]
BUDGET = 200
GOOD = ["traj", "traj", "traj", "restart", "ritz", "lanczos", "ac", "acread", "filter", "filter", "along", "afterwards", "cfunc", "cfuncread", "oct", "oct", "gain"]
HOW = ["threads", "threads", "threads", "again", "wisdom", "before", "before", "after", "twice", "sibling", "sibling", "sibling"]


@st.composite
def programs(draw):
    b = draw(st.sampled_from(GOOD))
    return dict(base=b, case=draw(SUB[b].strategy), how=draw(st.sampled_from(HOW)), p=draw(st.sampled_from([2, 3, 4, 7])), n=draw(st.sampled_from([4, 6, 8, 16])), seed=draw(seeds), opt=draw(st.booleans()), other=draw(st.sampled_from(["propa", "propa", "krylov", "eigen"])))


def payload(b):
    """bytes of a stream file -> list of headers and data"""
    out, i, more = [], 16, True
    while more:
        n = struct.unpack_from("<I", b, i)[0]
        h = fields(b[i + 4:i + 4 + n])
        i += 4 + n
        s = h[6][0]
        d = b[i:i + s]
        i += s
        k = (h.get(7) or [0])[0]
        out.append((h.get(2), h.get(10), zlib.decompress(d) if k == 1 else bz2.decompress(d) if k == 2 else d))
        more = bool(h[1][0])
    return out


NUM = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|[-+]?(?:nan|inf)")


def shape(t):
    """the text without its numbers; columns are aligned, a sign or a longer exponent takes a blank"""
    return re.sub(r"[ \t]+", " ", NUM.sub("#", t))


def outputs(d, skip):
    m = {}
    for p, _, l in os.walk(d):
        for f in l:
            q = os.path.relpath(os.path.join(p, f), d)
            if f in ("wisdom", "in.xml") or q in skip:
                continue
            m[q] = open(os.path.join(p, f), "rb").read()
    return m


def far(a, b, tol):
    """largest difference above the tolerance, None if there is none"""
    if len(a) != len(b):
        return f"{len(b)} instead of {len(a)} numbers"
    if not len(a):
        return None
    fa, fb = np.isfinite(a), np.isfinite(b)
    if (fa != fb).any():
        return "numbers that are not finite"
    s = float(np.abs(a[fa]).max()) if fa.any() else 0.0
    e = float(np.abs(a[fa] - b[fa]).max()) if fa.any() else 0.0
    return f"off by {e:.3g} (largest value {s:.3g})" if e > tol * s else None


def differ(name, a, b, tol):
    if a == b:
        return None
    if a[:12] == b"QDngPrtoBuf\0":
        x, y = payload(a), payload(b) if b[:12] == a[:12] else []
        if [q[:2] for q in x] != [q[:2] for q in y]:
            return "other header"
        for u, v in zip(x, y):
            if len(u[2]) != len(v[2]):
                return "other size"
            # the grid of a wave function precedes the amplitudes
            i = 4 + struct.unpack_from("<I", u[2])[0] if b"Grid" in u[0][0] and len(u[2]) > 4 and u[2][4:5] == b"\x08" else 0
            if u[2][:i] != v[2][:i]:
                return "other grid"
            r = far(np.frombuffer(u[2][i:]), np.frombuffer(v[2][i:]), tol) if (len(u[2]) - i) % 8 == 0 else None if u[2] == v[2] else "other bytes"
            if r:
                return r
        return None
    if name.endswith((".meta", ".dat", ".tab", ".txt")) or re.search(r"expec|\.log$|iter", name):
        try:
            x, y = a.decode(), b.decode()
        except UnicodeDecodeError:
            return "other text"
        if shape(x) != shape(y):
            return f"other text {y[:200]!r} instead of {x[:200]!r}"
        u, v = NUM.findall(x), NUM.findall(y)
        big = max([abs(float(q)) for q in u if np.isfinite(float(q))] + [0])
        for p, q in zip(u, v):
            if p == q or not np.isfinite(float(p)) and not np.isfinite(float(q)):
                continue
            if not abs(float(p) - float(q)) <= tol * max(abs(float(p)), 1, big * 1e-3) + 2.2 * max(c19.digits(p), c19.digits(q)):
                return f"{q} instead of {p}"
        return None
    if len(a) != len(b):
        return f"{len(b)} instead of {len(a)} bytes"
    if len(a) % 8:
        return "other bytes"
    return far(np.frombuffer(a), np.frombuffer(b), tol)


def other(kind, n, seed):
    """another, independent calculation on another grid: (section, files are written by extra())"""
    wf = '<wf file="xtra_wf"/>'
    h = '<hamiltonian name="Sum"><t name="GridNablaSq" mass="1"/><v name="GridPotential" file="xtra_v"/></hamiltonian>'
    if kind == "propa":
        return f'<propa dt="0.1" steps="3" wcycle="2" dir="xtra" fname="X"><propagator name="{["RK4", "SIL", "Cheby"][seed % 3]}">{h}</propagator>{wf}</propa>'
    if kind == "eigen":
        return f'<eigen method="imag" dt="0.1" steps="4" Nef="1" dir="xtra" fname="E"><propagator name="SIL">{h}</propagator>{wf}</eigen>'
    return f'<propa dt="0.1" steps="2" wcycle="1" dir="xtra" fname="Y"><propagator name="Arnoldi">{h}</propagator>{wf}</propa>'


def extra(c, n, seed):
    r = np.random.RandomState(seed % 2**31)
    c("fo.writegrid", "xtra_v", "binary", "none", np.array([n, -2.0, 3.0]), r.randn(n))
    sp = {"k": "grid", "dims": [[n, -2.0, 3.0]]}
    put(c, "xw", sp, rng_amps(n, seed))
    c("fw.new", "o", "xtra_wf")
    c("fw.format", "o", "binary")
    c("fw.write", "o", "xw")


def table_of(text):
    return c19.table(None, text, "")[1]


def run_programs(case, ctx):
    b = base(case, ctx)
    if b is None:
        return
    cwd, doc, args = b
    how, k = case["how"], case["base"]
    eig = BASES[k][1] in ("ritz", "lanczos", "autocorrelation")
    tol = 1e-5 if eig else 1e-7
    srv = ctx.srv("opt")
    with Tmp() as top:
        before = set(outputs(cwd, ()))
        one, two = top + "/1", top + "/2"
        shutil.copytree(cwd, one)
        root = ET.fromstring(doc)
        prog = [n for n in root.iter() if n.tag in PROGS]
        for n in prog:
            if n.tag == "oct" and n.get("iterations"):
                n.set("conv", "-1")     # the number of iterations must not depend on rounding
        if how in ("before", "after"):
            for n in ("MaxBufferSize", "MaxMem"):       # chosen for the first calculation
                root.attrib.pop(n, None)
        text = c26.serial(root)
        open(one + "/in.xml", "w").write(text)
        text1 = text
        r1 = start("qdng", args + ["in.xml"], one, "opt", 100)
        if r1.rc != 0:
            ctx.label("refused")
            return
        a = outputs(one, ())
        # the files the program did not touch are of no interest
        olds = outputs(cwd, ())
        a = {f: v for f, v in a.items() if f not in olds or olds[f] != v}
        what = f"{k} input"
        extra_args = []
        dup, tabs = None, {}
        shutil.copytree(cwd, two)
        if how == "threads":
            extra_args = ["-p", str(case["p"])]
            what += f", {case['p']} threads instead of 1"
        elif how == "again":
            if set(a) & before:
                ctx.label("overwrites its input")
                return
            shutil.rmtree(two)
            shutil.copytree(one, two)
            what += ", run again in the same directory"
        else:
            if how in ("wisdom", "before", "after"):
                with_extra(ctx, case, two)
            if args and how in ("before", "after"):
                ctx.label("one directory for all blocks")
                return
            o = other(case["other"], case["n"], case["seed"])
            if how == "wisdom":
                open(two + "/other.xml", "w").write(f'<qdng fftwOptimize="{"true" if case["opt"] else "false"}">{o}</qdng>')
                r = start("qdng", ["other.xml"], two, "opt", 100)
                ctx.check(r.rc == 0, lambda: f"preceding calculation: {r.out[-300:]}")
                what += ", after another calculation in the same directory"
            else:
                if root.tag not in ("qdng", "multi"):
                    n = ET.Element("qdng")
                    n.append(root)
                    root = n
                pos = list(root).index(prog[0])
                if how == "before":
                    root.insert(pos, ET.fromstring(o))
                    what += f", after another {case['other']} block of the same input"
                elif how == "after":
                    root.append(ET.fromstring(o))
                    what += f", before another {case['other']} block of the same input"
                else:
                    # the same block twice
                    if prog[0].tag == "oct" and root.find("opdefs") is not None:
                        ctx.label("blocks share a field")
                        return
                    q = ET.fromstring(ET.tostring(prog[0]))
                    if args:
                        dup = None
                    else:
                        if prog[0].tag != "filter":
                            q.set("dir", "dup")
                        dup = how == "twice"
                    for n in q.iter():
                        n.attrib.pop("key", None)
                        # these names do not depend on the directory
                        if n is not q and n.tag not in ("wf", "potential") and n.get("fname"):
                            tabs[n.get("fname")] = "dup_" + n.get("fname")
                            n.set("fname", "dup_" + n.get("fname"))
                    if how == "sibling":
                        if args:
                            ctx.label("one directory for all blocks")
                            return
                        # a related calculation: must be a valid one itself
                        ch = vary(q, case["seed"])
                        if not ch:
                            ctx.label("nothing to vary")
                            return
                        i = list(root).index(prog[0])
                        root.remove(prog[0])
                        root.insert(i, q)
                        alone = top + "/3"
                        shutil.copytree(cwd, alone)
                        open(alone + "/in.xml", "w").write(c26.serial(root))
                        if start("qdng", ["in.xml"], alone, "opt", 100).rc != 0:
                            ctx.label("related calculation refused")
                            return
                        root.remove(q)
                        root.insert(i, prog[0])
                        what += f", after the same block with other {', '.join(ch)}"
                    else:
                        what += ", second of two equal blocks"
                    root.insert(pos, q)
                text = c26.serial(root)
        open(two + "/in.xml", "w").write(text)
        r2 = start("qdng", args + extra_args + ["in.xml"], two, "opt", 100)
        if os.environ.get("QD_KEEP"):
            shutil.copytree(top, os.environ["QD_KEEP"], dirs_exist_ok=True)
        ctx.check(r2.rc == 0, lambda: f"{what}: exit status {r2.rc}: {where(r2) or r2.out[-300:]}")
        z = outputs(two, ())

        def again():
            return [shaken(cwd, top, text1, args, q) for q in (1, 2, 3)]
        compare(ctx, what, a, z, tol, eig, again)
        t1, t2 = table_of(r1.out), table_of(r2.out)
        if prog[0].tag == "propa" and how in ("threads", "again", "wisdom"):
            d = differ("t.dat", "\n".join(t1).encode(), "\n".join(t2).encode(), tol)
            ctx.check(d is None, lambda: f"{what}: table: {d}")
        if dup:
            # the first of the two blocks, written elsewhere
            d = (prog[0].get("dir") or "").rstrip("/")
            names = {f: tabs[f] if f in tabs else "dup/" + (f[len(d) + 1:] if d else f) for f in a if f in tabs or prog[0].tag != "filter" and ( not d or f.startswith(d + "/"))}
            w = {g: a[f] for f, g in names.items()}
            compare(ctx, what.replace("second", "first"), w, z, tol, eig, lambda: [None if q is None else {g: q[f] for f, g in names.items() if f in q} for q in again()])
        ctx.label(how)
        ctx.label(prog[0].tag)


def vary(q, seed):
    """Changes parameters of a calculation in place; names of what was changed."""
    r = np.random.RandomState(seed % 2**31)
    done = set()

    def num(n, a, f):
        try:
            n.set(a, ",".join(repr(f(float(x))) for x in n.get(a).split(",")))
            done.add(f"{n.tag if n is q else n.get('name')} {a}")
        except ValueError:
            pass
    for n in q.iter():
        if n is q and r.randint(2):
            num(n, "dt", lambda x: x * 0.75) if n.get("dt") else None
        if n is q or n.tag in ("wf", "potential"):
            continue
        for a in ("mass", "scale", "offset", "value", "G", "k", "mu", "r0", "p0", "beta"):
            if n.get(a) and r.randint(3):
                num(n, a, lambda x: x * 1.25 + (0.0 if a in ("mass", "G") else 0.1))
        if n.get("order") and n.get("name") in ("SIL", "Arnoldi"):
            n.set("order", str(max(2, int(n.get("order")) - 2)))
            done.add("order")
        if n.get("name") == "Cheby" and n.get("Emax") and r.randint(2):
            num(n, "Emax", lambda x: x + 0.5)
        if n.get("setzero"):
            n.set("setzero", "false" if n.get("setzero") == "true" else "true")
            done.add("setzero")
    return sorted(done)


def with_extra(ctx, case, d):
    srv = ctx.srv("opt")
    with srv.case() as c:
        extra(c, case["n"], case["seed"])
        for f in os.listdir(srv.cwd):
            if f.startswith("xtra"):
                shutil.copy(os.path.join(srv.cwd, f), d)


def shaken(cwd, top, text, args, seed):
    """the outputs of the first run with all wave functions, potentials and lasers changed by rounding errors"""
    d = tempfile.mkdtemp(dir=top) + "/d"
    shutil.copytree(cwd, d)
    r = np.random.RandomState(seed)
    n = 0
    for p, _, l in os.walk(d):
        for f in l:
            q = os.path.join(p, f)
            b = open(q, "rb").read()
            if f.endswith((".meta", ".dat", ".xml")) or f == "wisdom" or b[:8] == b"QDngPrto" or not b or len(b) % 8:
                continue
            v = np.frombuffer(b)
            open(q, "wb").write((v * (1 + 1e-14 * r.uniform(-1, 1, len(v)))).tobytes())
            n += 1
    open(d + "/in.xml", "w").write(text)
    x = start("qdng", args + ["in.xml"], d, "opt", 100)
    return outputs(d, ()) if n and x.rc == 0 else None


def compare(ctx, what, a, z, tol, eig, again):
    wild = None
    for f, v in sorted(a.items()):
        ctx.check(f in z, lambda: f"{what}: {f} is not written")
        if eig and (f.endswith(".wf") or "spectrum" in f):
            continue        # eigenvectors: phases and mixtures of neighbours are arbitrary
        d = differ(f, v, z[f], tol)
        if d is None:
            continue
        # a result that rounding errors of the input change likewise says nothing (Krylov space exhausted)
        if wild is None:
            wild = again()
        ctx.check(any(w is not None and (f not in w or differ(f, v, w[f], tol / 4)) for w in wild), lambda: f"{what}: {f}: {d}")
        ctx.label("ill-conditioned")


# ---- large wave functions ----
@st.composite
def large(draw):
    k = draw(st.integers(0, 3))
    if k == 0:
        s = {"k": "level", "n": draw(st.integers(20, 200))}
    elif k == 1:
        s = {"k": "grid", "dims": [[draw(st.sampled_from([512, 1000, 4096, 5000])), -4.0, 4.0]]}
    elif k == 2:
        s = {"k": "grid", "dims": [[draw(st.integers(20, 90)), -3.0, 3.5], [draw(st.integers(20, 90)), 1.0, 4.0]]}
    else:
        s = {"k": "grid", "dims": [[draw(st.integers(8, 20)), -3.0, 3.5], [draw(st.integers(8, 20)), 1.0, 4.0], [draw(st.integers(8, 20)), -1.0, 1.0]]}
    if draw(st.integers(0, 2)) == 0:
        s = {"k": "multi", "states": [s] * draw(st.integers(1, 3))}
    ops = [draw(optree.tree(s, draw(st.integers(0, 2)))) for _ in range(draw(st.integers(1, 2)))]
    return dict(wf=s, ops=ops, seed=draw(seeds), p=draw(st.sampled_from([2, 3, 4, 5])), u=draw(st.sampled_from(["RK4", "Cheby", "RK4", "Cheby", None])), plan=draw(st.sampled_from(["estimate", "estimate", "default"])), reps=draw(st.integers(1, 3)))


def run_large(case, ctx):
    with ctx.srv("opt").case() as c:
        wf = case["wf"]
        c(*gp_plan(case["plan"]))
        ops = Ops(c, wf, None)
        ops.keys = {}
        n = wf_size(wf)
        x, y = rng_amps(n, case["seed"]), rng_amps(n, case["seed"] + 1)
        for i, s in enumerate(case["ops"]):
            t = ops.xml(s)
            res = {}
            todo = [(1, 0)] + [(case["p"], j) for j in range(case["reps"])] + [(1, 1)]
            for th, j in todo:
                c("threads", th)
                o = f"O{i}.{th}.{j}"
                c("op.load", o, t)
                put(c, "x", wf, x)
                put(c, "y", wf, y)
                put(c, "d", wf, y)
                c("op.init", o, "x")
                got = {}
                c("op.apply", o, "d", "x")
                got["Apply"] = get(c, "d")
                put(c, "d", wf, y)
                c("op.applyadd", o, "d", "x")
                got["ApplyAdd"] = get(c, "d")
                z = qd.cplx(c("op.matel", o, "y", "x")[0])
                got["MatrixElement"] = np.array([z])
                got["Expec"] = np.array([qd.dbl(c("op.expec", o, "x")[0])])
                put(c, "d", wf, x)
                c("op.inplace", o, "d")
                got["Apply in place"] = get(c, "d")
                got["norm"] = np.array([qd.dbl(c("wf.norm", "x")[0])])
                got["dot"] = np.array([qd.cplx(c("wf.dot", "y", "x")[0])])
                sc = {q: float(np.abs(v).max()) for q, v in got.items()}
                big = max(sc["Apply"], sc["Apply in place"]) * float(np.sqrt(n)) * float(np.max(metric(wf))) * 10 * float(np.sqrt(n))
                sc["MatrixElement"] = sc["Expec"] = big
                sc["dot"] = sc["norm"] = float(n) * float(np.max(metric(wf))) * 10
                if not res:
                    res = got
                    continue
                for q, v in got.items():
                    e = float(np.abs(v - res[q]).max())
                    ctx.check(np.isfinite(v).all() == np.isfinite(res[q]).all() and not e > 1e-11 * max(sc[q], float(np.abs(res[q]).max())), lambda: f"{q} of {t[:400]} on {kind(wf)} ({n} amplitudes): {th} threads differ from one by {e:.3g} (largest value {sc[q]:.3g})")
        if case["u"]:
            h = ops.xml(case["ops"][0])
            e = re.sub(r"^<op ", "<hamiltonian ", h.strip())
            e = re.sub(r"</op>$", "</hamiltonian>", e)
            at = ' order="9" scaling="25"' if case["u"] == "Cheby" else ""
            first = None
            for th in (1, case["p"], case["p"], 1):
                c("threads", th)
                c("clock", 0.01, 5, 0)
                c("op.load", "U", f'<propagator name="{case["u"]}"{at}>{e}</propagator>')
                c("op.clock", "U")
                c("u.forward", "U")
                put(c, "d", wf, x)
                c("op.init", "U", "d")
                for _ in range(2):
                    c("op.inplace", "U", "d")
                v = get(c, "d")
                if first is None:
                    first = v
                    if not np.isfinite(v).all():
                        break
                d = float(np.abs(v - first).max())
                ctx.check(d <= 1e-9 * float(np.abs(first).max()), lambda: f"step of {case['u']} with {e[:400]} on {kind(wf)} ({n} amplitudes): {th} threads differ from one by {d:.3g}")
            ctx.label(case["u"])
        ctx.label(kind(wf))


SUBS = [
    Sub("programs", programs(), run_programs, (350, 5000), lambda k: True, "all"),
    Sub("large", large(), run_large, (250, 3000), lambda k: True, "all"),
]
