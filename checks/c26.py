"""C26: valid inputs of every program (propagation, eigenfunctions, filters, correlation functions, optimal control) with the operators, wave functions and data files of the other checks, changed by structured mutations (attributes, nodes, names, numbers, text, data files, metadata, command line), run under AddressSanitizer / UBSan and with huge numbers under a memory limit: every run must end with success and the closing line, or with a message and failure status; certain errors must be refused."""
import re, resource, signal, subprocess
import xml.etree.ElementTree as ET
from common import *
from runner import Sub
import c03, c19, c20, c21, c22, c23, c24, c25

BUILD = [("opt", ["qdrv", "qdng"]), ("asan", ["qdrv", "qdng", "qdz", "qdinfo", "qds2qdi"])]

BUDGET = 200
PROGS = ["propa", "filter", "eigen", "oct", "cfunc"]
OPS = ["Sum", "Product", "Projection", "Scalar", "Normalize", "GridMomentum", "GridNablaSq", "GridPML", "GridGMat", "GridPotential", "GridDipole", "GridRaman", "GridPosition", "GridNabla", "GridHOFD", "Jump", "GridNAC", "GridKick", "Gobbler", "Flux", "HermitianMatrix", "MatDipole", "GridSum", "Multistate", "DMultistate"]
PROPS = ["Arnoldi", "Cheby", "GSPO", "SIL", "RK4"]
WFS = ["WFGridCartesian", "WFLevel", "Multistate", "Multimap", "LC"]
NAMES = OPS + PROPS + WFS
TAGS = ["hamiltonian", "operator", "propagator", "wf", "wf0", "wf1", "m0.0", "m0.1", "m1.1", "m7.2", "A", "B", "C", "D", "filterpre", "filterpost", "filterinit", "expec", "expeconly", "values", "autocorr", "target", "laser", "opdefs", "opdef", "udef", "wfdefs", "wfdef", "coupling", "gobbler", "matelem", "apply", "propa", "filter", "eigen", "oct", "cfunc", "multi", "qdng", "U", "H", "kick", "wft", "wfi", "op", "x"]
ATTRS = ["name", "ref", "key", "file", "files", "dt", "steps", "wcycle", "dir", "fname", "start", "order", "err", "conv", "mass", "states", "laser", "setzero", "scale", "value", "states", "nonhermitian", "unity", "normalize", "phase", "coeff", "coeff2", "statemap", "coeffs", "order", "scaling", "Emax", "Emin", "prec", "Nef", "method", "diag", "iterations", "convergence", "ntargets", "alpha", "mv", "coupling", "ttype", "phase", "shape", "read", "write", "cycles", "header", "label", "dim", "dims", "dim0", "nd", "offset", "size", "gmat", "kinetic", "couplings", "linear", "power", "sigma", "width", "win", "tol", "bin", "dx", "nfreq", "isotropic", "wf_format", "MaxMem", "MaxBufferSize", "compress", "comptol", "fftwOptimize", "debug", "tmpdir", "points", "lower", "upper", "mdim", "side", "every", "append", "energy", "norm", "proj0", "proj0Sq", "scinorm", "spectrum", "specname", "density", "rho"]
SMALL = ["", "abc", "-1", "0", "1", "2", "3", "4", "5", "7", "17", "100", "0.5", "-0.5", "-3", "1e-12", "1e12", "1e300", "-1e300", "1e-320", "nan", "inf", "-inf", "yes", "true", "no", "0 1", "1,2", "0,0", "1,,", ",", "-1,1", "1;2", "0,1,2,3,4,5,6,7,8,9", "missing", "missing/x", "init", ".", "%s%n%s", "a" * 3000, "é", "0x10", "1 2 3"]
HUGE = ["1000000", "100000000", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "4294967297", "99999999999999999999", "1e18", "65536", "46341", "1e9", "-2147483647", "1073741824", "536870912"]


class Got(Exception):
    pass


class Capture:
    """The context of another check's case: stops when the wanted input has been written."""
    def __init__(self, ctx, skip):
        self.ctx, self.skip, self.doc, self.args = ctx, skip, None, []

    def __getattr__(self, n):
        return getattr(self.ctx, n)

    def label(self, l):
        pass


def second(ctx, c, case, doc, what, ok=True):
    """like captured, lets the first run happen (it writes the files the second one reads)"""
    if ctx.skip > 0:
        open(c.s.cwd + "/in.xml", "w").write(doc)
        r = run("qdng", (["-d", case["odir"]] if case.get("odir") else []) + ["in.xml"], c.s.cwd, "opt")
        ctx.skip -= 1
        return r
    ctx.doc, ctx.args = doc, ["-d", case["odir"]] if case.get("odir") else []
    raise Got


for m in (c19, c20, c21, c22, c23):
    m.run_qdng = second

# (check, sub, runs of the program that precede)
BASES = {
    "traj": (c19, "trajectory", 0), "restart": (c19, "restart", 1), "badpropa": (c19, "refuse", 0),
    "ritz": (c20, "ritz", 0), "lanczos": (c20, "lanczos", 0), "ac": (c20, "autocorrelation", 0), "acread": (c20, "autocorrelation", 1), "badeigen": (c20, "refuse", 0),
    "filter": (c21, "stored", 0), "along": (c21, "along", 0), "afterwards": (c21, "along", 1), "badfilter": (c21, "refuse", 0),
    "cfunc": (c22, "functions", 0), "cfuncread": (c22, "stored", 1), "badcfunc": (c22, "refuse", 0),
    "oct": (c23, "iterate", 0), "gain": (c23, "gain", 0), "badoct": (c23, "refuse", 0),
}
SUB = {k: next(s for s in v[0].SUBS if s.name == v[1]) for k, v in BASES.items()}


@st.composite
def value(draw, huge):
    if huge and draw(st.integers(0, 4)):
        return draw(st.sampled_from(HUGE))
    return draw(st.one_of(st.sampled_from(SMALL), st.sampled_from(SMALL), st.sampled_from(NAMES), st.integers(-3, 40).map(str), flt(-5, 5).map(g17)))


I = st.integers(0, 10**6)


@st.composite
def mut(draw, huge):
    if huge:
        k = draw(st.sampled_from(["set", "set", "set", "set", "add", "file", "del"]))
    else:
        k = draw(st.sampled_from(["set", "set", "set", "set", "set", "del", "add", "swap", "copy", "ndel", "ndel", "ndup", "name", "name", "tag", "tag", "move", "replace", "clear", "file", "file", "file", "filedel", "text"]))
    m = dict(k=k, i=draw(I), j=draw(I))
    if k == "set":
        m["v"] = draw(value(huge))
    elif k == "add":
        m.update(a=draw(st.sampled_from(ATTRS)), v=draw(value(huge)))
    elif k == "name":
        m["v"] = draw(st.sampled_from(NAMES + ["Nothing"]))
    elif k == "tag":
        m["v"] = draw(st.sampled_from(TAGS))
    elif k == "file":
        m["d"] = draw(c03.mutation())
        m["m"] = draw(c03.metamut())
        m["meta"] = draw(st.booleans())
    elif k == "text":
        m["d"] = draw(c03.mutation())
    return m


@st.composite
def mcase(draw, huge=False):
    b = draw(st.sampled_from(sorted(BASES)))
    return dict(base=b, case=draw(SUB[b].strategy), muts=draw(st.lists(mut(huge), min_size=1, max_size=draw(st.sampled_from([1, 1, 2, 3])))), huge=huge)


def attrs(root):
    return [(e, a) for e in root.iter() for a in sorted(e.attrib)]


def change(root, cwd, m, log):
    k, i, j = m["k"], m["i"], m["j"]
    at = attrs(root)
    up = {c: p for p in root.iter() for c in p}
    nodes = [e for e in root.iter() if e in up]
    if k in ("set", "del", "swap", "copy") and at:
        e, a = at[i % len(at)]
        f, b = at[j % len(at)]
        if k == "set":
            log.append(f'{e.tag} {a}="{e.attrib[a]}" -> "{m["v"][:40]}"')
            e.attrib[a] = m["v"]
        elif k == "del":
            log.append(f'{e.tag} without {a}="{e.attrib[a]}"')
            del e.attrib[a]
        elif k == "swap":
            log.append(f'{e.tag} {a} and {f.tag} {b} exchanged')
            e.attrib[a], f.attrib[b] = f.attrib[b], e.attrib[a]
        else:
            log.append(f'{e.tag} {a}="{e.attrib[a]}" -> "{f.attrib[b]}"')
            e.attrib[a] = f.attrib[b]
    elif k == "add":
        e = ([root] + nodes)[i % (1 + len(nodes))]
        log.append(f'{e.tag} {m["a"]}="{m["v"][:40]}" added')
        e.attrib[m["a"]] = m["v"]
    elif nodes and k in ("ndel", "ndup", "name", "tag", "move", "replace", "clear"):
        e = nodes[i % len(nodes)]
        f = nodes[j % len(nodes)]
        if k == "ndel":
            log.append(f"{e.tag} removed")
            up[e].remove(e)
        elif k == "ndup":
            log.append(f"{e.tag} doubled")
            up[e].append(ET.fromstring(ET.tostring(e)))
        elif k == "name":
            e = [e for e in nodes if "name" in e.attrib] or [e]
            e = e[i % len(e)]
            log.append(f'{e.tag} name="{e.get("name")}" -> "{m["v"]}"')
            e.attrib["name"] = m["v"]
        elif k == "tag":
            log.append(f'{e.tag} -> {m["v"]}')
            e.tag = m["v"]
        elif k == "move" and e not in list(f.iter()) and f not in list(e.iter()):
            log.append(f"{e.tag} moved below {f.tag}")
            up[e].remove(e)
            f.append(e)
        elif k == "replace" and f not in list(e.iter()):
            log.append(f"{e.tag} replaced by {f.tag} {f.attrib}")
            p = up[e]
            n = ET.fromstring(ET.tostring(f))
            if j % 2:
                n.tag = e.tag
            p.insert(list(p).index(e), n)
            p.remove(e)
        elif k == "clear":
            log.append(f"{e.tag} emptied")
            for q in list(e):
                e.remove(q)
    elif k in ("file", "filedel"):
        fs = sorted(os.path.join(d, f) for d, _, l in os.walk(cwd) for f in l if f not in ("in.xml", "wisdom"))
        if k == "file":
            fs = [f for f in fs if f.endswith(".meta")] if m["meta"] else fs
        if fs:
            f = fs[i % len(fs)]
            log.append(f"{f[len(cwd) + 1:]} {'removed' if k == 'filedel' else 'damaged'}")
            if k == "filedel":
                os.unlink(f)
            else:
                b = open(f, "rb").read()
                open(f, "wb").write(c03.mutate_meta(b, m["m"]) if f.endswith(".meta") else c03.mutate(b, m["d"]))


def serial(root):
    return '<?xml version="1.0" encoding="UTF-8"?>\n' + ET.tostring(root, encoding="unicode")


OUTSIDE = re.compile(r"""["'=]\s*/(?!>)|\.\.|~""")


def start(prog, args, cwd, flav, timeout, limit=None):
    """like qd.run, with a limit on the address space"""
    e = dict(os.environ, OMP_NUM_THREADS="1", HOME=cwd, OMP_WAIT_POLICY="passive", **qd.ASAN_ENV)
    r = Res()

    def pre():
        resource.setrlimit(resource.RLIMIT_FSIZE, (200 << 20, 200 << 20))
        if limit:
            resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    p = subprocess.Popen([f"{qd.bpath(flav)}/{prog}", *args], cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=pre)
    try:
        o, _ = p.communicate(timeout=timeout)
        r.rc = p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        o, _ = p.communicate()
        r.rc = None
    r.out = o[-200000:].decode("latin-1")
    r.crashed = r.rc is None or r.rc < 0 or r.rc == 99 or "ERROR: AddressSanitizer" in r.out or "runtime error:" in r.out
    r.ok = r.rc == 0
    if os.environ.get("QD_SHOW"):
        if os.environ.get("QD_KEEP"):
            import shutil
            shutil.copytree(cwd, os.environ["QD_KEEP"], dirs_exist_ok=True)
        print("$", prog, *args, "->", r.rc, "\n" + r.out[-int(os.environ["QD_SHOW"]):])
    return r


def where(r):
    """first frames of a report, for the message"""
    m = re.search(r"(ERROR: AddressSanitizer[^\n]*|[^\n]*runtime error[^\n]*|terminate called[^\n]*(\n[^\n]*)?)", r.out)
    fr = re.findall(r"#\d+ 0x[0-9a-f]+ in ((?:QD|std::)[\w:~<>, ]+)", r.out)[:6]
    return (m[1].replace("\n", " ")[:300] if m else r.out[-200:].replace("\n", " ")) + " at " + " < ".join(fr)


def clean(ctx, r, what, slow_ok):
    if r.rc is None and slow_ok:
        ctx.label("unfinished with huge numbers")
        return
    ctx.check(r.rc is not None, lambda: f"{what}: no end within the time limit; printed last: {r.out[-300:]!r}")
    ctx.check(not r.crashed, lambda: f"{what}: crashed with status {r.rc}: {where(r)}")
    ctx.check(r.rc in (0, 1), lambda: f"{what}: exit status {r.rc}")
    good = "Normal termination" in r.out
    bad = re.search(r"A problematic error occured:\s*\S", r.out) is not None
    ctx.check(good == (r.rc == 0) and bad == (r.rc == 1), lambda: f"{what}: exit status {r.rc}, but it ends with {r.out[-400:]!r}")
    ctx.label("accepted" if r.rc == 0 else "refused")


def base(case, ctx):
    """writes the files of the original input; (working directory, document, arguments)"""
    mod, _, skip = BASES[case["base"]]
    cap = Capture(ctx, skip)
    try:
        SUB[case["base"]].fn(case["case"], cap)
    except Got:
        return ctx.srv("opt").cwd, cap.doc, cap.args
    return None


def run_mut(case, ctx):
    b = base(case, ctx)
    if b is None:
        return
    cwd, doc, args = b
    root = ET.fromstring(doc)
    log = []
    for m in case["muts"]:
        if m["k"] != "text":
            change(root, cwd, m, log)
    text = serial(root).encode()
    for m in case["muts"]:
        if m["k"] == "text":
            log.append(f"text damaged ({m['d']['k']})")
            text = c03.mutate(text, m["d"])
    if OUTSIDE.search(re.sub(r"<[!?/][^>]*>", "", text.decode("latin-1"))):
        ctx.label("skipped: names a path elsewhere")
        return
    open(cwd + "/in.xml", "wb").write(text)
    what = f"{case['base']} input with " + "; ".join(log)
    if case["huge"]:
        r = start("qdng", args + ["in.xml"], cwd, "opt", 8, 1 << 31)
    else:
        r = start("qdng", args + ["in.xml"], cwd, "asan", 60)
    clean(ctx, r, what, case["huge"])


GOOD = [b for b in sorted(BASES) if not b.startswith("bad")]
CERTAIN = ["cut", "cut", "empty", "program", "operator", "operator", "propagator", "wf", "wffile", "ref", "noinput", "directory", "noprograms", "root", "datafile", "junk"]


@st.composite
def sure(draw):
    b = draw(st.sampled_from(GOOD))
    return dict(base=b, case=draw(SUB[b].strategy), err=draw(st.sampled_from(CERTAIN)), i=draw(I), f=draw(flt(0, 1)), extra=draw(st.booleans()))


def run_sure(case, ctx):
    """an error that no reading of the input can excuse"""
    b = base(case, ctx)
    if b is None:
        return
    cwd, doc, args = b
    root = ET.fromstring(doc)
    e, i = case["err"], case["i"]
    prog = next(n for n in root.iter() if n.tag in PROGS)
    name = "in.xml"
    raw = None
    what = ""
    # parts of the input that are loaded whatever the options are
    hams = [n for n in prog.iter() if n.tag == "hamiltonian"] + [n for d in root if d.tag == "opdefs" for n in d]
    props = [n for n in prog.iter() if n.tag == "propagator"]
    wfs = [n for n in prog if n.tag in ("wf", "initialwf") and n.get("file")]
    if e == "operator" and hams:
        n = hams[i % len(hams)]
        n.attrib["name"] = ["Nothing", "WFLevel", "OGridNablaSq", "gridnablasq", "", "Cheby2"][i // 7 % 6]
        n.attrib.pop("ref", None)
        for c in list(n):
            n.remove(c)
        what = f'{n.tag} name="{n.get("name")}"'
    elif e == "propagator" and props:
        n = props[i % len(props)]
        n.attrib["name"] = ["Nothing", "Sum", "cheby", "", "SPO"][i // 7 % 5]
        what = f'propagator name="{n.get("name")}"'
    elif e == "ref" and hams:
        n = hams[i % len(hams)]
        for c in list(n):
            n.remove(c)
        n.attrib.clear()
        n.attrib["ref"] = "nokey"
        n.attrib["key"] = "thiskey"
        what = f"{n.tag} refers to an operator that is not defined"
    elif e == "wf" and wfs:
        n = wfs[0]
        n.attrib["name"] = ["Nothing", "Sum", "WFOther"][i % 3]
        what = f'wave function name="{n.get("name")}"'
    elif e == "wffile" and wfs:
        n = wfs[0]
        n.attrib["file"] = ["missing", "", "missing/init", n.get("file") + "x"][i % 4]
        what = f'wave function file="{n.get("file")}"'
    elif e == "datafile" and wfs:
        f = cwd + "/" + wfs[0].get("file")
        l = [f + x for x in (".wf", "-0.wf") if os.path.exists(f + x)]
        if not l:
            return
        os.unlink(l[0])
        what = f"{l[0][len(cwd) + 1:]} is not there"
    elif e == "program":
        prog.tag = ["propagation", "densmat", "Propa", "opdef", "hamiltonian", "wf"][i % 6]
        what = f"program {prog.tag}"
    elif e == "noprograms":
        for c in list(root):
            root.remove(c)
        what = "no program at all"
    elif e == "root":
        root.tag = ["input", "QDng", "hamiltonian"][i % 3]
        what = f"document {root.tag}"
    elif e == "empty":
        raw = [b"", b"\n", b"   \n\n", b"<?xml version=\"1.0\"?>\n"][i % 4]
        what = f"input {raw!r}"
    elif e == "junk":
        raw = np.random.RandomState(i).bytes(1 + i % 3000)
        raw = [raw, b"<?xml version=\"1.0\"?>" + raw, serial(root).encode() + b"<", bytes(len(raw))][i // 3000 % 4]
        what = f"input {raw[:60]!r}"
    elif e == "noinput":
        name = ["nothere", "", "in.xml/x"][i % 3]
        what = f"input file {name!r}"
    elif e == "directory":
        os.mkdir(cwd + "/dd")
        name = "dd"
        what = "a directory as input"
    elif e == "cut":
        raw = serial(root).encode().rstrip()
        raw = raw[:1 + int(case["f"] * (len(raw) - 2))]
        what = f"the input ends with {raw[-60:]!r}"
    else:
        return
    ctx.label(e)
    open(cwd + "/in.xml", "wb").write(raw if raw is not None else serial(root).encode())
    a = [name] if not case["extra"] or e not in ("program", "operator", "wffile", "cut") else [name, "v=1"]
    r = start("qdng", args + a, cwd, "asan", 60)
    what = f"{case['base']} input, {what}"
    ctx.check(r.rc is not None, lambda: f"{what}: no end within the time limit")
    ctx.check(not r.crashed, lambda: f"{what}: crashed with status {r.rc}: {where(r)}")
    ctx.check(r.rc == 1 and "Normal termination" not in r.out and "A problematic error occured" in r.out, lambda: f"{what}: exit status {r.rc}, ends with {r.out[-300:]!r}")


# ---- the other programs and the command line ----
ARGS = ["-d", "-s", "-t", "-l", "-m", "-p", "-g", "-h", "-v", "-x", "-", "--", "-dd", "-ds", "-sd", "-p2", "-m", "z", "j", "q", "0", "1", "9", "10", "-1", "1e-3", "1e300", "nan", "abc", "", "2", "100", "out", "in.xml", "w", "w.wf", "w.meta", "s", "s_0", "s_1.wf", "n", "n-0", "l", "O", "V.op", "V.meta", "missing", "missing/x", "dd", "x=1", "x=", "=1", "=", "x", "in.qds", "w" * 5000, "q.qds", "init"]


@st.composite
def cli(draw):
    prog = draw(st.sampled_from(["qdng", "qdng", "qdz", "qdz", "qdinfo", "qds2qdi"]))
    if draw(st.booleans()):
        a = draw(st.lists(st.sampled_from(ARGS), max_size=6))
    else:
        o = {"qdng": [["-d", "out"], ["-d", "dd"], ["-p", "2"], ["-p", "0"], ["-g"], ["-d"]], "qdz": [["-d"], ["-s"], ["-t", "1e-3"], ["-t", "2"], ["-l", "9"], ["-l", "0"], ["-m", "j"], ["-m", "z"], ["-m"]], "qdinfo": [["-x"]], "qds2qdi": [["-x"]]}[prog]
        f = {"qdng": ["in.xml", "in.xml", "in.qds", "in.qds", "q.qds"], "qdz": ["w", "s", "s", "n", "init", "s_0", "missing"], "qdinfo": ["w.wf", "s_0.wf", "s_1.wf", "n.wf", "n-0.wf", "init.wf", "w.meta", "init.meta"], "qds2qdi": ["in.qds", "q.qds", "in.xml", "w.wf"]}[prog]
        a = sum(draw(st.lists(st.sampled_from(o), max_size=3)), [])
        a.append(draw(st.sampled_from(f)))
        if draw(st.booleans()):
            a += draw(st.lists(st.sampled_from(["x=1", "x=abc", "x=", "v=2", "=1", "x", "x=" + "9" * 400]), max_size=2))
    return dict(prog=prog, args=a, fmt=draw(seeds), seed=draw(seeds), spec=draw(wfspecs(2, 60)), dmg=draw(st.one_of(st.just([]), c03.damage(True))), doc=draw(st.integers(0, 3)))


QDS = "qdng wf_format=\"binary\" { propa dt=1 steps=2 wcycle=1 fname=PP { propagator name=RK4 { hamiltonian name=Scalar value=$v } wf file=w } }\n"


def run_cli(case, ctx):
    with ctx.srv("opt").case() as c:
        for k, (n, sp, seq) in enumerate([("w", case["spec"], 0), ("s", case["spec"], 1), ("n", {"k": "multi", "states": [case["spec"]] * 2} if case["spec"]["k"] != "multi" else case["spec"], 0), ("init", {"k": "level", "n": 3}, 0)]):
            c("fw.new", "f", n)
            c("fw.format", "f", ["binary", "stream"][(case["fmt"] >> k) & 1])
            c("fw.compress", "f", ["none", "ZLIB"][(case["fmt"] >> 7 + k) & 1], 1e-12)
            if seq:
                c("fw.seq", "f", 1)
            for q in range(1 + seq):
                put(c, "x", sp, rng_amps(wf_size(sp), case["seed"] + k + q))
                c("fw.write", "f", "x")
        cwd = c.s.cwd
        os.mkdir(cwd + "/dd")
        open(cwd + "/in.xml", "w").write('<qdng wf_format="binary"><propa dt="1" steps="2" wcycle="1" fname="PP"><propagator name="RK4"><hamiltonian name="Scalar" value="1"/></propagator><wf file="w"/></propa></qdng>')
        open(cwd + "/in.qds", "w").write(QDS.replace("$v", "$x"))
        open(cwd + "/q.qds", "w").write(["", QDS, "$x = 1 " + QDS.replace("$v", "$x"), "for $i = 0 to 3 { a b=$i } "][case["doc"]])
        if case["dmg"]:
            c03.apply(cwd, "[wsn]*", case["dmg"])
        a = case["args"]
        what = f"{case['prog']} {' '.join(repr(x[:40]) for x in a)}" + (" with damaged files" if case["dmg"] else "")
        if "-c" in a or case["prog"] == "qdng" and any(x.startswith("-") and "c" in x for x in a):
            return
        r = start(case["prog"], a, cwd, "asan", 60)
        ctx.check(r.rc is not None, lambda: f"{what}: no end within the time limit")
        ctx.check(not r.crashed, lambda: f"{what}: crashed with status {r.rc}: {where(r)}")
        ctx.check(r.rc in (0, 1, 2), lambda: f"{what}: exit status {r.rc}")
        ctx.check(not (r.rc == 0 and "problematic error" in r.out), lambda: f"{what}: exit status {r.rc}, prints {r.out[-300:]!r}")
        ctx.check(r.rc == 0 or len(r.out.strip()) > 3, lambda: f"{what}: fails without a message")
        ctx.label(f"{case['prog']} {r.rc}")


SUBS = [
    Sub("mutations", mcase(), run_mut, (1500, 30000), lambda k: True, "every input is changed"),
    Sub("huge", mcase(True), run_mut, (300, 5000), lambda k: any(m.get("v") in HUGE for m in k["muts"]), "a huge number is involved"),
    Sub("certain", sure(), run_sure, (300, 4000), lambda k: True, "every input has an error"),
    Sub("commandline", cli(), run_cli, (500, 8000), lambda k: len(k["args"]) > 0, "arguments are given"),
]
