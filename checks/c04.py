"""C04: random histories of buffer operations (store, append, read, hold, modify in place, resize, lock, auto-lock depth, clear) for every kind of wave function and every memory limit against a list as reference model; injected faults (missing temporary directory, lost or truncated temporary files, exhausted memory); series saved and loaded back."""
import glob, os
from common import *
from runner import Sub

BUILD = [("asan", ["qdrv"])]
GONE = object()


@st.composite
def op(draw):
    k = draw(st.sampled_from(["set"] * 6 + ["add"] * 4 + ["get"] * 8 + ["hold"] * 4 + ["modify"] * 3 + ["resize", "lock", "unlock", "unlock", "autolock", "clear", "copy"]))
    o = [k]
    if k in ("set", "get", "hold", "lock", "unlock"):
        o.append(draw(st.one_of(st.integers(0, 5), st.integers(0, 11))))
    if k in ("set", "add", "modify"):
        o.append(draw(seeds))
    if k == "set":
        o.append(draw(st.sampled_from([False] * 5 + [True])))     # in k-space
    if k == "resize":
        o.append(draw(st.integers(0, 9)))
    if k == "autolock":
        o.append(draw(st.integers(0, 4)))
    if k == "copy":
        o += [draw(st.integers(0, 11)), draw(st.integers(0, 11))]
    return o


@st.composite
def history(draw, faults=False):
    spec = draw(wfspecs(2, 40, 2, True, True, 3))
    d = dict(spec=spec, lim=draw(st.sampled_from([1, 1, 2, 2, 3, 3, 4, 6, 100])), extra=draw(st.sampled_from([0, 0, 1, -1, 7])), auto=draw(st.sampled_from([None, 0, 1, 2, 3])), init=draw(st.booleans()),
             ops=[draw(op()) for _ in range(draw(st.one_of(st.integers(1, 40), st.integers(15, 60))))], tmp=draw(st.sampled_from(["", "", "t"])))
    if faults:
        d["fault"] = draw(st.sampled_from(["missing", "delete", "trunc", "memory"]))
        d["at"] = draw(st.integers(0, 30))
        d["p"] = draw(flt(0, 1))
        d["n"] = draw(st.integers(0, 6))
    return d


@st.composite
def far(draw):
    """positions far apart, or many entries"""
    d = draw(history())
    ps = draw(st.lists(st.one_of(st.integers(0, 5), st.integers(200, 600), st.integers(0, 5000), st.sampled_from([15, 16, 17, 127, 128, 255, 256, 257, 4095, 4096])), min_size=12, max_size=12, unique=True))
    ps = sorted(ps) if draw(st.booleans()) else ps
    for o in d["ops"]:
        if o[0] in ("set", "get", "hold", "lock", "unlock", "resize"):
            o[1] = ps[o[1]]
        elif o[0] == "copy":
            o[2] = ps[o[2]]
    n = draw(st.sampled_from([0, 0, 0, 20, 270, 520]))
    d["ops"] = [["add", i] for i in range(n)] + d["ops"]
    return dict(d, far=True)


def size(spec):
    return 16 * wf_size(spec)


class Model:
    """what the buffer has to deliver"""
    def __init__(self, auto):
        self.v = []                 # content per position: list of admissible values, None: never stored
        self.k = []                 # in k-space
        self.last, self.auto, self.locked = [], auto, set()
        self.hist = []              # all accesses
        self.refs = {}              # pointers handed out by position

    def protected(self):
        return set(self.last[:self.auto]) | self.locked

    def claimed(self):
        """entries that may count as protected: accesses before the number of protected ones was changed may or may not count"""
        return set(self.hist[:self.auto]) | self.protected()

    def access(self, p):
        self.hist.insert(0, p)
        self.last.insert(0, p)
        self.last = self.last[:max(self.auto, 0)]


def run(case, ctx):
    spec, fault = case["spec"], case.get("fault")
    sz = size(spec)
    limit = max(1, case["lim"] * sz + case["extra"])
    auto = 2 if case["auto"] is None else case["auto"]
    m = Model(auto)
    m.init = case["init"]         # the kind of wave function is known
    spilled = [0]
    with ctx.srv("asan").case() as c:
        tmp = case["tmp"]
        if fault == "missing":
            tmp = "nowhere/at/all"
        elif tmp:
            os.mkdir(os.path.join(c.s.cwd, tmp))
        c(*GP)
        c("gp", "MaxBufferSize", limit, *(["tmpdir", tmp] if tmp else []))
        c("buf.new", "b", *([case["auto"]] if case["auto"] is not None else []))
        new_wf(c, "w", spec)

        def files():
            return glob.glob(os.path.join(c.s.cwd, "**", "QDNG_WFBUFFER_*"), recursive=True)
        if case["init"]:
            try:
                c("buf.init", "b", "w")
            except qd.QdError as e:
                ctx.check(limit < sz, lambda: f"initialization refused with a limit of {limit} bytes, wave functions of {sz} bytes: {e!r}")
                ctx.label("limit below one wave function")
                return
            ctx.check(limit >= sz, lambda: f"limit of {limit} bytes accepted for wave functions of {sz} bytes")
            m.v, m.k = [None], [None]
        damaged = set()

        def error(e, what, extra):
            """when may an operation fail: the protected entries and those needed do not fit (one entry stays in memory as the template)"""
            need = len(m.claimed() | extra) + 1
            if fault:
                return ctx.label("error under fault")
            ctx.check(need * sz > limit or len(m.v) == 0 and not m.init, lambda: f"{what} failed although {limit // sz} wave functions fit and only {need} are needed: {e!r}")
            ctx.label("limit exceeded, reported")

        def refs():
            pr = m.protected()
            for p in list(m.refs):
                if p not in pr or p >= len(m.v):
                    del m.refs[p]
            for p, r in m.refs.items():
                a = get(c, r)
                ok = m.v[p] is None or any(a.tobytes() == x for x in m.v[p])
                ctx.check(ok, lambda: f"the protected wave function at {p} changed")

        def read(p, hold):
            if hold:
                c("buf.getref", "b", p, f"r{p}")
                a = get(c, f"r{p}")
            else:
                a = dcx(c("buf.get", "b", p)[0])
            return a

        def do(o):
            k = o[0]
            n = len(m.v)
            if k in ("set", "add"):
                p = o[1] if k == "set" else n
                ks = k == "set" and o[3] and spec["k"] == "grid"
                v = amps(spec, o[2] if k == "set" else o[1])
                new_wf(c, "x", spec)
                if ks:
                    c("wf.kspace", "x", 1)
                c("wf.set", "x", v)
                while len(m.v) <= p:
                    m.v.append(None)
                    m.k.append(None)
                old = m.v[p]
                try:
                    c("buf.set", "b", p, "x") if k == "set" else c("buf.add", "b", "x")
                except qd.QdError as e:
                    error(e, f"{k} {p}", {p})
                    m.v[p] = [v.tobytes()] + (old or [])
                    if old is None or fault == "memory":        # interrupted while it was overwritten
                        m.v[p] = None
                    m.k[p] = None
                    s = int(c("buf.size", "b")[0])
                    ctx.check(s in (n, max(n, p + 1)), "size after a failed operation")
                    del m.v[s:], m.k[s:]
                    return
                m.v[p] = [v.tobytes()]
                m.k[p] = ks
                damaged.discard(p)
            elif k in ("get", "hold"):
                p = o[1]
                try:
                    a = read(p, k == "hold")
                except qd.QdError as e:
                    if p >= n or all(x is None for x in m.v) and not m.init:
                        ctx.label("invalid position refused")
                        return
                    m.last = m.last[:max(0, m.auto - 1)]
                    if p in damaged:
                        return ctx.label("lost temporary file reported")
                    return error(e, f"get {p}", {p})
                ctx.check(p < n, lambda: f"position {p} of {n} delivered")
                m.access(p)
                b = a.tobytes()
                if m.v[p] is None:
                    ctx.label("position never stored")
                elif p in damaged and fault == "trunc":
                    pass
                else:
                    ctx.check(b in m.v[p], lambda: f"position {p} delivers something else than was stored: {a[:4]}…, stored {np.frombuffer(m.v[p][0], complex)[:4]}…")
                m.v[p] = [b]
                if k == "hold":
                    m.refs[p] = f"r{p}"
                    if m.k[p] is not None:
                        ctx.check(int(c("wf.meta", f"r{p}")[3]) == m.k[p], "basis of the wave function changed")
            elif k == "modify":
                pr = [p for p in m.refs if p in m.protected()]
                if not pr:
                    return
                p = pr[o[1] % len(pr)]
                v = amps(spec, o[1])
                c("wf.set", m.refs[p], v)
                m.v[p] = [v.tobytes()]
            elif k == "copy":        # an entry handed out is stored at another position
                pr = [p for p in m.refs if p in m.protected()]
                if not pr:
                    return
                p, q = pr[o[1] % len(pr)], o[2]
                if q == p or m.v[p] is None:
                    return
                while len(m.v) <= q:
                    m.v.append(None)
                    m.k.append(None)
                old = m.v[q]
                try:
                    c("buf.set", "b", q, m.refs[p])
                except qd.QdError as e:
                    error(e, f"copy {p} to {q}", {p, q})
                    m.v[q] = m.v[p] + old if old and fault != "memory" else None
                    m.k[q] = None
                    s = int(c("buf.size", "b")[0])
                    del m.v[s:], m.k[s:]
                    return
                m.v[q] = list(m.v[p])
                m.k[q] = m.k[p]
                damaged.discard(q)
            elif k == "resize":
                try:
                    c("buf.resize", "b", o[1])
                except qd.QdError:
                    if damaged or fault == "memory":
                        return ctx.label("lost temporary file reported")
                    raise
                if o[1] == 0:
                    m.init = False
                if o[1] < n:
                    m.last, m.locked, m.refs = [], set(), {}
                    del m.v[o[1]:], m.k[o[1]:]
                    for p in list(damaged):
                        if p >= o[1]:
                            damaged.discard(p)
                else:
                    m.v += [None] * (o[1] - n)
                    m.k += [None] * (o[1] - n)
            elif k in ("lock", "unlock"):
                if o[1] >= n:
                    try:
                        c("buf." + k, "b", o[1])
                    except qd.QdError:
                        return ctx.label("invalid position refused")
                    ctx.fail(f"{k} of position {o[1]} of {n} accepted")
                try:
                    c("buf." + k, "b", o[1])
                except qd.QdError as e:
                    return error(e, "lock", {o[1]})
                if k == "lock":
                    m.locked.add(o[1])
                else:
                    m.locked.discard(o[1])
            elif k == "autolock":
                c("buf.autolock", "b", o[1])
                m.auto = o[1]
                m.last = m.last[:m.auto]
            elif k == "clear":
                c("buf.clear", "b")
                m.init = False
                m.v, m.k, m.last, m.hist, m.locked, m.refs = [], [], [], [], set(), {}
                damaged.clear()
                ctx.check(not files(), lambda: f"temporary files left after clearing: {files()}")

        for i, o in enumerate(case["ops"]):
            if fault in ("delete", "trunc") and i == case["at"] % len(case["ops"]):
                fs = sorted(files())
                for f in fs[case["n"] % len(fs):] if fs else []:
                    if fault == "delete":
                        os.unlink(f)
                    else:
                        os.truncate(f, int(os.path.getsize(f) * case["p"]))
                    ctx.label("temporary file damaged")
                if fs:
                    damaged.update(range(len(m.v)))     # any of them may be on disk now
                    if o[0] in ("clear", "resize"):
                        continue
            if fault == "memory" and i == case["at"] % len(case["ops"]):
                used = int(c("mem.stat")[1])
                c("mem.max", used + case["n"] * sz // 2)
            if fault == "delete" and damaged and o[0] in ("clear", "resize"):
                continue
            try:
                do(o)
            except qd.QdError as e:
                if not fault == "memory":
                    raise
                ctx.label("error under fault")
            refs()
            s = int(c("buf.size", "b")[0])
            ctx.check(s == len(m.v), lambda: f"size is {s}, {len(m.v)} positions")
            if files():
                spilled[0] += 1
        if spilled[0]:
            ctx.label("spilled to disk")
        if fault == "memory":
            c("mem.max", "1G")
        # in the end everything is still there
        c("buf.autolock", "b", 0)
        m.auto, m.last, m.refs = 0, [], {}
        for p in range(len(m.v)):
            try:
                if p in m.locked:
                    c("buf.unlock", "b", p)
            except qd.QdError:
                pass
        m.locked = set()
        for p in range(len(m.v)):
            if case.get("far") and m.v[p] is None:
                continue
            do(["get", p])
        if fault == "missing":
            ctx.check(not files(), "files")
        if not damaged:
            c("buf.del", "b")
            ctx.check(not files(), lambda: f"temporary files left: {files()}")


def dcx(b):
    return np.frombuffer(b, complex)


@st.composite
def series(draw):
    n = draw(st.integers(1, 9))
    return dict(spec=draw(wfspecs(2, 40, 2, True, True, 3)), n=n, seeds=draw(st.lists(seeds, min_size=n, max_size=n)), lim=draw(st.sampled_from([2, 2, 3, 4, 100])), auto=draw(st.integers(0, 1)),
                fmt=draw(st.sampled_from(["stream", "stream", "binary"])), begin=draw(st.sampled_from([0, 0, 1, 2, 5])), step=draw(st.sampled_from([1, 1, 2, 3])), num=draw(st.sampled_from([-1, -1, 1, 2, 4, 20])), name=draw(st.sampled_from(["W", "a/WF", "x.y/Z_1"])),
                order=draw(st.sampled_from(["up", "down"])), used=draw(st.booleans()))


def run_series(case, ctx):
    spec = case["spec"]
    vs = [amps(spec, s) for s in case["seeds"]]
    with ctx.srv("asan").case() as c:
        c(*GP)
        c("gp", "MaxBufferSize", case["lim"] * size(spec), "wf_format", case["fmt"])
        if "/" in case["name"]:
            os.mkdir(os.path.join(c.s.cwd, os.path.dirname(case["name"])))
        c("buf.new", "b", case["auto"])
        for i in (range(case["n"]) if case["order"] == "up" else reversed(range(case["n"]))):
            put(c, f"w{i}", spec, vs[i])
            c("buf.set", "b", i, f"w{i}")
        c("buf.save", "b", case["name"])
        for i in range(case["n"]):
            ctx.check(dcx(c("buf.get", "b", i)[0]).tobytes() == vs[i].tobytes(), "saving changed the buffer")
        c("buf.new", "d", case["auto"])
        if case["used"]:      # whatever was in there before is replaced
            for i in range(3):
                put(c, "y", spec, amps(spec, 77 + i))
                c("buf.add", "d", "y")
        want = list(range(case["begin"], case["n"], case["step"]))
        if case["num"] > 0:
            want = want[:case["num"]]
        try:
            c("buf.read", "d", case["name"], case["begin"], case["step"], case["num"])
        except qd.QdError:
            ctx.check(not want, "series not found")
            ctx.label("begin beyond the series: refused")
            return
        n = int(c("buf.size", "d")[0])
        ctx.check(n == len(want), lambda: f"{n} entries loaded, expected {want}")
        for j, i in enumerate(want):
            a = dcx(c("buf.get", "d", j)[0])
            ctx.check(a.tobytes() == vs[i].tobytes(), lambda: f"entry {j} should be number {i} of the series")
        ctx.label(case["fmt"])
        c("buf.clear", "d")
        c("buf.clear", "b")
        ctx.check(not glob.glob(os.path.join(c.s.cwd, "**", "QDNG_WFBUFFER_*"), recursive=True), "temporary files left")


@st.composite
def wrongcase(draw):
    return dict(a=draw(wfspecs(2, 40, 2, True, True, 3)), b=draw(wfspecs(2, 40, 2, True, True, 3)), lim=draw(st.sampled_from([2, 3, 100])), n=draw(st.integers(1, 5)), pos=draw(st.integers(0, 7)))


def run_wrong(case, ctx):
    a, b = case["a"], case["b"]
    if a == b:
        return
    with ctx.srv("asan").case() as c:
        c(*GP)
        c("gp", "MaxBufferSize", case["lim"] * size(a))
        c("buf.new", "b", 0)
        v = [amps(a, i) for i in range(case["n"])]
        for i in range(case["n"]):
            put(c, "w", a, v[i])
            c("buf.set", "b", i, "w")
        put(c, "x", b, amps(b, 99))
        try:
            c("buf.set", "b", case["pos"], "x")
        except qd.QdError:
            ctx.label("refused")
            for i in range(case["n"]):
                ctx.check(dcx(c("buf.get", "b", i)[0]).tobytes() == v[i].tobytes(), "entry lost")
            return
        ctx.label("accepted")
        for i in range(case["n"]):
            if i != case["pos"]:
                ctx.check(dcx(c("buf.get", "b", i)[0]).tobytes() == v[i].tobytes(), "entry changed")


nt = lambda c: len(c["ops"]) > 5 and c["lim"] < 100
SUBS = [
    Sub("history", history(), run, (700, 30000), nt, "more than five operations with a limit that forces spilling"),
    Sub("far", far(), run, (120, 5000), nt, "more than five operations with a limit that forces spilling"),
    Sub("faults", history(True), run, (400, 20000), nt, "more than five operations with a limit that forces spilling"),
    Sub("series", series(), run_series, (200, 6000), lambda c: c["n"] > 1, "more than one entry"),
    Sub("otherkind", wrongcase(), run_wrong, (150, 4000), lambda c: c["a"] != c["b"], "wave functions of different shape"),
]
