"""C28: generated histories of commands sent to qdng in interactive mode over its FIFOs (model of the parameters, files, operators and propagators held by the session): every answer must come in the documented framing and agree with the same calculation in the program library; wrong commands must be answered with an error message."""
import os, select, struct, subprocess, time
import optree, prop
from common import *
from runner import Sub
from oplib import Ops, gp_plan
from c18 import pcase, setup
from prop import Prop

BUILD = [("opt", ["qdrv"]), ("asan", ["qdng"])]
QUIT, GETP, SETP, CLEAR, RUN, RWF, WWF, ROP, WOP, LOP, LU, DOP, EXPEC, MATEL, APPLY = 0, 1, 2, 3, 10, 20, 21, 30, 31, 32, 33, 34, 40, 41, 42
MAGIC = b"QDngPrtoBuf\0"


def varint(n):
    o = b""
    while True:
        o += bytes([n & 127 | (128 if n > 127 else 0)])
        n >>= 7
        if not n:
            return o


def command(cmd, xml=None, s=(), d=()):
    b = b"\x08" + varint(cmd)
    for f, v in [(2, xml)] + [(3 + i, q) for i, q in enumerate(s)]:
        if v is not None:
            v = v.encode() if isinstance(v, str) else v
            b += varint(f << 3 | 2) + varint(len(v)) + v
    for i, v in enumerate(d):
        if v is not None:
            b += varint((6 + i) << 3 | 1) + struct.pack("<d", v)
    return b


def fields(b):
    """protobuf message -> {field: [values]}"""
    i, m = 0, {}

    def vi():
        nonlocal i
        n = s = 0
        while True:
            c = b[i]
            i += 1
            n |= (c & 127) << s
            s += 7
            if c < 128:
                return n
    while i < len(b):
        k = vi()
        f, w = k >> 3, k & 7
        if w == 0:
            v = vi()
        elif w == 1:
            v = struct.unpack("<d", b[i:i + 8])[0]
            i += 8
        elif w == 2:
            n = vi()
            v = b[i:i + n]
            if len(v) != n:
                raise ValueError("cut message")
            i += n
        elif w == 5:
            v = b[i:i + 4]
            i += 4
        else:
            raise ValueError(f"wire type {w}")
        m.setdefault(f, []).append(v)
    return m


class Over(Exception):
    """the session has ended"""


class Session:
    def __init__(self, ctx, cwd, what):
        self.ctx, self.cwd, self.what = ctx, cwd, what
        e = dict(os.environ, OMP_NUM_THREADS="1", HOME=cwd, **qd.ASAN_ENV)
        self.log = open(cwd + "/log.txt", "wb")
        self.p = subprocess.Popen([qd.bpath("asan") + "/qdng", "-c", "sess"], cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=self.log, stderr=subprocess.STDOUT)
        self.buf, self.fi, self.fo = b"", None, None
        t = time.time()
        while not (b"interactive mode" in open(cwd + "/log.txt", "rb").read() and os.path.exists(cwd + "/sesstx")):
            if self.p.poll() is not None or time.time() - t > 60:
                self.fail("no session comes up")
            time.sleep(0.003)
        self.fo = os.open(cwd + "/sessrx", os.O_RDWR | os.O_NONBLOCK)
        self.fi = os.open(cwd + "/sesstx", os.O_RDWR | os.O_NONBLOCK)

    def text(self):
        return open(self.cwd + "/log.txt", "rb").read().decode("latin-1")

    def close(self):
        for f in (self.fi, self.fo):
            if f is not None:
                os.close(f)
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        self.log.close()

    def fail(self, msg):
        rc = self.p.poll()
        t = self.text()
        import re
        m = re.search(r"(ERROR: AddressSanitizer[^\n]*|[^\n]*runtime error[^\n]*|terminate called[^\n]*|libprotobuf[^\n]*)", t)
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (QD[\w:~]+)", t)[:5]
        raise Failure(f"{self.what}: {msg} (exit status {rc}; {m[1][:250] + ' at ' + ' < '.join(fr) if m else t[-200:]!r})")

    def pump(self, out=b"", want=0, limit=60):
        """sends out, waits for want bytes; the data arriving meanwhile is kept"""
        t = time.time()
        while out or len(self.buf) < want:
            r, w, _ = select.select([self.fi], [self.fo] if out else [], [], 0.05)
            if w:
                try:
                    out = out[os.write(self.fo, out[:4096]):]
                except BlockingIOError:
                    pass
            if r:
                try:
                    self.buf += os.read(self.fi, 1 << 16)
                except BlockingIOError:
                    pass
                continue
            if not w and self.p.poll() is not None:
                raise Over()
            if time.time() - t > limit:
                self.fail("no answer within the time limit")

    def take(self, n):
        self.pump(want=n)
        b, self.buf = self.buf[:n], self.buf[n:]
        return b

    def send(self, b):
        self.pump(out=b)

    def cmd(self, *a, **k):
        m = command(*a, **k)
        self.send(struct.pack("<I", len(m)) + m)

    def response(self):
        """(code, message, results, data follows)"""
        n = struct.unpack("<I", self.take(4))[0]
        if n > 1 << 24:
            self.fail(f"an answer of {n} bytes is announced")
        try:
            f = fields(self.take(n))
        except (ValueError, IndexError) as e:
            self.fail(f"an answer that is not a message: {e}")
        if set(f) - {1, 2, 3, 4} or 1 not in f or 4 not in f or len(f[1]) > 1 or f[1][0] > 2:
            self.fail(f"an incomplete answer {f}")
        return f[1][0], (f.get(2) or [b""])[0].decode("latin-1"), f.get(3, []), bool(f[4][0])

    def ok(self, data=None, what=""):
        r = self.response()
        if r[0] != 0:
            self.fail(f"{what} is answered with an error: {r[1]!r}")
        if data is not None and r[3] != data:
            self.fail(f"{what}: the answer announces {'no ' if data else ''}data")
        return r

    def error(self, what, got=None):
        """an error message is due; the session may end afterwards in an orderly way"""
        try:
            r = got or self.response()
        except Over:
            self.ended(what)
            self.fail(f"{what}: no answer")
        if r[0] != 1 or not r[1].strip():
            self.fail(f"{what}: answered with {r}")
        self.ctx.label("error answered")

    def stream(self):
        """bytes of a stored object sent by the program, or the response received instead"""
        b = self.take(4)
        if b != b"QDng":
            self.buf = b + self.buf
            return None, self.response()
        b += self.take(12)
        if b[:12] != MAGIC or b[12:] != struct.pack("<I", 1):
            self.fail(f"an object begins with {b!r}")
        more = True
        while more:
            l = self.take(4)
            n = struct.unpack("<I", l)[0]
            if n > 1 << 24:
                self.fail(f"a header of {n} bytes is announced")
            h = self.take(n)
            f = fields(h)
            b += l + h + self.take(f[6][0])
            more = bool(f[1][0])
        return b, None

    def ended(self, what):
        """the session is over: it must have ended with a message"""
        try:
            rc = self.p.wait(timeout=60)
        except subprocess.TimeoutExpired:
            self.fail(f"{what}: no end of the session")
        t = self.text()
        if rc not in (0, 1) or "ERROR: AddressSanitizer" in t or "runtime error" in t:
            self.fail(f"{what}: the session crashes")
        return rc

    def alive(self):
        """still there after an error? (a new command is answered or the program has ended)"""
        try:
            self.cmd(GETP)
            r = self.response()
            return r[0] == 0
        except Over:
            rc = self.ended("error")
            if rc != 1 or "Error termination" not in self.text():
                self.fail(f"the session ends with status {rc} after an error")
            self.ctx.label("session ended by an error")
            return False


KEYS = ["alpha", "beta", "x", "myparam", "comptol"]
BAD = ["op-class", "op-xml", "op-none", "op-file", "key", "prog", "prog-xml", "noxml-run", "noname-rwf", "noname-wwf", "missing-rwf", "missing-rop", "class-rop", "class-wop", "noclass-rop", "noname-rop", "noclass-wop", "noname-wop", "nokeys", "delete", "u-nodt", "u-nont", "u-noxml", "u-class", "u-op", "step-neg", "step-big", "noclock", "incompatible", "incompatible-expec", "incompatible-matel", "unknown", "badwf", "emptyclass", "dup"]


@st.composite
def action(draw, nops):
    k = draw(st.sampled_from(["set", "get", "load", "load", "apply", "apply", "apply", "expec", "expec", "matel", "matel", "prop", "prop", "steps", "wwf", "wwf", "rwf", "rwf", "wop", "rop", "laser", "run", "run", "clear", "bad"]))
    a = dict(a=k, i=draw(st.integers(0, nops - 1)), xml=draw(st.booleans()), seed=draw(seeds), t=draw(st.one_of(st.none(), flt(0, 1))), c=draw(st.booleans()), n=draw(st.integers(0, 2)))
    if k == "set":
        a["kv"] = draw(st.dictionaries(st.sampled_from(KEYS), st.one_of(st.integers(-9, 99).map(str), st.sampled_from(["yes", "abc", "a b", "1e-3"])), min_size=1, max_size=3))
    if k == "bad":
        a["bad"] = draw(st.sampled_from(BAD))
    return a


@st.composite
def history(draw, bad=False):
    p = draw(pcase(["Cheby", "RK4", "SIL", "Arnoldi", "GSPO"]))
    ops = [draw(optree.tree(p["wf"], 1)) for _ in range(draw(st.integers(1, 3)))]
    acts = draw(st.lists(action(len(ops)), min_size=2 if bad else 5, max_size=16))
    if bad:
        b = draw(action(len(ops)))
        b.update(a="bad", bad=draw(st.sampled_from(BAD)))
        acts = acts[:draw(st.integers(0, 5))] + [b] + acts[5:9]
    return dict(p=p, ops=ops, acts=acts, big=draw(st.integers(0, 40)) == 0, end=draw(st.sampled_from(["quit", "quit", "quit", "eof"])))


class Play:
    def __init__(self, case, ctx, c):
        self.case, self.ctx, self.c = case, ctx, c
        self.wf = case["p"]["wf"]
        self.dt, _ = setup(case["p"])
        self.p = Prop(ctx, c, case["p"], self.dt)     # writes its data files, loads "U" in the driver
        self.utext = self.p.text
        self.ops = Ops(c, self.wf, None)
        self.ops.keys = {}
        self.ops.cnt[0] = 1000
        self.text = [self.ops.xml(s).strip() for s in case["ops"]]
        self.loaded, self.params, self.files, self.opfiles = set(), {}, {}, {}
        self.uloaded = self.uinit = False
        self.nref = 0
        self.inited = set()
        self.have = set()
        self.k = 0
        self.field = bool(self.p.case.get("clock"))

    # -- the same calculation in the library --
    def oper(self, i):
        c = self.c
        if i not in self.have:
            c("op.load", f"R{i}", self.text[i])
            self.have.add(i)
        return f"R{i}"

    def init(self, R, x):
        if R not in self.inited or self.c("op.valid", R, x)[0] == b"0":
            self.c("op.init", R, x)
        self.inited.add(R)

    def vec(self, seed):
        return rng_amps(wf_size(self.wf), seed, "gauss")

    def wfbytes(self, v, name="send", comp=0):
        c = self.c
        c("fw.new", "o", name)
        c("fw.format", "o", "stream")
        c("fw.compress", "o", ["none", "ZLIB"][comp], 1e-14)
        put(c, "tosend", self.wf, v)
        c("fw.write", "o", "tosend")
        return open(f"{c.s.cwd}/{name}.wf", "rb").read()

    def amps(self, b):
        c = self.c
        self.k += 1
        open(f"{c.s.cwd}/answer{self.k}.wf", "wb").write(b)
        c("fw.new", "i", f"answer{self.k}")
        c("fw.readnew", "i", "received")
        return get(c, "received")


def first(xml, key):
    return xml.replace(" name=", f' key="{key}" name=', 1)


def run_hist(case, ctx):
    with ctx.srv("opt").case() as c:
        g = Play(case, ctx, c)
        s = Session(ctx, c.s.cwd, f"session on {kind(g.wf)}")
        try:
            go(case, ctx, c, g, s)
        finally:
            s.close()


def go(case, ctx, c, g, s):
    trace = []
    s.cmd(SETP, s=["fftwOptimize = false\n"])
    s.ok(what="SET_GLOBAL_PARAMS")
    g.params["fftwOptimize"] = "false"
    for a in case["acts"]:
        k = a["a"]
        trace.append(k + (" " + a["bad"] if k == "bad" else ""))
        s.what = f"session on {kind(g.wf)}, commands {', '.join(trace)}"
        try:
            if not one(k, a, case, ctx, c, g, s):
                return
        except Over:
            s.ended(k)
            s.fail("the session ends without answering")
    if case["big"]:
        try:
            big(c, g, s, ctx)
        except Over:
            s.ended(k)
            s.fail("a large object: the session ends without answering")
    if case["end"] == "quit":
        s.cmd(QUIT)
        rc = s.ended("QUIT")
        if rc != 0 or "Normal termination" not in s.text():
            s.fail(f"QUIT: ends with status {rc}")
        ctx.check(not [f for f in os.listdir(c.s.cwd) if f in ("sessrx", "sesstx")], f"{s.what}: the FIFOs are left behind")
    if s.buf:
        s.fail(f"{len(s.buf)} bytes are sent that no command asked for")


def big(c, g, s, ctx):
        # an object that does not fit into the pipe
        n = 200001
        sp = {"k": "level", "n": n}
        v = rng_amps(n, 5)
        c("fw.new", "o", "bigone")
        c("fw.format", "o", "stream")
        put(c, "tosend", sp, v)
        c("fw.write", "o", "tosend")
        s.cmd(APPLY, xml='<hamiltonian name="Scalar" value="2"/>')
        s.ok(True, what="APPLY_OP")
        s.send(open(c.s.cwd + "/bigone.wf", "rb").read())
        b, r = s.stream()
        if b is None:
            s.fail(f"APPLY_OP answered with {r}")
        ctx.check(same_bits(g.amps(b), v * 2), "a large wave function comes back changed")
        ctx.label("object larger than the pipe")


def one(k, a, case, ctx, c, g, s):
    cwd = c.s.cwd
    i = a["i"]
    key = f"k{i}"
    spec = g.wf
    if k == "set":
        s.cmd(SETP, s=["".join(f"{q} = {v}\n" for q, v in a["kv"].items())])
        s.ok(what="SET_GLOBAL_PARAMS")
        g.params.update(a["kv"])
    elif k == "get":
        s.cmd(GETP)
        r = s.ok(what="GET_GLOBAL_PARAMS")
        got = {}
        for l in r[1].splitlines():
            q, _, v = l.partition("=")
            got[q.strip()] = v.strip()
        ctx.check(got == g.params, lambda: f"{s.what}: global parameters {got}, set were {g.params}")
    elif k == "load":
        if i in g.loaded:
            return True
        s.cmd(LOP, xml=first(g.text[i], key))
        s.ok(what="LOAD_OP")
        g.loaded.add(i)
        g.oper(i)
    elif k in ("apply", "expec", "matel"):
        if a["xml"] or i not in g.loaded:
            arg = dict(xml=g.text[i])
            # loaded anew, not initialised by an earlier wave function
        else:
            arg = dict(s=[key])
        R = g.oper(i)
        v, w = g.vec(a["seed"]), g.vec(a["seed"] + 1)
        put(c, "x", spec, v)
        put(c, "y", spec, w)
        g.init(R, "x")
        bv, bw = g.wfbytes(v, comp=a["c"]), g.wfbytes(w)
        code = dict(apply=APPLY, expec=EXPEC, matel=MATEL)[k]
        s.cmd(code, **arg)
        s.ok(k == "apply", what=k)
        s.send(bv + (bw if k == "matel" else b""))
        if k == "apply":
            c("op.inplace", R, "x")
            e = get(c, "x")
            b, r = s.stream()
            if b is None:
                s.fail(f"apply {g.text[i][:200]}: {r}")
            compare(ctx, g.amps(b), e, f"{s.what}: apply {g.text[i][:300]}")
        else:
            r = s.ok(False, what=f"{k} {g.text[i][:200]}")
            if k == "expec":
                e = [qd.dbl(c("op.expec", R, "x")[0])]
            else:
                z = qd.cplx(c("op.matel", R, "x", "y")[0])
                e = [z.real, z.imag]
            c("op.inplace", R, "x")
            scale = float(np.abs(get(c, "x")).max()) * wf_size(spec) * float(np.max(metric(spec))) * 10 + 1e-300
            ctx.check(len(r[2]) == len(e) and max(abs(x - y) for x, y in zip(r[2], e)) <= 1e-10 * scale, lambda: f"{s.what}: {k} of {g.text[i][:300]} gives {r[2]}, the library {e}")
        ctx.label(k)
    elif k == "prop":
        if g.uloaded:
            return True
        s.cmd(LU, xml=first(g.utext, "U"), d=[g.dt, float(case["p"]["n"])])
        s.ok(what="LOAD_U")
        g.uloaded = True
        g.t = 0
        g.uinit = False
        if g.nref:
            c("op.load", "U", g.utext)
            g.inited.discard("U")
            c("clock", float(g.dt), case["p"]["n"], 0)
            c("op.clock", "U")
        g.nref += 1
    elif k == "steps":
        if not g.uloaded:
            return True
        n = case["p"]["n"]
        d = []
        if a["t"] is not None:
            g.t = min(int(a["t"] * n), n - 1)
            d = [float(g.t)]
        v = g.vec(a["seed"])
        b = g.wfbytes(v)
        s.cmd(APPLY, s=["U"], d=d)
        s.ok(True, what="APPLY_OP of a propagator")
        s.send(b)
        put(c, "x", spec, v)
        c("clock.step", g.t)
        g.init("U", "x")
        c("op.inplace", "U", "x")
        e = get(c, "x")
        b, r = s.stream()
        if b is None:
            s.fail(f"a step of {g.utext[:200]}: {r}")
        compare(ctx, g.amps(b), e, f"{s.what}: step {g.t} of {g.utext[:300]}", 1e-8)
        ctx.label("propagator step" + (", later time" if g.t else ""))
    elif k == "wwf":
        v = g.vec(a["seed"])
        f = f"file{a['n']}"
        s.cmd(WWF, s=[f] + (["gzip"] if a["c"] else []))
        s.ok(False, what="WRITE_WF")
        s.send(g.wfbytes(v))
        s.ok(False, what="WRITE_WF, after the data")
        g.files[f] = (v, a["c"])
        c("fw.new", "i", f)
        c("fw.readnew", "i", "received")
        compare(ctx, get(c, "received"), v, f"{s.what}: stored wave function", 1e-8 if a["c"] else 0)
        ctx.label("WRITE_WF")
    elif k == "rwf":
        if not g.files:
            return True
        f = sorted(g.files)[i % len(g.files)]
        s.cmd(RWF, s=[f])
        s.ok(True, what="READ_WF")
        b, r = s.stream()
        if b is None:
            s.fail(f"READ_WF: {r}")
        compare(ctx, g.amps(b), g.files[f][0], f"{s.what}: wave function read back", 1e-8 if g.files[f][1] else 0)
        ctx.label("READ_WF")
    elif k in ("wop", "laser"):
        n = [4, 8][a["n"] % 2]
        data = np.random.RandomState(a["seed"] % 2**31).randn(n)
        if k == "wop":
            c("fo.writegrid", "tmpop", "stream", "none", np.array([n, -1.0, 2.0], float), data)
        else:
            c("fo.writelaser", "tmpop", "stream", "none", 0.25, data)
        f = ("V" if k == "wop" else "L") + str(a["n"])
        s.cmd(WOP, s=[f, ("GridPotential" if a["c"] else "OGridPotential") if k == "wop" else "Laser"] + (["gzip"] if a["xml"] else []))
        s.ok(False, what="WRITE_OP")
        s.send(open(cwd + "/tmpop.op", "rb").read())
        s.ok(False, what="WRITE_OP, after the data")
        if k == "wop":
            got = np.frombuffer(c("fo.readgrid", f)[0])
            g.opfiles[f] = data
        else:
            r = c("fo.readlaser", f)
            got = np.frombuffer(r[2])
        ctx.check(same_bits(got, data), lambda: f"{s.what}: the stored {'operator' if k == 'wop' else 'field'} differs from the one sent")
        ctx.label("WRITE_OP")
    elif k == "rop":
        if not g.opfiles:
            return True
        f = sorted(g.opfiles)[i % len(g.opfiles)]
        s.cmd(ROP, s=[f + ".op", "GridPotential"])
        b, r = s.stream()
        if b is None:
            s.fail(f"READ_OP: {r}")
        open(cwd + "/gotop.op", "wb").write(b)
        got = np.frombuffer(c("fo.readgrid", "gotop")[0])
        ctx.check(same_bits(got, g.opfiles[f]), lambda: f"{s.what}: operator read back differs from the one stored")
        ctx.label("READ_OP")
    elif k == "run":
        v = g.vec(a["seed"])
        g.wfbytes(v, "start")
        n = 1 + a["n"]
        s.cmd(RUN, xml=f'<propa dt="0.5" steps="{n}" wcycle="1" dir="prog" fname="P"><propagator name="RK4"><hamiltonian name="Scalar" value="0.25"/></propagator><wf file="start"/></propa>')
        s.ok(False, what="RUN_PROG")
        e = v
        z = -0.5j * 0.25
        f = 1 + z + z ** 2 / 2 + z ** 3 / 6 + z ** 4 / 24
        for q in range(n + 1):
            c("fw.new", "i", f"prog/P_{q}")
            c("fw.readnew", "i", "received")
            compare(ctx, get(c, "received"), e, f"{s.what}: wave function {q} of a program", 1e-12)
            e = e * f
        # (whether objects loaded by commands outlive a program is not stated; the next use of each loads it again)
        r = lookup(s, g)
        ctx.label("RUN_PROG")
        return r
    elif k == "clear":
        s.cmd(CLEAR)
        s.ok(what="CLEAR_OBJECTS")
        had = sorted(g.loaded) + (["U"] if g.uloaded else [])
        g.loaded, g.uloaded = set(), False
        if had:
            q = had[a["seed"] % len(had)]
            s.cmd(APPLY, s=[q if q == "U" else f"k{q}"])
            r = s.response()
            if r[0] == 0:
                s.fail("an operator can still be used after CLEAR_OBJECTS")
            s.error("a cleared operator", r)
            ctx.label("CLEAR_OBJECTS")
            if not s.alive():
                return False
    elif k == "bad":
        return wrong(a["bad"], a, case, ctx, c, g, s)
    return True


def lookup(s, g):
    """loaded objects are still there after a program (they are loaded to be kept)"""
    for i in sorted(g.loaded):
        s.cmd(APPLY, s=[f"k{i}"])
        s.ok(True, what="APPLY_OP of an operator loaded before a program has been run")
        v = g.vec(i)
        s.send(g.wfbytes(v))
        b, r = s.stream()
        if b is None:
            s.fail(f"an operator loaded before a program has been run: {r}")
        R = g.oper(i)
        put(g.c, "x", g.wf, v)
        g.init(R, "x")
        g.c("op.inplace", R, "x")
        compare(g.ctx, g.amps(b), get(g.c, "x"), f"{s.what}: operator {g.text[i][:300]} after a program")
    return True


def wrong(bad, a, case, ctx, c, g, s):
    what = f"wrong command ({bad})"
    ctx.label("wrong command")
    vb = g.wfbytes(g.vec(a["seed"]))
    code = [APPLY, EXPEC, MATEL, LOP][a["n"] if bad in ("key", "op-none") else a["seed"] % 4]
    other = None
    if bad == "op-class":
        s.cmd(code, xml='<hamiltonian name="Nothing"/>')
    elif bad == "op-xml":
        s.cmd(code, xml='<hamiltonian name="Scalar" value="1">')
    elif bad == "op-none":
        s.cmd(code)
    elif bad == "op-file":
        s.cmd(code, xml='<hamiltonian name="GridPotential" file="nothere"/>')
        # operators read their files when they are loaded or when they meet a wave function
        r = s.response()
        if r[0] == 0 and code != LOP:
            s.send(vb * (2 if code == MATEL else 1))
            if code == APPLY:
                b, r = s.stream()
                if b is not None:
                    s.fail(f"{what} is answered with a wave function")
            else:
                r = s.response()
        elif r[0] == 0:
            return s.alive()
        s.error(what, r)
        return s.alive()
    elif bad == "key":
        s.cmd(code if code != LOP else APPLY, s=["nokey"])
    elif bad == "prog":
        s.cmd(RUN, xml='<propa dt="1" steps="3"><propagator name="RK4"><hamiltonian name="Scalar" value="1"/></propagator><wf file="nothere"/></propa>')
    elif bad == "prog-xml":
        s.cmd(RUN, xml='<propa dt="1" steps="3">')
    elif bad == "noxml-run":
        s.cmd(RUN)
    elif bad in ("noname-rwf", "noname-wwf", "noname-rop", "noname-wop"):
        s.cmd(dict(rwf=RWF, wwf=WWF, rop=ROP, wop=WOP)[bad[7:]])
    elif bad == "missing-rwf":
        s.cmd(RWF, s=["nothere"])
        r = s.response()
        if r[0] == 0:
            b, r = s.stream()
            if b is not None:
                s.fail("a wave function that does not exist is sent")
        s.error(what, r)
        return s.alive()
    elif bad == "missing-rop":
        s.cmd(ROP, s=["nothere.op", "GridPotential"])
    elif bad == "class-rop":
        s.cmd(ROP, s=["nothere.op", ["Nothing", "Scalar", "Sum"][a["n"]]])
    elif bad in ("class-wop", "emptyclass"):
        s.cmd(WOP, s=["newop", ["Nothing", "Scalar", "O"][a["n"]] if bad == "class-wop" else ""])
    elif bad in ("noclass-rop", "noclass-wop"):
        s.cmd(ROP if bad == "noclass-rop" else WOP, s=["newop"])
    elif bad == "nokeys":
        s.cmd(SETP)
    elif bad == "delete":
        s.cmd(DOP, s=["k0"])
    elif bad == "u-nodt":
        s.cmd(LU, xml=first(g.utext, "W"), d=[None, 10.0])
    elif bad == "u-nont":
        s.cmd(LU, xml=first(g.utext, "W"), d=[0.5])
    elif bad == "u-noxml":
        s.cmd(LU, d=[0.5, 10.0])
    elif bad == "u-class":
        s.cmd(LU, xml='<propagator name="Nothing"><hamiltonian name="Scalar" value="1"/></propagator>', d=[0.5, 10.0])
    elif bad == "u-op":
        s.cmd(LU, xml='<propagator name="Scalar" value="1"/>', d=[0.5, 10.0])
    elif bad in ("step-neg", "step-big"):
        if not g.uloaded:
            return True
        s.cmd(APPLY, s=["U"], d=[-1.0 if bad == "step-neg" else [case["p"]["n"] + 1.0, 1e300, float("nan")][a["n"]]])
    elif bad == "noclock":
        s.cmd(APPLY, xml='<hamiltonian name="Scalar" value="1"/>', d=[0.0])
    elif bad.startswith("incompatible"):
        q = dict(expec=EXPEC, matel=MATEL).get(bad[13:], APPLY)
        sp = {"k": "level", "n": 3} if g.wf["k"] != "level" else {"k": "grid", "dims": [[4, 0.0, 1.0]]}
        x = '<hamiltonian name="HermitianMatrix" file="mat5"/>' if sp["k"] == "level" else '<hamiltonian name="GridNablaSq" mass="1,1"/>'
        c("fo.writemat", "mat5", "binary", "none", 5, dvec(np.eye(5).ravel())) if False else None
        x = '<hamiltonian name="GridNablaSq" mass="1"/>' if sp["k"] == "level" else '<hamiltonian name="HermitianMatrix" file="nothere"/>'
        c("fw.new", "o", "otherwf")
        c("fw.format", "o", "stream")
        put(c, "tosend", sp, rng_amps(wf_size(sp), a["seed"]))
        c("fw.write", "o", "tosend")
        b = open(c.s.cwd + "/otherwf.wf", "rb").read()
        s.cmd(q, xml=x)
        r = s.response()
        if r[0] == 0:
            s.send(b + (b if q == MATEL else b""))
            if q == APPLY:
                d, r = s.stream()
                if d is not None:
                    s.fail(f"{what}: the operator is applied")
            else:
                r = s.response()
        s.error(what, r)
        return s.alive()
    elif bad == "unknown":
        s.cmd([5, 99, 11, 127][a["n"]])
        # a code outside the protocol may also end the session
        try:
            s.error(what)
        except Failure:
            if s.p.poll() is None:
                raise
        return s.alive()
    elif bad == "badwf":
        s.cmd(APPLY, xml='<hamiltonian name="Scalar" value="1"/>')
        s.ok(True, what="APPLY_OP")
        s.send(bytes([7]) * 64)
        try:
            b, r = s.stream()
        except Over:
            s.ended(what)
            s.fail(f"{what}: no answer")
        if b is not None:
            s.fail(f"{what}: answered with a wave function")
        s.error(what, r)
        # the rest cannot be told from commands: only an orderly end is asked for
        s.send(b"")
        return False
    elif bad == "dup":
        if not g.loaded:
            return True
        i = sorted(g.loaded)[0]
        s.cmd(LOP, xml=first(g.text[i], f"k{i}"))
    s.error(what)
    return s.alive()


def compare(ctx, got, want, what, tol=1e-11):
    sc = max(float(np.abs(want).max()), 1e-300)
    ctx.check(err(got, want) <= tol * sc, lambda: f"{what}: off by {err(got, want):.3g} (largest value {sc:.3g})")


# ---- standard input and output ----
@st.composite
def pipe(draw):
    return dict(kind=draw(st.sampled_from(["eof", "eof", "cut", "size", "junk", "nofifo", "exists"])), n=draw(st.integers(0, 40)), seed=draw(seeds))


def run_pipe(case, ctx):
    """input that ends or is no command: the program ends with a message"""
    with Tmp() as cwd:
        m = command(SETP, s=["a = 1\n"])
        m = struct.pack("<I", len(m)) + m
        k = case["kind"]
        rnd = np.random.RandomState(case["seed"])
        args = ["-c", "-"]
        if k == "eof":
            b = m * (case["n"] % 3)
        elif k == "cut":
            b = m + m[:1 + case["n"] % (len(m) - 1)]
        elif k == "size":
            b = m + struct.pack("<I", [0xffffffff, 0x7fffffff, 0x80000000, 1 << 30, 100000][case["n"] % 5]) + b"abc"
        elif k == "junk":
            b = rnd.bytes(1 + case["n"])
        elif k == "nofifo":
            b, args = b"", ["-c", "nodir/sess"]
        else:
            b, args = b"", ["-c", "sess"]
            open(cwd + "/sess" + ["rx", "tx"][case["n"] % 2], "w").close()
        r = run("qdng", args, cwd, "asan", 60, stdin=b)
        what = f"interactive mode, {k} input {b[:60]!r}"
        ctx.check(r.rc is not None, lambda: f"{what}: no end within the time limit")
        ctx.check(not r.crashed and r.rc in (0, 1), lambda: f"{what}: exit status {r.rc}, {r.out[-400:]}")
        if k != "eof":
            ctx.check(r.rc == 1 and "Error termination" in r.out, lambda: f"{what}: exit status {r.rc}, prints {r.out[-200:]!r}")
        if k == "exists":
            ctx.check(not os.path.exists(cwd + "/sess" + ["tx", "rx"][case["n"] % 2]), f"{what}: a FIFO is left behind")


SUBS = [
    Sub("history", history(), run_hist, (500, 6000), lambda k: len(k["acts"]) > 3, "more than three commands"),
    Sub("wrong", history(True), run_hist, (500, 6000), lambda k: len(k["acts"]) > 1, "other commands around the wrong one"),
    Sub("input", pipe(), run_pipe, (60, 600), lambda k: k["kind"] != "eof", "the input is no sequence of commands"),
]
