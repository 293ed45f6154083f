"""Access to the code under test: the fork-server driver (qdrv) and the command line programs."""
import os, select, shutil, signal, struct, subprocess, sys, tempfile, time
import numpy as np

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as _build

VERIF = _build.VERIF


class Failure(Exception):
    """The code under test broke the property."""
    def __init__(self, msg, known=None):
        super().__init__(msg)
        self.known = known


class QdError(Exception):
    """The library reported an error (a QDLIB::Exception)."""


class OtherError(Exception):
    """Some other C++ exception escaped."""


class Crash(Exception):
    """The process died or hung."""


def bpath(flav):
    return f"{VERIF}/build/{flav}"


def enc(a):
    if isinstance(a, bytes):
        return a
    if isinstance(a, str):
        return a.encode("latin-1", "replace") if all(ord(c) < 256 for c in a) else a.encode()
    if isinstance(a, (bool, np.bool_)):
        return b"1" if a else b"0"
    if isinstance(a, (int, np.integer)):
        return str(int(a)).encode()
    if isinstance(a, (float, np.floating)):
        return struct.pack("<d", a)
    if isinstance(a, np.ndarray):
        return np.ascontiguousarray(a).tobytes()
    if isinstance(a, (list, tuple)):
        return np.array(a, dtype=float).tobytes()
    raise TypeError(type(a))


def dvec(b):
    return np.frombuffer(b, dtype=np.float64).copy()


def cvec(b):
    return np.frombuffer(b, dtype=np.complex128).copy()


def dbl(b):
    return struct.unpack("<d", b)[0]


def cplx(b):
    r, i = struct.unpack("<dd", b)
    return complex(r, i)


ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
            "max_allocation_size_mb=2048:detect_odr_violation=0", "UBSAN_OPTIONS": "print_stacktrace=0"}


class Server:
    def __init__(self, flav="opt", env=None, timeout=60, as_mb=None):
        self.flav, self.env, self.timeout, self.as_mb = flav, env or {}, timeout, as_mb
        self.p = None
        self.errf = None

    def start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        e = dict(os.environ, OMP_NUM_THREADS="1", OMP_WAIT_POLICY="passive", HOME="/nonexistent", **ASAN_ENV)
        if self.as_mb and self.flav == "opt":
            e["QDRV_AS"] = str(self.as_mb)
        e.update(self.env)
        self.errf = tempfile.TemporaryFile()
        # duplicate high first so that the fds 3/4 do not collide
        hr, hw = os.dup(r1), os.dup(w2)

        def pre():
            a, b = os.dup(hr), os.dup(hw)
            a2 = os.dup(a); b2 = os.dup(b)
            import fcntl
            a3 = fcntl.fcntl(a2, fcntl.F_DUPFD, 100); b3 = fcntl.fcntl(b2, fcntl.F_DUPFD, 100)
            os.dup2(a3, 3); os.dup2(b3, 4)
            os.closerange(5, 256)
        cwd = tempfile.mkdtemp(prefix="qdsrv")
        self.cwd = cwd
        self.p = subprocess.Popen(os.environ.get("QDRV_WRAP", "").split() + [bpath(self.flav) + "/qdrv"], stdin=subprocess.DEVNULL, stdout=self.errf,
                                  stderr=self.errf, close_fds=False, preexec_fn=pre, env=e, cwd=cwd,
                                  start_new_session=True)
        os.close(r1); os.close(w2); os.close(hr); os.close(hw)
        self.w, self.r = w1, r2

    def stop(self):
        if self.p:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
            os.close(self.w); os.close(self.r)
            self.errf.close()
            shutil.rmtree(self.cwd, ignore_errors=True)
            self.p = None

    def __del__(self):
        try:
            self.stop()
        except Exception:
            pass

    def _rd(self, n, deadline):
        b = b""
        while len(b) < n:
            left = deadline - time.monotonic()
            if left <= 0 or not select.select([self.r], [], [], left)[0]:
                raise TimeoutError
            c = os.read(self.r, min(1 << 20, n - len(b)))
            if not c:
                raise EOFError
            b += c
        return b

    def send(self, args):
        o = [struct.pack("<I", len(args))]
        for a in args:
            a = enc(a)
            o.append(struct.pack("<I", len(a)))
            o.append(a)
        b = b"".join(o)
        v = memoryview(b)
        while len(v):
            n = os.write(self.w, v[:1 << 16])
            v = v[n:]

    def recv(self, timeout=None):
        dl = time.monotonic() + (timeout or self.timeout)
        n = struct.unpack("<I", self._rd(4, dl))[0]
        r = []
        for _ in range(n):
            l = struct.unpack("<I", self._rd(4, dl))[0]
            r.append(self._rd(l, dl) if l else b"")
        return r

    def stderr_tail(self, n=60000):
        try:
            self.errf.seek(0, 2)
            sz = self.errf.tell()
            self.errf.seek(max(0, sz - n))
            return self.errf.read().decode("latin-1")
        except Exception:
            return ""

    def case(self):
        return Case(self)


class Case:
    """One test case: a forked child of the server.  c("cmd", args...) -> reply list (bytes)."""
    def __init__(self, srv):
        self.s = srv

    def __enter__(self):
        if self.s.p is None or self.s.p.poll() is not None:
            self.s.stop()
            self.s.start()
        try:
            self.s.errf.truncate(0)
        except Exception:
            pass
        # files of earlier cases must not be seen by this one
        for e in os.scandir(self.s.cwd):
            shutil.rmtree(e.path) if e.is_dir(follow_symlinks=False) else os.unlink(e.path)
        self.s.send(["fork"])
        self.dead = False
        return self

    def __call__(self, *args, timeout=None):
        if self.dead:
            raise RuntimeError("case is over")
        try:
            self.s.send(args)
            r = self.s.recv(timeout)
        except TimeoutError:
            self.dead = True
            self.s.stop()
            raise Crash(f"no answer within the time limit: {args[0]}")
        except (EOFError, BrokenPipeError):
            self.dead = True
            self.s.stop()
            raise Crash(f"server died: {args[0]}")
        st = r[0]
        if st == b"#":
            self.dead = True
            tail = self.s.stderr_tail()
            import re
            m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*|terminate called[^\n]*(\n[^\n]*)?)", tail)
            fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (QD\w+::[\w:~]+)", tail)[:3]
            raise Crash(f"process died (exit {r[1].decode()}, signal {r[2].decode()}) in {args[0]}: "
                        + (m[1].replace("\n", " ")[:300] if m else "") + (" at " + " < ".join(fr) if fr else ""))
        if st == b"ok":
            return r[1:]
        if st == b"qdexc":
            raise QdError(r[1].decode("latin-1"))
        if st == b"!":
            raise RuntimeError("driver misuse: " + r[1].decode("latin-1") + " " + repr(args)[:300])
        raise OtherError(" ".join(x.decode("latin-1") for x in r))

    def close(self):
        if self.dead:
            return 0, 0
        self.dead = True
        try:
            self.s.send(["end"])
            r = self.s.recv()
        except (TimeoutError, EOFError, BrokenPipeError):
            self.s.stop()
            return -1, 0
        return int(r[1]), int(r[2])

    def __exit__(self, et, ev, tb):
        code, sig = self.close()
        if et is None and (code or sig):
            raise Crash(f"process ended with exit {code}, signal {sig}")
        return False


# ------------------------------------------------------------------ wave functions
def g17(x):
    return "%.17g" % x


def grid_params(dims):
    """dims: list of (n, xmin, xmax)."""
    p = ["dims", len(dims)]
    for i, (n, a, b) in enumerate(dims):
        p += [f"N{i}", n, f"xmin{i}", g17(a), f"xmax{i}", g17(b)]
    return p


def rng_amps(n, seed, style="gauss"):
    """Amplitudes as a pure function of drawn values."""
    r = np.random.RandomState(seed & 0x7FFFFFFF)
    v = r.standard_normal(n) + 1j * r.standard_normal(n)
    if style == "sparse":
        v *= r.rand(n) < 0.2
    elif style == "real":
        v = v.real + 0j
    elif style == "imag":
        v = 1j * v.imag
    elif style == "zero":
        v = v * 0
    elif style == "neg":
        v = -abs(v.real) - 1j * abs(v.imag)
    elif style == "wide":
        v = v * 10.0 ** r.randint(-12, 12, n)
    elif style == "one":
        v = v * 0
        v[r.randint(n)] = 1.0
    elif style == "const":
        v = v * 0 + v[0]
    return v.astype(np.complex128)


def wf_size(spec):
    k = spec["k"]
    if k == "grid":
        return int(np.prod([d[0] for d in spec["dims"]]))
    if k == "level":
        return spec["n"]
    return sum(wf_size(s) for s in spec["states"])


def new_wf(c, wid, spec):
    """spec: {"k":"grid","dims":[[n,a,b]..]} | {"k":"level","n":n} | {"k":"multi","states":[spec..]}"""
    if spec["k"] == "grid":
        c("wf.new", wid, "WFGridCartesian", *grid_params(spec["dims"]))
    elif spec["k"] == "level":
        c("wf.new", wid, "WFLevel", "size", spec["n"])
    else:
        a = []
        for i, s in enumerate(spec["states"]):
            new_wf(c, f"{wid}.{i}", s)
            a += [i, f"{wid}.{i}"]
        c("wf.multi", wid, 0, *a)
    return wid


def put(c, wid, spec, v):
    new_wf(c, wid, spec)
    c("wf.set", wid, v.astype(np.complex128))
    return wid


def get(c, wid):
    return cvec(c("wf.get", wid)[0])


def dxs(spec):
    return [(b - a) / (n - 1) for n, a, b in spec["dims"]]


def metric(spec):
    """Weight of the scalar product per state, as an array over all amplitudes."""
    if spec["k"] == "grid":
        return np.full(wf_size(spec), float(np.prod(dxs(spec))))
    if spec["k"] == "level":
        return np.ones(spec["n"])
    return np.concatenate([metric(s) for s in spec["states"]])


# ------------------------------------------------------------------ command line programs
class Res:
    pass


def run(prog, args, cwd, flav="opt", timeout=120, env=None, stdin=None):
    e = dict(os.environ, OMP_NUM_THREADS="1", OMP_WAIT_POLICY="passive", HOME=cwd, **ASAN_ENV)
    e.update(env or {})
    r = Res()
    try:
        p = subprocess.run([f"{bpath(flav)}/{prog}", *args], cwd=cwd, env=e, input=stdin, timeout=timeout,
                           stdin=subprocess.DEVNULL if stdin is None else None,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        r.rc, r.out = p.returncode, p.stdout.decode("latin-1")
        r.raw = p.stdout
    except subprocess.TimeoutExpired as x:
        r.rc, r.out, r.raw = None, (x.stdout or b"").decode("latin-1"), x.stdout or b""
    r.crashed = r.rc is None or r.rc < 0 or r.rc == 99 or "ERROR: AddressSanitizer" in r.out or "runtime error:" in r.out
    r.ok = r.rc == 0
    if os.environ.get("QD_SHOW"):
        if os.environ.get("QD_KEEP"):
            import shutil
            shutil.copytree(cwd, os.environ["QD_KEEP"], dirs_exist_ok=True)
        print("$", prog, *args, "->", r.rc, "\n" + r.out[-int(os.environ["QD_SHOW"]):])
    return r


class Tmp:
    """Scratch directory, removed afterwards."""
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="qdcase")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)
        return False


def build(flav, *targets):
    return _build.build(flav, list(targets))
