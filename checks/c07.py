"""C07: generated wave functions and series of every class, format and numbering converted by the qdz program (every method, level and tolerance, one or several rounds in any order) and read back: amplitudes within the tolerance, everything else unchanged; qdinfo output parsed and compared with the stored metadata; damaged members and invalid options must fail."""
import glob, os, re
from common import *
from runner import Sub
from c01 import bound, check_same, fnames, lossy_amps

BUILD = [("asan", ["qdrv", "qdz", "qdinfo"])]
CLS = {"grid": "WFGridCartesian", "level": "WFLevel", "multi": "WFMultistate"}

tols = st.one_of(st.none(), st.sampled_from(["0", "1e-3", "1e-12", "0.1", "1", "-1e-6"]), flt(-14, -0.5).map(lambda x: "%.3g" % 10 ** x))
rounds = st.lists(st.tuples(st.sampled_from(["z", "z", "d"]), tols, st.sampled_from([None, "z", "j"]), st.sampled_from([None, None, "1", "4", "9"])).map(list), min_size=1, max_size=4)


@st.composite
def conv(draw):
    spec = draw(wfspecs(3, 300, 2, True, True, 4))
    n = draw(st.sampled_from([0, 0, 1, 2, 3, 5, 12]))      # 0: a single file
    return dict(spec=spec, n=n, seed=draw(seeds), style=draw(st.sampled_from(["gauss", "smooth", "smooth", "sparse", "neg", "const", "zero"])), fmt=draw(st.sampled_from(["binary", "stream", "stream"])), src=draw(st.sampled_from(["none", "none", "ZLIB", "BZIP"])),
                name=draw(fnames.filter(lambda s: not s.startswith("-"))), rounds=draw(rounds), other=draw(st.booleans()), member=draw(st.integers(0, 11)), single=draw(st.booleans()), check=draw(st.booleans()))


def qdz(c, ctx, opts, name, ok=True):
    r = qd.run("qdz", [*opts, name], c.s.cwd, "asan")
    ctx.check(not r.crashed, lambda: f"qdz {' '.join(opts)}: {tail(r)}")
    if ok is not None:
        ctx.check(r.ok == ok, lambda: f"qdz {' '.join(opts)} {name!r}: exit status {r.rc}: {tail(r)}")
        ctx.check(ok == ("Error termination" not in r.out) or not ok, lambda: f"qdz reports an error with exit status {r.rc}: {tail(r)}")
    return r


def tail(r):
    i = r.out.find("AddressSanitizer")
    return r.out[max(i - 100, 0):][:700] if i >= 0 else r.out[-300:]


def snapshot(cwd):
    d = {}
    for p, _, fs in os.walk(cwd):
        for f in fs:
            d[os.path.join(p, f)] = open(os.path.join(p, f), "rb").read()
    return d


def close(c, ctx, w, spec, v, b, what):
    got = get(c, w)
    ctx.check(len(got) == len(v), lambda: f"{what}: {len(got)} amplitudes, stored {len(v)}")
    e = np.abs(got - v)
    bad = ~(e <= b + 4e-16 * np.abs(v))
    if bad.any():
        i = int(np.argmax(np.where(bad, e / (b + 1e-300), 0)))
        ctx.fail(f"{what}: amplitude {i} is {got[i]}, was {v[i]}, allowed change {b[i]:.3g}")
    m = c("wf.meta", w)
    ctx.check(m[0].decode() == CLS[spec["k"]], lambda: f"{what}: class {m[0]!r}")
    states = spec["states"] if spec["k"] == "multi" else [spec]
    if spec["k"] == "multi":
        ctx.check(int(c("wf.states", w)[0]) == len(states), f"{what}: number of states")
    for i, s in enumerate(states):
        if spec["k"] == "multi":
            c("wf.state", f"{w}:{i}", w, i)
            m = c("wf.meta", f"{w}:{i}")
        ctx.check(m[3] == b"0", f"{what}: marked as being in momentum space")
        if s["k"] == "grid":
            g = [x for d in s["dims"] for x in d]
            ctx.check(dvec(m[6]).tolist() == g, lambda: f"{what}: grid {dvec(m[6]).tolist()}, stored {g}")
    return got


def run_conv(case, ctx):
    spec, n = case["spec"], case["n"]
    name = case["name"]
    with ctx.srv("asan").case() as c:
        c(*GP)
        c("mkdir", "dir")
        vs = [lossy_amps(spec, case["seed"] + i, case["style"]) * (1 + i) for i in range(max(n, 1))]
        c("fw.new", "f", name)
        c("fw.format", "f", case["fmt"])
        if case["src"] != "none":
            c("fw.compress", "f", case["src"], 1e-15)
        if n:
            c("fw.seq", "f", 1)
        put(c, "w", spec, vs[0])
        for v in vs:
            c("wf.set", "w", v)
            c("fw.write", "f", "w")
        names = [name + f"_{i}" for i in range(n)] if n else [name]
        if case["other"]:          # files around it which don't belong to it
            for nm in ("zz_other", name + "x", f"{name}_{n + 1}_0", f"{name}_{n + 1}"):
                c("fw.new", "o", nm)
                c("fw.format", "o", "stream")
                put(c, "ow", dict(k="level", n=3), amps(dict(k="level", n=3), 4))
                c("fw.write", "o", "ow")
        bs = [(bound(spec, v, 1e-15) if case["src"] != "none" else np.zeros(len(v))) + (1e-14 * np.abs(v).max() if case["src"] != "none" else 0) for v in vs]
        before = snapshot(c.s.cwd)
        single = n and case["single"] and (case["fmt"] == "stream" or spec["k"] != "multi")
        who = [case["member"] % n] if single else list(range(max(n, 1)))
        target = names[who[0]] if single or not n else name
        ctx.label(f"{'member' if single else 'series' if n else 'file'} {kind(spec)[:6]} {case['fmt']}")

        def load(i, what):
            if n and not single:
                c("fw.new", "g", name)
                c("fw.seq", "g", 1)
                c("fw.counter", "g", i)
            else:
                c("fw.new", "g", names[i])
            c("fw.readnew", "g", "r")
            return close(c, ctx, "r", spec, vs[i], bs[i], what)
        done = False
        for op, t, m, l in case["rounds"]:
            o = []
            if op == "z":
                o += ["-m", m] if m else []
                o += ["-t", t] if t else []
                o += ["-l", l] if l else []
                tol = abs(float(t)) if t else 1e-5
            else:
                o += ["-d"]
            if n and not single:
                o.insert(len(o) if case["seed"] % 2 else 0, "-s")
            qdz(c, ctx, o, target)
            for i in who:
                if op == "z":
                    if tol >= 1:
                        bs[i] = np.full(len(vs[i]), np.inf)
                    else:      # the maximum may have been changed by what was lost before
                        bs[i] = bs[i] * (1 + 2 * tol) + bound(spec, vs[i], tol) * (1 + 1e-9) * (2 if done else 1) + 1e-13 * np.abs(vs[i]).max()
                        if spec["k"] != "level" and done:
                            bs[i] = bs[i] + tol * len(vs[i]) * bs[i].max() + 2 * tol * np.abs(np.fft.fft(vs[i])).max()
                vs[i] = load(i, f"after qdz {' '.join(o)}")
                bs[i] = np.full(len(vs[i]), 1e-14 * np.abs(vs[i]).max())     # transforms may be planned differently
                if not n or single or case["fmt"] == "stream":
                    f = os.path.join(c.s.cwd, names[i] + ".wf")
                    if os.path.exists(f):
                        h = open(f, "rb").read()
                        if h.startswith(b"QDngPrtoBuf"):
                            r = qd.run("qdinfo", [os.path.relpath(f, c.s.cwd)], c.s.cwd, "asan")
                            ctx.check(r.ok and not r.crashed, lambda: f"qdinfo: {tail(r)}")
                            z = re.search(r"compression: (\w+)", r.out)
                            z = z[1] if z else "UNCOMPRESSED"
                            if spec["k"] != "multi" and op == "d":
                                ctx.check(z == "UNCOMPRESSED", lambda: f"still compressed after qdz -d: {r.out}")
            done = True
        after = snapshot(c.s.cwd)
        keep = set(before)
        if single or not n:
            keep -= {k for k in keep if re.fullmatch(re.escape(target) + r"(-\d+)?\.(wf|meta)", os.path.normpath(os.path.relpath(k, c.s.cwd)).replace(os.path.normpath(target), target)) }
        else:
            keep -= {k for k in keep if re.fullmatch(re.escape(os.path.normpath(name)) + r"(-\d+)?(_\d+)?\.(wf|meta)", os.path.relpath(k, c.s.cwd))}
            keep |= {k for k in before if os.path.relpath(k, c.s.cwd) == os.path.normpath(f"{name}_{n + 1}") + ".wf"} if case["other"] else set()
        for k in keep:
            ctx.check(after.get(k) == before[k], lambda: f"{os.path.relpath(k, c.s.cwd)} does not belong to what was converted and was changed")
        # names of the data files: nothing renumbered
        old = {k for k in before if k.endswith(".wf") and "-" not in os.path.basename(k)}
        new = {k for k in after if k.endswith(".wf") and "-" not in os.path.basename(k)}
        ctx.check(old <= new, lambda: f"files lost: {old - new}")
        extra = {os.path.normpath(os.path.relpath(k, c.s.cwd)) for k in new - old} - {os.path.normpath(x + ".wf") for x in names}
        ctx.check(not extra or "-" in name, lambda: f"additional files {extra}")


# ------------------------------------------------------------------ effect on the size
@st.composite
def sizecase(draw):
    return dict(dims=draw(st.sampled_from([[512], [32, 32], [16, 8, 8]])), seed=draw(seeds), m=draw(st.sampled_from([None, "z", "j"])), l=draw(st.sampled_from([None, "1", "9"])), fmt=draw(st.sampled_from(["stream", "binary"])), n=draw(st.sampled_from([0, 3])))


def gauss(spec):
    g = 1
    for n, a, b in spec["dims"]:
        g = np.multiply.outer(np.exp(-np.linspace(-7, 7, n) ** 2), g)
    return g.ravel() + 0j


def run_size(case, ctx):
    spec = dict(k="grid", dims=[[n, -1.0, 1.0] for n in case["dims"]])
    with ctx.srv("asan").case() as c:
        c(*GP)
        put(c, "w", spec, gauss(spec))
        c("fw.new", "f", "w")
        c("fw.format", "f", case["fmt"])
        if case["n"]:
            c("fw.seq", "f", 1)
        for i in range(max(1, case["n"])):
            c("fw.write", "f", "w")
        fs = [os.path.join(c.s.cwd, f"w_{i}.wf") for i in range(case["n"])] or [os.path.join(c.s.cwd, "w.wf")]
        n = 16 * wf_size(spec)
        o = (["-m", case["m"]] if case["m"] else []) + (["-l", case["l"]] if case["l"] else []) + (["-s"] if case["n"] else [])
        qdz(c, ctx, o, "w")
        for f in fs:
            ctx.check(os.path.getsize(f) < 0.7 * n, lambda: f"compressing a smooth wave function: {n} bytes of data are stored in {os.path.getsize(f)} bytes")
        qdz(c, ctx, ["-d"] + (["-s"] if case["n"] else []), "w")
        for f in fs:
            ctx.check(os.path.getsize(f) >= n, lambda: f"decompressed: {n} bytes of data in {os.path.getsize(f)} bytes")


# ------------------------------------------------------------------ failures
@st.composite
def badcase(draw):
    k = draw(st.sampled_from(["opt", "opt", "missing", "member", "member", "damaged", "first"]))
    return dict(k=k, opt=draw(st.sampled_from([["-m", "q"], ["-m", "zip"], ["-t", "2"], ["-t", "abc"], ["-l", "0"], ["-l", "10"], ["-l", "x"], ["-l", "-3"], ["-m"], ["-t", "nan"]])), spec=draw(wfspecs(2, 40, 2, True, False, 3)), n=draw(st.integers(2, 6)),
                at=draw(st.integers(0, 20)), cut=draw(flt(0, 0.99)), d=draw(st.booleans()), series=draw(st.booleans()), seed=draw(seeds), nofile=draw(st.booleans()), src=draw(st.sampled_from(["none", "ZLIB"])))


def run_bad(case, ctx):
    k, spec = case["k"], case["spec"]
    ctx.label(k)
    with ctx.srv("asan").case() as c:
        c(*GP)
        ser = case["series"] or k in ("member", "first")
        vs = [amps(spec, case["seed"] + i) for i in range(case["n"])]
        c("fw.new", "f", "w")
        c("fw.format", "f", "stream")
        if case["src"] != "none":
            c("fw.compress", "f", case["src"], 1e-15)
        if ser:
            c("fw.seq", "f", 1)
        for v in vs if ser else vs[:1]:
            put(c, "w", spec, v)
            c("fw.write", "f", "w")
        o = ["-d"] if case["d"] else []
        if ser:
            o.append("-s")
        if k == "opt":
            before = snapshot(c.s.cwd)
            r = qdz(c, ctx, case["opt"] + (["-s"] if ser else []), "w", False) if case["opt"] != ["-m"] else None
            if case["nofile"] or case["opt"] == ["-m"]:
                r = qd.run("qdz", o, c.s.cwd, "asan")
                ctx.check(not r.crashed and not r.ok, lambda: f"no file given: exit status {r.rc}")
            ctx.check(snapshot(c.s.cwd) == before, "files changed although the options are invalid")
            return
        if k == "missing":
            before = snapshot(c.s.cwd)
            qdz(c, ctx, o, "nothere", False)
            ctx.check(snapshot(c.s.cwd) == before, "files changed")
            return
        i = case["at"] % case["n"] if ser else 0
        if k == "first":
            i = 0
        f = os.path.join(c.s.cwd, f"w_{i}.wf" if ser else "w.wf")
        b = open(f, "rb").read()
        b = b[:max(20, int(len(b) * case["cut"]))]
        open(f, "wb").write(b)
        r = qdz(c, ctx, o, "w", False)
        ctx.check(open(f, "rb").read() == b, "the damaged file was overwritten")
        for j in range(case["n"] if ser else 0):
            if j != i:
                c("fw.new", "g", f"w_{j}")
                c("fw.readnew", "g", "r")
                g = get(c, "r")
                bb = 0 if case["d"] and case["src"] == "none" else bound(spec, vs[j], 1.01e-5) + 1e-12
                ctx.check(bool((np.abs(g - vs[j]) <= bb + 1e-12).all()), f"member {j} changed")


# ------------------------------------------------------------------ qdinfo
@st.composite
def infocase(draw):
    return dict(spec=draw(wfspecs(4, 100, 2, True, True, 4)), seed=draw(seeds), comp=draw(st.sampled_from(["none", "ZLIB", "BZIP"])), cut=draw(st.one_of(st.none(), st.none(), st.integers(0, 60))), fmt=draw(st.sampled_from(["stream"] * 4 + ["binary"])))


def run_info(case, ctx):
    spec = case["spec"]
    ctx.label(f"{kind(spec)[:6]} {case['comp']} {case['fmt']} {'cut' if case['cut'] is not None else ''}")
    with ctx.srv("asan").case() as c:
        c(*GP)
        put(c, "w", spec, amps(spec, case["seed"]))
        c("fw.new", "f", "w")
        c("fw.format", "f", case["fmt"])
        if case["comp"] != "none":
            c("fw.compress", "f", case["comp"], 1e-8)
        c("fw.write", "f", "w")
        f = os.path.join(c.s.cwd, "w.wf")
        if case["fmt"] == "binary" and spec["k"] == "multi":
            f = os.path.join(c.s.cwd, "w-0.wf")
        if case["cut"] is not None:
            head = 20 + int.from_bytes(open(f, "rb").read(20)[16:], "little")
            os.truncate(f, min(case["cut"], os.path.getsize(f)))
        r = qd.run("qdinfo", [os.path.basename(f)], c.s.cwd, "asan")
        ctx.check(not r.crashed, lambda: f"qdinfo: {tail(r)}")
        if case["fmt"] == "binary":
            ctx.check(not r.ok, lambda: f"a file without metadata is accepted: {r.out[:200]}")
            return
        if case["cut"] is not None and case["cut"] < head:
            ctx.check(not r.ok, lambda: f"a file cut to {case['cut']} bytes is accepted: {r.out[:300]!r}")
            return
        ctx.check(r.ok, lambda: f"qdinfo failed: {r.out[:300]}")
        cls = CLS[spec["k"]]
        ctx.check(f'class: "{cls}"' in r.out, lambda: f"class missing: {r.out}")
        m = re.search(r'meta_data: "(.*)"', r.out)
        ctx.check(m is not None, lambda: f"no metadata: {r.out}")
        d = dict(re.findall(r"(\w+)\s*(?:\[\w+\])?\s*=\s*([^\n]*?)\s*(?:\n|$)", m[1].replace("\\n", "\n")))
        if spec["k"] == "grid":
            w = dict(dims=len(spec["dims"]))
            for i, (n, a, b) in enumerate(spec["dims"]):
                w.update({f"N{i}": n, f"xmin{i}": a, f"xmax{i}": b})
        elif spec["k"] == "level":
            w = dict(size=spec["n"])
        else:
            w = {}
        for key, x in w.items():
            ctx.check(key in d and float(d[key]) == x, lambda: f"{key} is {d.get(key)}, stored {x}: {m[1]}")


SUBS = [
    Sub("convert", conv(), run_conv, (220, 6000), lambda c: wf_size(c["spec"]) > 1 and c["style"] != "zero", "more than one amplitude, not all zero"),
    Sub("size", sizecase(), run_size, (25, 400)),
    Sub("failures", badcase(), run_bad, (150, 4000)),
    Sub("info", infocase(), run_info, (200, 4000), lambda c: c["cut"] is None, "complete files"),
]
