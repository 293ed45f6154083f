"""Chains of filters: strategy, input text, reference evaluation on a state and reading of the written tables."""
import re

from optree import *

VALUES = ["real", "imag", "abs", "complex"]


def has(s, *ts):
    if isinstance(s, dict):
        return s.get("t") in ts or any(has(v, *ts) for v in s.values())
    if isinstance(s, (list, tuple)):
        return any(has(v, *ts) for v in s)
    return False


def flagged(s, key):
    if isinstance(s, dict):
        return bool(s.get(key)) or any(flagged(v, key) for v in s.values())
    if isinstance(s, (list, tuple)):
        return any(flagged(v, key) for v in s)
    return False


def wrap(s):
    # the attribute `value` of the scalar operator has another meaning for a filter
    return dict(t="sum", m=[s]) if s["t"] == "scalar" else s


@st.composite
def measured(draw, wf, ck=None, keys=None, depth=2):
    """Operator of which values are written (its expectation value is that of the matrix)."""
    return wrap(draw(tree(wf, depth, ck, keys).filter(lambda s: not flagged([s, keys], "residue"))))


@st.composite
def mild(draw, wf):
    """Operator applied to a state within a run; does not let the state blow up."""
    if wf["k"] == "multi":
        n, w = len(wf["states"]), wf["states"][0]
        return dict(t="multistate", states=n, unity=True, nonhermitian=True, el=[[i, i, draw(mild(w))] for i in draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True))])
    l = [st.builds(lambda v, p: dict(t="sum", m=[dict(t="scalar", value=v, im=p)]), st.one_of(flt(0.3, 1), flt(-1, -0.3)), flt(-0.5, 0.5))]
    if wf["k"] == "grid":
        d = wf["dims"]
        l += [c14.s_kick(d), c14.s_gobbler(d).map(lambda s: {k: v for k, v in s.items() if k not in ("nip", "gain", "residue")})] * 2
        l.append(st.builds(lambda a: dict(t="product", m=a), st.lists(c14.s_kick(d), min_size=1, max_size=2)))
    else:
        l.append(st.builds(lambda s: dict(t="hermmat", seed=s, amp=0.5), seeds))
    return draw(st.one_of(l))


@st.composite
def chain(draw, wf, ck=None, keys=None, change=True, maxlen=4, depth=2):
    """List of filters.  change: filters that change the state are allowed."""
    out = []
    acts = ["expeconly"] * 3 + (["expec", "apply", "normalize"] if change else []) + (["rho"] * 2 if wf["k"] == "multi" else [])
    for _ in range(draw(st.integers(1, maxlen))):
        a = draw(st.sampled_from(acts))
        f = dict(a=a)
        if a in ("expeconly", "expec"):
            f["op"] = draw(measured(wf, ck, keys, depth)) if a == "expeconly" else draw(mild(wf))
        elif a == "apply":
            f["op"] = draw(mild(wf))
        elif a == "rho":
            n = len(wf["states"])
            f["ms"] = [draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))]
        if a in ("expeconly", "expec", "rho"):
            if draw(st.booleans()):
                f["value"] = draw(st.sampled_from(VALUES))
            if draw(st.integers(0, 3)) == 0:
                f["int"] = draw(st.integers(0, 4)) > 0
            if draw(st.integers(0, 2)) == 0:
                f["header"] = draw(st.sampled_from(["a", "Ex", "p(x)", "v-1", "X2"]))
        out.append(f)
    return out


def writes(ch):
    return any(f["a"] in ("expec", "expeconly", "rho") for f in ch)


def changes(ch):
    return any(f["a"] in ("expec", "apply", "normalize") for f in ch)


def chain_xml(ops, ch, section, **attr):
    x = f"<{section}{xa(**attr)}>"
    for f in ch:
        e = xa(value=f.get("value"), int=f.get("int"), header=f.get("header"), ms=f.get("ms"))
        x += ops.xml(f["op"], f["a"]).replace(f"<{f['a']}", f"<{f['a']}{e}", 1) if "op" in f else f"<{f['a']}{e}/>"
    return x + f"</{section}>"


class Chain:
    """Reference of a chain: evaluates it on a state at the current step of `ops`."""
    def __init__(self, ops, ch, renorm):
        self.ops, self.ch, self.renorm = ops, ch, renorm
        self.w = metric(ops.wf)
        self.sum = [0j] * len(ch)
        self.scale = [0.0] * len(ch)
        self.rows = []
        self.cache = {}

    def mat(self, i):
        k = (i, self.ops.t)
        if k not in self.cache:
            self.cache[k] = self.ops.mat(self.ch[i]["op"])
        return self.cache[k]

    def apply(self, v, time, dt):
        row = [(time, max(abs(time), 1e-3))]
        for i, f in enumerate(self.ch):
            a = f["a"]
            x = None
            if a in ("expec", "expeconly"):
                M = self.mat(i)
                x = np.vdot(v, self.w * (M @ v))
                sc = np.abs(M).sum(axis=1).max() * np.abs(v).max() * (self.w * np.abs(v)).sum()
                if self.renorm:
                    n = np.vdot(v, self.w * v).real
                    x, sc = x / n, sc / n
            elif a == "rho":
                n = len(v) // len(self.ops.wf["states"])
                u, y = (v[n * s:n * s + n] for s in f["ms"])
                x = np.vdot(u, self.w[:n] * y)
                sc = np.abs(u).max() * (self.w[:n] * np.abs(y)).sum()
            if x is not None:
                if f.get("int"):
                    self.sum[i] += x * dt
                    self.scale[i] += sc * abs(dt)
                else:
                    self.sum[i], self.scale[i] = x, sc
                row.append((self.sum[i], self.scale[i] + 1e-300))
            if a in ("expec", "apply"):
                v = self.mat(i) @ v
            elif a == "normalize":
                v = v / np.sqrt((self.w * np.abs(v) ** 2).sum())
        self.rows.append(row)
        return v

    def cols(self):
        return [f for f in self.ch if f["a"] in ("expec", "expeconly", "rho")]


NUM = r"[-+]?(?:\d[\d.]*(?:e[-+]?\d+)?|inf|nan)"
CPLX = re.compile(rf"({NUM}),({NUM})i")


def numbers(tok):
    """A real number or a complex one (re,imi)."""
    m = CPLX.fullmatch(tok)
    return [float(m[1]), float(m[2])] if m else [float(tok)]


def compare_table(ctx, text, ref, what, tol=2e-9):
    """Table written for a chain against its reference rows."""
    lines = text.split("\n")
    if not ref.rows and not text.strip():
        return                             # no step was done
    ctx.check(lines and lines[0].startswith("time"), f"{what}: no header line")
    head = lines[0].split("\t")[1:]
    want = [f.get("header") for f in ref.cols()]
    ctx.check(len([h for h in head if h]) == len(want), f"{what}: {len(want)} columns expected, header is {lines[0]!r}")
    for h, x in zip(head, want):
        ctx.check(x is None or x == h, f"{what}: column {x!r} is called {h!r}")
    rows = [l for l in lines[1:] if l.strip()]
    ctx.check(len(rows) == len(ref.rows), f"{what}: {len(rows)} rows instead of {len(ref.rows)}")
    for k, (l, r) in enumerate(zip(rows, ref.rows)):
        t = l.split("\t")
        t = [x for x in t if x]
        ctx.check(len(t) == len(r), f"{what}, row {k}: {len(t) - 1} values instead of {len(r) - 1}")
        for j, (tok, (x, sc)) in enumerate(zip(t, r)):
            if j == 0:
                w = [float(np.real(x))]
            else:
                f = ref.cols()[j - 1]
                w = {"real": [x.real], "imag": [x.imag], "abs": [abs(x)], "complex": [x.real, x.imag]}[f.get("value", "real")]
            try:
                g = numbers(tok)
            except ValueError:
                ctx.fail(f"{what}, row {k}: {tok!r} is not a number")
            ok = len(g) == len(w) and all(abs(a - b) <= tol * sc + 6e-10 * abs(b) + 1e-150 for a, b in zip(g, w))
            ctx.check(ok, lambda: f"{what}, row {k} ({l[:60]!r}): " + (f"time {tok} instead of {w[0]}" if j == 0 else f"value {tok} instead of {w} for {ref.cols()[j - 1]['a']} {brief(ref.cols()[j - 1]['op'])[:200] if 'op' in ref.cols()[j - 1] else ref.cols()[j - 1]['ms']} ({ref.cols()[j - 1].get('value', 'real')}{', integrated' if ref.cols()[j - 1].get('int') else ''})"))
