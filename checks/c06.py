"""C06: random histories of block requests, releases, limit changes and vector allocations against reference accounting, with every live block's contents checked; texts with units against the number of bytes they denote."""
from common import *
from runner import Sub

BUILD = [("opt", ["qdrv"]), ("asan", ["qdrv"])]
UN = {"": 1, "K": 2**10, "M": 2**20, "G": 2**30, "T": 2**40}
ids = st.sampled_from(["a", "b", "c", "d", "e", "f"])
sizes = st.one_of(st.integers(0, 300), st.sampled_from([1, 15, 16, 17, 512, 4095, 4096, 4097, 65536]), st.integers(0, 200000))


@st.composite
def limit(draw):
    u = draw(st.sampled_from(["", "", "K", "M", "G", "T"]))
    n = draw(st.integers(0, 600000) if u == "" else st.integers(0, 600) if u == "K" else st.integers(0, 4))
    return [n, u, draw(st.sampled_from(["", "B"]))]


@st.composite
def op(draw):
    k = draw(st.sampled_from(["align"] * 6 + ["free"] * 4 + ["max", "foreign", "vec", "vecdel", "vecresize", "vecassign", "cleanup", "fill"]))
    if k == "align":
        return [k, draw(ids), draw(sizes)]
    if k == "free":
        return [k, draw(ids)]
    if k == "max":
        return [k] + draw(limit())
    if k == "fill":     # a request that is exactly, or one byte more than, what is left
        return [k, draw(ids), draw(st.sampled_from([-1, 0, 0, 1, 1, 2]))]
    if k == "vec":
        s = draw(st.integers(1, 4))
        return [k, draw(ids), s * draw(st.integers(0, 300)), s]
    if k == "vecresize":
        return [k, draw(ids), draw(st.integers(0, 600))]
    if k == "vecassign":
        return [k, draw(ids), draw(ids)]
    if k == "vecdel":
        return [k, draw(ids)]
    return [k]


@st.composite
def history(draw):
    o = draw(st.lists(op(), min_size=1, max_size=40))
    return dict(max=draw(st.one_of(st.none(), limit())), ops=o, flav=draw(st.sampled_from(["asan", "opt"])))


def txt(l):
    return f"{l[0]}{l[1]}{l[2]}"


def run_history(case, ctx):
    live, vec = {}, {}
    with ctx.srv(case["flav"]).case() as c:
        def stat():
            s = [int(x) for x in c("mem.stat")]
            return s
        s0 = stat()
        base = s0[1]
        mx, peak = s0[0], s0[3]
        used = base

        def chk(what):
            s = stat()
            ctx.check(s[0] == mx, lambda: f"{what}: maximum is {s[0]}, configured {mx}")
            ctx.check(s[1] == used, lambda: f"{what}: used is {s[1]}, blocks in use sum to {used}")
            ctx.check(s[3] == peak, lambda: f"{what}: peak is {s[3]}, highest use was {peak}")
            ctx.check(s[2] == max(0, mx - used), lambda: f"{what}: available is {s[2]}, should be {max(0, mx - used)}")

        def contents(what):
            for i, n in live.items():
                ctx.check(c("mem.check", i, n)[0] == b"0", lambda: f"{what}: contents of block {i} ({n} bytes) changed")

        def setmax(l):
            nonlocal mx
            c("mem.max", txt(l))
            mx = l[0] * UN[l[1]]
        ok = refused = 0
        if case["max"]:
            setmax(case["max"])
        chk("start")
        for o in case["ops"]:
            k = o[0]
            if k in ("align", "fill"):
                i = o[1]
                if i in live:
                    continue
                n = o[2] if k == "align" else max(0, mx - used) + o[2]
                if n < 0 or (k == "fill" and n > 3000000 and o[2] < 1):
                    continue
                try:
                    r = c("mem.align", i, n)
                except qd.QdError as e:
                    ctx.check(n > max(0, mx - used), f"request of {n} bytes refused with {mx} - {used} available: {e!r}")
                    refused += 1
                else:
                    ctx.check(n <= max(0, mx - used), f"request of {n} bytes granted with maximum {mx} and {used} in use")
                    ctx.check(int(r[0]) % 16 == 0, f"block not aligned ({r[0]!r})")
                    ctx.check(n == 0 or r[1] == b"1", "no block handed out")
                    live[i] = n
                    used += n
                    peak = max(peak, used)
                    ok += 1
            elif k == "free":
                if o[1] in live:
                    ctx.check(c("mem.check", o[1], live[o[1]])[0] == b"0", "contents changed before release")
                    c("mem.free", o[1])
                    used -= live.pop(o[1])
            elif k == "max":
                setmax(o[1:])
            elif k == "foreign":
                c("mem.freeforeign")
            elif k == "cleanup":
                c("mem.cleanup")
            elif k == "vec":
                if o[1] in vec or o[2] * 8 > max(0, mx - used):
                    continue
                c("mem.vec", o[1], o[2], o[3])
                vec[o[1]] = (o[2], o[3])
                used += 8 * o[2]
                peak = max(peak, used)
            elif k == "vecdel":
                if o[1] in vec:
                    c("mem.vecdel", o[1])
                    used -= 8 * vec.pop(o[1])[0]
            elif k == "vecresize":
                if o[1] in vec and vec[o[1]][1] == 1 and o[2] * 8 <= max(0, mx - used):
                    c("mem.vecresize", o[1], o[2])
                    old = vec[o[1]][0]
                    span = (peak, max(peak, used + 8 * o[2]))
                    used += 8 * (o[2] - old)
                    vec[o[1]] = (o[2], 1)
                    peak = None
            elif k == "vecassign":
                a, b = o[1], o[2]
                if a in vec and b in vec and a != b and vec[b][1] == 1 and vec[a][1] == 1 and vec[b][0] * 8 <= max(0, mx - used):
                    c("mem.vecassign", a, b)
                    span = (peak, max(peak, used + 8 * vec[b][0]))
                    used += 8 * (vec[b][0] - vec[a][0])
                    vec[a] = vec[b]
                    peak = None
            if peak is None:      # old and new storage may or may not exist at the same time: take the peak from the record, within the two possibilities
                s = stat()
                ctx.check(max(used, span[0]) <= s[3] <= span[1], f"peak is {s[3]} after a change of size, possible are {span}")
                peak = s[3]
            chk(o)
        contents("end")
        for i in list(vec):
            c("mem.vecdel", i)
            used -= 8 * vec.pop(i)[0]
        for i in list(live):
            c("mem.free", i)
            used -= live.pop(i)
        chk("all released")
        c("mem.cleanup")
        chk("after clean-up")
        ctx.label("refused" if refused else "no refusal")


# ------------------------------------------------------------------ texts with units
@st.composite
def text(draw):
    if draw(st.booleans()):
        u = draw(st.sampled_from(list(UN)))
        n = draw(st.integers(0, (2**64 - 1) // UN[u]) if draw(st.booleans()) else st.integers(0, 5000))
        return dict(t=("0" * draw(st.integers(0, 2))) + f"{n}{u}" + draw(st.sampled_from(["", "B"])), v=n * UN[u])
    bad = draw(st.one_of(st.sampled_from(["", "B", "K", "KB", "MB", "-1", "-1K", "1.5G", "1KM", "1BB", "1 K", "K1", "12k", "12kB", "1e6", "x", "0x10", "1G1", " ", "+3",
                                          "18446744073709551616", "99999999999999999999999K", "16777216T", "17179869184G", "18014398509481984K"]),
                         st.text(alphabet="KMGTB.- ex", max_size=5)))
    return dict(t=bad, v=None)


def run_text(case, ctx):
    ctx.label("valid" if case["v"] is not None else "invalid")
    with ctx.srv("asan").case() as c:
        try:
            r = int(c("mem.parse", case["t"])[0])
        except qd.QdError as e:
            ctx.check(case["v"] is None, f"{case['t']!r} refused: {e!r}")
            return
        ctx.check(case["v"] is not None, f"{case['t']!r} accepted as {r} bytes")
        ctx.check(r == case["v"], f"{case['t']!r} read as {r} bytes, denotes {case['v']}")


@st.composite
def fmts(draw):
    return dict(n=draw(st.one_of(st.integers(0, 2**63), st.integers(0, 70), st.integers(0, 45).map(lambda k: 2**k), st.integers(0, 45).map(lambda k: 2**k + 1))))


def run_fmt(case, ctx):
    """the printed size: at most the rounding of one decimal away from the real one."""
    n = case["n"]
    with ctx.srv("asan").case() as c:
        t = c("mem.format", n)[0].decode()
    m = re.fullmatch(r"(\d+)|(\d+\.\d)([KMGT])B", t)
    ctx.check(m, f"size {n} is shown as {t!r}")
    if m[1]:
        ctx.check(int(m[1]) == n, f"size {n} is shown as {t!r}")
    else:
        ctx.check(abs(float(m[2]) * UN[m[3]] - n) <= 0.0501 * UN[m[3]], f"size {n} is shown as {t!r}")


import re
SUBS = [
    Sub("history", history(), run_history, (1000, 40000), lambda c: sum(o[0] in ("align", "fill") for o in c["ops"]) >= 2, "at least two requests"),
    Sub("units", text(), run_text, (400, 10000), None, "every text",
        fixed=[dict(t=t, v=None) for t in ("", "B", "K", "TB", "18446744073709551616", "16777216T")]),
    Sub("format", fmts(), run_fmt, (150, 5000), None, "every size"),
]
