"""C05: random histories of typed sets, vector sets, merges, assignments and clears against a dictionary; writing as text and parsing back; documents mixing well formed and malformed lines."""
import struct
from common import *
from runner import Sub

BUILD = [("opt", ["qdrv"]), ("asan", ["qdrv"])]

# names and texts that the text form can carry: the delimiter, type brackets and line ends are excluded by the format
kchars = "abcXYZ019_.-:/ äß%$&*#"
names = st.one_of(st.sampled_from(["a", "b", "N0", "xmin0", "value", "type", "CLASS", "desc#1", "x"]),
                  st.text(alphabet=kchars, min_size=1, max_size=12).map(lambda s: s.strip()).filter(lambda s: s and not s.startswith("#")))
vchars = kchars + "=[],;\"'<>()"
texts = st.one_of(st.text(alphabet=vchars, max_size=25).map(lambda s: s.strip(" \t")), st.sampled_from(["", "true", "1", "-2.5e-3", "a = b", "[int] = 4", "#", "="]),
                  st.integers(1, 6000).map(lambda n: "q" * n), st.text(alphabet="ab \t", max_size=60).map(lambda s: s.strip(" \t")))
rtexts = st.one_of(texts, st.text(alphabet=vchars + "\n\t ", max_size=20))       # in memory only: anything goes
doubles = st.one_of(st.floats(allow_nan=False, allow_infinity=False), flt(-10, 10), st.sampled_from([0.1, 1 / 3, -1e-300, 5e-324, 1.7976931348623157e308, 2.0, 1e22, 123456789.123, -0.0]))
i32, i64 = st.integers(-2**31, 2**31 - 1), st.integers(-2**63, 2**63 - 1)
u64 = st.integers(0, 2**64 - 1)


def scalar(t):
    return {"str": texts, "cstr": texts, "int": i32, "long": i64, "sizet": u64, "double": doubles, "bool": st.booleans(),
            "s:int": i32.map(str), "s:double": doubles.map(repr), "s:string": texts, "s:uint": st.integers(0, 2**32 - 1).map(str), "s:": texts,
            "s:sizet": u64.map(str), "s:bool": st.sampled_from(["true", "false"])}[t]


STYPES = ["str", "cstr", "int", "long", "sizet", "double", "double", "bool", "s:int", "s:double", "s:string", "s:uint", "s:", "s:sizet", "s:bool"]
ATYPES = {"double": st.lists(doubles, min_size=1, max_size=400), "int": st.lists(i32, min_size=1, max_size=20), "sizet": st.lists(st.integers(0, 2**53), min_size=1, max_size=20),
          "bool": st.lists(st.booleans(), min_size=1, max_size=12)}


@st.composite
def op(draw, raw=True):
    k = draw(st.sampled_from(["set"] * 7 + ["arr"] * 2 + ["merge", "assign", "get", "get", "get"] + (["clear"] if draw(st.integers(0, 4)) == 0 else ["get"])))
    c = draw(st.sampled_from("AB"))
    if k == "set":
        t = draw(st.sampled_from(STYPES))
        v = draw(rtexts if raw and t in ("str", "cstr") else scalar(t))
        return [k, c, t, draw(names), v]
    if k == "arr":
        t = draw(st.sampled_from(["double", "double", "int", "sizet", "bool"]))
        return [k, c, t, draw(names), draw(ATYPES[t])]
    if k == "get":
        return [k, c, draw(names)]
    return [k, c]


TCODE = {"": 0, "int": 1, "uint": 2, "sizet": 3, "double": 4, "bool": 5, "string": 6}
GET = {"int": ["int", "long"], "long": ["long"], "sizet": ["sizet"], "double": ["double"], "bool": ["bool"], "uint": ["uint", "sizet"]}


def deft(t):
    """type name shown for a value stored with this setter."""
    if t.startswith("s:"):
        return t[2:]
    return {"str": "", "cstr": "", "int": "int", "long": "int", "sizet": "sizet", "double": "double", "bool": "bool"}[t]


class Model:
    def __init__(self):
        self.d = {}

    def apply(self, o, other):
        if o[0] == "set":
            t, v = o[2], o[4]
            if t.startswith("s:") and t[2:] in ("int", "uint", "sizet"):
                v = int(v)
            elif t == "s:double":
                v = float(v)
            elif t == "s:bool":
                v = v == "true"
            kind = {"s:int": "int", "s:uint": "uint", "s:sizet": "sizet", "s:double": "double", "s:bool": "bool"}.get(t, t if t in ("int", "long", "sizet", "double", "bool") else "str")
            self.d[o[3]] = (kind, v, deft(t))
        elif o[0] == "arr":
            self.d[o[3]] = ("a" + o[2], o[4], deft(o[2]))
        elif o[0] == "merge":
            self.d.update(other.d)
        elif o[0] == "assign":
            self.d = dict(other.d)
        elif o[0] == "clear":
            self.d = {}


def dq(a, b):
    return struct.pack("<d", a) == struct.pack("<d", b)


def chk_value(c, ctx, id, name, ent, what):
    kind, v, t = ent
    if kind == "str":
        r = c("pc.get", id, "str", name)
        ctx.check(r[0] == b"1" and r[1] == qd.enc(v), lambda: f"{what}: text under {name!r} is {r!r}, stored {v!r}")
    elif kind == "double":
        r = c("pc.get", id, "double", name)
        ctx.check(r[0] == b"1" and dq(dbl(r[1]), v), lambda: f"{what}: number under {name!r} is {dbl(r[1])!r}, stored {v!r}")
    elif kind == "bool":
        for d in "01":
            r = c("pc.get", id, "bool", name, d)
            ctx.check(r == [b"1", b"1" if v else b"0"], lambda: f"{what}: switch under {name!r} is {r!r}, stored {v!r}")
    elif kind[0] == "a":
        r = c("pc.geta", id, "int" if kind == "aint" else "bool" if kind == "abool" else "double", name)
        got = dvec(r[1])
        ok = r[0] == b"1" and len(got) == len(v) and all(dq(float(a), float(b)) for a, b in zip(got, v))
        ctx.check(ok, lambda: f"{what}: vector under {name!r} is {got.tolist()[:10]!r}… ({len(got)}), stored {v[:10]!r}… ({len(v)})")
    else:
        for g in GET[kind] + (["sizet"] if kind == "int" and v >= 0 else []) + (["uint"] if kind == "int" and v >= 0 else []):
            r = c("pc.get", id, g, name)
            ctx.check(r[0] == b"1" and int(r[1]) == v, lambda: f"{what}: integer under {name!r} read as {g} is {r!r}, stored {v!r}")


def chk_all(c, ctx, id, m, what, types=True):
    l = c("pc.list", id)
    got = l[0::2]
    want = [qd.enc(n) for n in m.d]
    ctx.check(sorted(got) == sorted(want), lambda: f"{what}: names are {sorted(got)!r}, stored were {sorted(want)!r}")
    for n, e in m.d.items():
        chk_value(c, ctx, id, n, e, what)
        r = c("pc.present", id, n)
        ctx.check(r[:2] == [b"1", b"1"], lambda: f"{what}: {n!r} reported as absent")
        if types:
            ctx.check(int(r[2]) == TCODE[e[2]], lambda: f"{what}: type of {n!r} is {r[2]!r}, stored as {e[2]!r}")
            if e[2]:
                ctx.check(c("pc.istype", id, n, e[2])[0] == b"1", lambda: f"{what}: isType({n!r}, {e[2]!r}) is false")
                ctx.check(c("pc.istype", id, n, "int" if e[2] != "int" else "double")[0] == b"0", lambda: f"{what}: {n!r} claims to be of another type")


def chk_absent(c, ctx, id, n):
    ctx.check(c("pc.present", id, n)[:2] == [b"0", b"0"], f"absent name {n!r} reported as present")
    for t, z in (("str", b""), ("int", b"0"), ("uint", b"0"), ("long", b"0"), ("sizet", b"0")):
        r = c("pc.get", id, t, n)
        ctx.check(r == [b"0", z], lambda: f"absent name {n!r} read as {t} gives {r!r}")
    for d in "01":
        ctx.check(c("pc.get", id, "bool", n, d) == [b"0", d.encode()], f"default of a switch not used for absent {n!r}")
    r = c("pc.geta", id, "double", n)
    ctx.check(r[0] == b"0" and len(r[1]) == 0, f"absent vector {n!r} reported as present")


@st.composite
def history(draw):
    return dict(ops=draw(st.lists(op(), min_size=1, max_size=25)))


def do(c, o):
    k, id = o[0], o[1]
    other = "B" if id == "A" else "A"
    if k == "set":
        v = o[4]
        c("pc.set", id, o[2], o[3], ("1" if v else "0") if o[2] == "bool" else float(v) if o[2] == "double" else v)
    elif k == "arr":
        c("pc.seta", id, o[2], o[3], [float(x) for x in o[4]])
    elif k == "merge":
        c("pc.merge", id, other)
    elif k == "assign":
        c("pc.assign", id, other)
    elif k == "clear":
        c("pc.clear", id)


def run_history(case, ctx):
    m = {"A": Model(), "B": Model()}
    with ctx.srv("asan").case() as c:
        for o in case["ops"]:
            ctx.label(o[0] + (" " + o[2] if o[0] in ("set", "arr") else ""))
            if o[0] == "get":
                if o[2] in m[o[1]].d:
                    chk_value(c, ctx, o[1], o[2], m[o[1]].d[o[2]], "get")
                else:
                    chk_absent(c, ctx, o[1], o[2])
                continue
            do(c, o)
            m[o[1]].apply(o, m["B" if o[1] == "A" else "A"])
        for id in "AB":
            chk_all(c, ctx, id, m[id], "after the history")


# ------------------------------------------------------------------ text round trip
@st.composite
def rtrip(draw):
    return dict(ops=draw(st.lists(op(False).filter(lambda o: o[0] in ("set", "arr")).map(lambda o: [o[0], "A"] + o[2:]), min_size=0, max_size=12)),
                pre=draw(st.lists(op(False).filter(lambda o: o[0] == "set").map(lambda o: [o[0], "B"] + o[2:]), max_size=3)),
                types=draw(st.booleans()), via=draw(st.sampled_from(["text", "file", "eof"])))


def run_rtrip(case, ctx):
    ctx.label(f"{case['via']} types={case['types']}")
    m = Model()
    with ctx.srv("asan").case() as c:
        for o in case["ops"]:
            do(c, o)
            m.apply(o, None)
        for o in case["pre"]:      # parsing replaces what was there
            do(c, o)
        t = "1" if case["types"] else "0"
        if case["via"] == "file":
            ctx.check(c("pc.tofile", "A", "params.txt", t)[0] == b"1", "writing the container to a file failed")
            ctx.check(c("pc.fromfile", "B", "params.txt")[0] == b"1", "reading the container from a file failed")
            ctx.check(c("pc.fromfile", "C", "missing.txt")[0] == b"0", "reading a missing file reported success")
        else:
            s = c("pc.write", "A", t)[0]
            if case["via"] == "eof":
                r = c("pc.parseeof", "B", s + b"THE END\nlater = 1\n", "THE END")[0]
                ctx.check(r == b"later = 1\n", lambda: f"text after the end mark was consumed: {r!r} is left")
            else:
                c("pc.parse", "B", s)
        chk_all(c, ctx, "A", m, "written container")
        chk_all(c, ctx, "B", m, f"read back ({case['via']})", types=case["types"])


# ------------------------------------------------------------------ documents with malformed lines
JUNK = ["", "   ", "=", "= 3", "  = ", "# a = b", " # a = b", "no delimiter", "junk[ = 1", "junk] = 1", "junk[] = 1", "junk[foo] = 1", "[int] = 1", "[", "junk]x[int = 2", "]=[", "junk[int][double] = 1", "\t=\t", "junk = \t ",
        "junk[int", "junk[Double] = 1", "#[int] = 1", "\x00junk", "junk\x00=1", "\xff\xfe"]


@st.composite
def docs(draw):
    ents = draw(st.lists(op(False).filter(lambda o: o[0] == "set").map(lambda o: [o[0], "A"] + o[2:]), max_size=6))
    lines = [["ok", o, draw(st.sampled_from(["%s[%s] = %s", "%s[%s]=%s", "  %s [%s]\t=  %s  ", "%s\t[%s] = %s\t"])), draw(st.booleans())] for o in ents]
    n = draw(st.integers(0, 4))
    for _ in range(n):
        b = draw(st.one_of(st.sampled_from(JUNK), st.text(alphabet="junk[]= \t#", max_size=15).map(lambda s: "junk" + s),
                           st.tuples(st.sampled_from(["x", "# = ", "junk = ", " "]), st.integers(2000, 70000)).map(lambda t: t[0] + "y" * t[1])))
        lines.insert(draw(st.integers(0, len(lines))), ["junk", b])
    return dict(lines=lines, crlf=False, last=draw(st.booleans()))


def run_docs(case, ctx):
    m = Model()
    ls = []
    bad = 0
    for l in case["lines"]:
        if l[0] == "junk":
            ls.append(l[1])
            bad += 1
        else:
            o = l[1]
            t = deft(o[2])
            v = o[4]
            v = ("true" if v else "false") if o[2] == "bool" else repr(float(v)) if o[2] == "double" else str(v)
            pat = l[2]
            if not (t and l[3]):
                pat, t = pat.replace("[%s]", ""), ""
                ls.append(pat % (o[3], v))
            else:
                ls.append(pat % (o[3], t, v))
            m.apply(o, None)
            m.d[o[3]] = m.d[o[3]][:2] + (t,)
    ctx.label(f"{min(bad, 2)} malformed" + (" long" if any(len(l) > 2000 for l in ls) else ""))
    with ctx.srv("asan").case() as c:
        try:
            c("pc.parse", "A", "\n".join(ls) + ("\n" if case["last"] else ""), timeout=10)
        except (qd.QdError, qd.OtherError) as e:
            ctx.check(bad, f"a well formed document was refused: {e!r}")
            ctx.label("reported")
            return
        got = c("pc.list", "A")
        names_ = got[0::2]
        for n, e in m.d.items():
            ctx.check(qd.enc(n) in names_, f"entry {n!r} lost when parsing ({bad} malformed lines)")
            chk_value(c, ctx, "A", n, e, "parsed document")
            if e[2]:
                ctx.check(int(c("pc.present", "A", n)[2]) == TCODE[e[2]], f"type of {n!r} lost when parsing")
        # a malformed line may be kept under its own name, but may not invent or change other entries
        for n in names_:
            ctx.check(n in [qd.enc(x) for x in m.d] or any(n.split(b"[")[0].strip() in qd.enc(l[1]) for l in case["lines"] if l[0] == "junk"), lambda: f"entry {n!r} appears in no line")


SUBS = [
    Sub("history", history(), run_history, (600, 20000), lambda c: len(c["ops"]) >= 4, "at least four operations"),
    Sub("roundtrip", rtrip(), run_rtrip, (500, 15000), lambda c: len(c["ops"]) >= 1, "at least one entry"),
    Sub("documents", docs(), run_docs, (500, 15000), lambda c: any(l[0] == "junk" for l in c["lines"]), "with malformed lines"),
]
