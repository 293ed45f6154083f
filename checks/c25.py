"""C25: generated programs of the short input language compared with an independent reference implementation of the language (lexer, grammar, variables in order, loops, formats, escapes), valid ones and arbitrarily damaged ones, through the library (under asan), the converter and the main program; complete inputs run in equivalent forms (short form, variables from the file or the command line, loops, XML with other layout, order of attributes, quoting, comments, place of global options and definitions), which have to give the same files and tables bit by bit."""
import os, random, re
import xml.etree.ElementTree as ET

from c19 import *
from qd import run, OtherError

BUILD = [("opt", ["qdrv", "qdng", "qds2qdi"]), ("asan", ["qdrv"])]
BUDGET = 150

# ------------------------------------------------------------------ the reference
STR = r"[a-zA-Z0-9\-.,/_+:;#%\xc2\xb0 \t~<>^&]+"
LEX = [("comment", r"#[^\n]*"), ("for", r"for"), ("def", r"\$[a-zA-Z0-9_]+"), ("use", r"\$\([a-zA-Z0-9_]+\)"), ("fmt", r"%[0-9.fds]+"), ("id", r"[a-zA-Z0-9.\-_:]+"), ("str", '"' + STR + '"'),
       ("{", r"\{"), ("}", r"\}"), ("=", "="), ("quote", '"'), ("~", "~"), ("ws", r"[ \t\r\n]")]
LEX = [(n, re.compile(r)) for n, r in LEX]


class Bad(Exception):
    pass


class Skip(Exception):
    """Outside of what the language defines."""


def lex(text):
    i, out = 0, []
    while i < len(text):
        best = None
        for n, r in LEX:
            m = r.match(text, i)
            if m and (best is None or len(m[0]) > len(best[1])):
                best = (n, m[0])
        if best is None:
            raise Bad(f"character {text[i]!r}")
        i += len(best[1])
        n, t = best
        if n in ("comment", "ws"):
            continue
        if n == "def":
            t = t[1:]
        elif n == "use":
            t = t[2:-1]
        elif n == "str":
            t = t[1:-1]
        out.append((n, t))
    return out + [("end", "")]


NUM = re.compile(r"-?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?")


def number(t):
    if not NUM.fullmatch(t):
        if re.fullmatch(r"-?(0[xX][0-9a-fA-F.pP\-]+|inf|infinity|nan)", t, re.I):
            raise Skip(t)
        raise Bad(f"number {t}")
    x = float(t)
    if abs(x) > 1e9:
        raise Skip(t)
    return x


class Reader:
    def __init__(self, text, variables=()):
        self.t = lex(text)
        self.i = 0
        self.vars = dict(variables)
        self.out = []
        self.budget = 20000

    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)][0]

    def take(self, kind):
        n, t = self.t[self.i]
        if n != kind:
            raise Bad(f"{n} {t} instead of {kind}")
        self.i += 1
        return t

    def strexp(self):
        parts = []
        while True:
            n, t = self.t[self.i]
            if n in ("id", "str"):
                self.i += 1
                parts.append(("lit", t))
            elif n == "use":
                self.i += 1
                f = self.take("fmt") if self.peek() == "fmt" else "%s"
                parts.append(("var", t, f))
            else:
                raise Bad(f"{n} {t} in a value")
            if self.peek() != "~":
                return parts
            self.i += 1

    def parse(self):
        root = ("block", [])
        stack = [root]
        while self.peek() != "end":
            n = self.peek()
            if n == "def":
                v = self.take("def")
                self.take("=")
                stack[-1][1].append(("set", v, self.strexp()))
                if len(stack) == 1:
                    self.run(stack[-1][1].pop())
            elif n == "for":
                self.i += 1
                v = self.take("def")
                self.take("=")
                r = [self.take("id"), self.take("id")]
                if self.peek() == "id":
                    r.append(self.take("id"))
                self.take("{")
                r = [number(x) for x in r]
                if len(r) == 3 and r[2] == 0:
                    raise Bad("step 0")
                b = ("for", [], v, *r) if len(r) == 3 else ("for", [], v, *r, 1.0)
                stack[-1][1].append(b)
                stack.append(b)
            elif n == "id":
                name = self.take("id")
                if self.peek() == "{":
                    self.i += 1
                    b = ("node", [], name)
                    stack[-1][1].append(b)
                    stack.append(b)
                else:
                    self.take("=")
                    if stack[-1][0] != "node":
                        raise Bad("attribute outside of an element")
                    stack[-1][1].append(("attr", name, self.strexp()))
            elif n == "}":
                self.i += 1
                if len(stack) == 1:
                    raise Bad("too many closing braces")
                b = stack.pop()
                if len(stack) == 1:
                    self.run(b)
                    root[1].clear()
            else:
                raise Bad(f"{n}")
        if len(stack) > 1:
            raise Bad("missing closing brace")
        return self.out

    def value(self, parts):
        s = ""
        for p in parts:
            if p[0] == "lit":
                s += p[1]
                continue
            _, v, f = p
            if v not in self.vars:
                raise Skip(f"undefined {v}")
            x = self.vars[v]
            m = re.fullmatch(r"%(\d*)((?:\.\d*)?)([dfs])", f)
            if not m:
                raise Bad(f"format {f}")
            if len(m[1]) > 2 or len(m[2]) > 3 or (m[3] == "s" and m[1].startswith("0")) or "\0" in x:
                raise Skip(f)
            if m[3] == "s":
                s += f % x
            elif m[3] == "d":
                q = re.match(r"\s*([-+]?\d+)", x)
                if not q:
                    raise Bad(f"{x} is not an integer")
                if len(q[1]) > 9:
                    raise Skip(x)
                s += f % int(q[1])
            else:
                q = NUM.match(x)
                if not q:
                    if re.match(r"\s*[-+]?(\.?\d|inf|nan)", x, re.I):
                        raise Skip(x)
                    raise Bad(f"{x} is not a number")
                if q[0] != x:
                    raise Skip(x)
                s += f % float(x)
        if len(s) > 2000:
            raise Skip("long")
        return s

    def run(self, b):
        self.budget -= 1
        if self.budget < 0:
            raise Skip("long")
        if b[0] == "set":
            self.vars[b[1]] = self.value(b[2])
        elif b[0] == "for":
            _, ch, v, lo, hi, st_ = b
            if (hi - lo) * st_ < 0:
                st_ = -st_
            n = int(abs((hi - lo) / st_) + 1e-9) + 1
            if n > 1e9:
                raise Skip("long loop")
            for i in range(n):
                self.vars[v] = "%.12g" % (lo + i * st_)
                for x in ch:
                    self.run(x)
                    if not ch:
                        break
                if not ch and i > 10:
                    raise Skip("empty loop")
        else:
            _, ch, name = b
            at = []
            self.out.append(("open", name, at))
            for x in ch:
                if x[0] == "attr":
                    at.append((x[1], self.value(x[2])))
                else:
                    self.run(x)
            self.out.append(("close", name))


def reference(text, variables=()):
    return Reader(text, variables).parse()


UN = {"&lt;": "<", "&gt;": ">", "&amp;": "&", "&quot;": '"', "&apos;": "'", "&#9;": "\t"}


def events(xml):
    """The elements of the translation."""
    s = re.sub(r"<!--.*?-->", "", xml, flags=re.S)
    out, i = [], 0
    tag = re.compile(r'\s*<(/?)([^\s<>/="]+)((?:\s+[^\s<>="]+="[^"<]*")*)\s*(/?)>\s*')
    while i < len(s):
        m = tag.match(s, i)
        if not m:
            if s[i:].strip():
                raise ValueError(f"no XML: {s[i:i + 80]!r}")
            break
        i = m.end()
        if m[1]:
            out.append(("close", m[2]))
            continue
        at = [(a, re.sub(r"&[^;&]*;", lambda q: UN[q[0]], v)) for a, v in re.findall(r'\s+([^\s<>="]+)="([^"<]*)"', m[3])]
        out.append(("open", m[2], at))
        if m[4]:
            out.append(("close", m[2]))
    return out


# ------------------------------------------------------------------ programs
idents = st.sampled_from(["qdng", "propa", "wf", "A", "hamiltonian", "m0.0", "m10.2", "wf_1", "x-y", "o", "filterpost", "format", "fors", "for1", "_z"])
lits = st.one_of(st.sampled_from(["1", "0.5", "-3", "1e-5", "Cheby", "true", "a/b", "x y", "1 2;3", "a<b", "a & b", "<&>", "#1", "50%", "a~b", "\xc2\xb0C", "+1", "x,y;z^2", " lead", "tab\there", "%d", "a#b"]),
                 st.text("abcXYZ0189-.,/_+:;#% ~<>^&", min_size=1, max_size=12))
names = st.sampled_from(["a", "b", "c", "i", "k", "dir", "n_1", "X9", "0"])
fmts = st.one_of(st.none(), st.sampled_from(["%.2f", "%f", "%d", "%s", "%5d", "%03d", "%8.3f", "%.0f", "%4s", "%.1s", "%08.2f"]))
ends = st.one_of(st.integers(-5, 6).map(str), st.sampled_from(["0.1", "0.3", "1.5", "-0.25", "1e1", "2.", ".5", "1000000", "1234567", "999999.5"]))


@st.composite
def program(draw):
    """Pieces of text; [...] marks where any white space and comments may stand."""
    defined = [{"u": "w", "v7": "3"}]
    numeric = set(["v7"])
    ints = set(["v7"])
    budget = [draw(st.integers(3, 30))]

    def value(loopy=True):
        out = []
        for i in range(draw(st.sampled_from([1, 1, 1, 2, 2, 3, 4]))):
            if i:
                out.append("~")
            t = draw(st.integers(0, 2))
            if t == 0 and defined[0]:
                v = draw(st.sampled_from(sorted(defined[0])))
                out.append(f"$({v})")
                f = draw(fmts)
                if f and f[-1] == "f" and v not in numeric or f and f[-1] == "d" and v not in ints:
                    f = None
                if f:
                    out.append(f)
            else:
                s = draw(lits)
                out.append(s if re.fullmatch(r"[a-zA-Z0-9.\-_:]+", s) and s != "for" and draw(st.booleans()) else f'"{s}"')
        return out

    def items(depth, inside):
        out = []
        used = set()
        for _ in range(draw(st.integers(0, 5))):
            budget[0] -= 1
            if budget[0] < 0:
                break
            t = draw(st.sampled_from("aaaeeflv" if inside == "node" else "eeflv"))
            if t == "a":
                n = draw(idents)
                if n not in used:
                    used.add(n)
                    out += [n, "="] + value()
            elif t == "e" and depth:
                out += [draw(idents), "{"] + items(depth - 1, "node") + ["}"]
            elif t == "v":
                n = draw(names)
                val = value()
                out += ["$" + n, "="] + val
                if len(val) == 1 and re.fullmatch(r'"?-?\d{1,6}"?', val[0]):
                    numeric.add(n)
                    ints.add(n)
                else:
                    numeric.discard(n)
                    ints.discard(n)
                defined[0][n] = 1
            elif t in "fl" and depth:
                n = draw(names)
                a, b = draw(ends), draw(ends)
                s = draw(st.one_of(st.none(), st.sampled_from(["1", "2", "0.1", "0.5", "-1", "3e-1", "1000"])))
                if s is None or abs(float(s)) < 1:
                    if abs(float(a) - float(b)) > 12:
                        s = "250000"
                elif abs(float(a) - float(b)) > 1000 * 20 * abs(float(s)):
                    s = "100000.5"
                if abs(float(a) - float(b)) / abs(float(s or 1)) > 60:
                    s = repr(abs(float(a) - float(b)) / 4)
                defined[0][n] = 1
                numeric.add(n)
                ints.discard(n)
                out += ["for", "$" + n, "=", a, b] + ([s] if s else []) + ["{"] + items(depth - 1, "for") + ["}"]
        return out
    top = []
    for _ in range(draw(st.integers(0, 2))):
        n = draw(names)
        top += ["$" + n, "="] + value()
        defined[0][n] = 1
        numeric.discard(n)
        ints.discard(n)
    top += [draw(idents), "{"] + items(4, "node") + ["}"]
    if draw(st.integers(0, 9)) == 0:
        top += [draw(idents), "{"] + items(2, "node") + ["}"]
    return dict(tok=top, seed=draw(seeds), comments=draw(st.booleans()), tail=draw(st.sampled_from(["\n", "", "# the end", "  \r\n", "\n# x\n"])))


def layout(k):
    """The tokens with random white space and comments between them."""
    r = random.Random(k["seed"])
    style = r.randrange(3)
    out = ""
    word = re.compile(r"[a-zA-Z0-9.\-_:]")
    if k["comments"] and r.randrange(2):
        out = r.choice(["# a comment { } = \" \n", "# <a/> </a>\n", "# " + "long " * 300 + "\n"])
    prev = ""
    for t in k["tok"]:
        ws = ["", " ", "\n", "\t", "\r\n", "  \n   "][r.randrange(6)] if style else " "
        if k["comments"] and r.randrange(8) == 0:
            ws += "# c" + r.choice(["", " }", " \"x", " $a = 1", " for"]) + "\n"
        # tokens which would merge
        if not ws and prev and ((word.match(prev[-1]) or prev[0] in "$%") and (word.match(t[0]) or t[0] == "%") or prev[0] == "$" and word.match(t[0])):
            ws = " "
        out += ws + t
        prev = t
    return out + ("" if k["tail"].startswith(("#", "\n", " ")) else "") + (" " if k["tail"].startswith("#") else "") + k["tail"]


VARS = {"u": 'w<"&\'>', "v7": "3"}


def compare(ctx, got, want, text, what):
    try:
        ev = events(got)
    except (ValueError, KeyError) as e:
        ctx.fail(f"{what}: the translation is no XML ({e}): {text[:300]!r}")
    for i, (a, b) in enumerate(zip(ev + [None] * len(want), want + [None] * len(ev))):
        if a is None and b is None:
            break
        ctx.check(a == b, lambda: f"{what}: item {i} of the translation is {a} instead of {b} for {text[:400]!r}")


def run_translate(k, ctx):
    text = layout(k)
    ctx.label("loops" if "for" in k["tok"] else "no loops")
    translate(text, ctx)


# ------------------------------------------------------------------ damaged programs
@st.composite
def damaged(draw):
    k = draw(program())
    k["cuts"] = draw(st.lists(st.tuples(st.sampled_from(["del", "ins", "dup", "swap", "cut", "rep"]), st.floats(0, 1), st.integers(1, 6), st.sampled_from(
        ["{", "}", "=", '"', "~", "$", "$(", ")", "$(a)", "%", "%.2f", "%fd", "%5.2", "%1.2.3f", "for", "for $i = 1 3 {", "for $i = 1 1O {", "for $i = 0 1 0 {", "# x", "\n", "(", "!", "\x00", "\xff", "\r", "'", "<", "&", "/", "a", "1", " "])), min_size=1, max_size=3))
    return k


def damage(text, cuts):
    for how, x, n, ins in cuts:
        i = int(x * len(text))
        a, m, b = text[:i], text[i:i + n], text[i + n:]
        text = {"del": a + b, "ins": a + ins + m + b, "dup": a + m + m + b, "swap": a + m[::-1] + b, "cut": a, "rep": a + ins + b}[how]
    return text


def run_damaged(k, ctx):
    text = damage(layout(k), k["cuts"])
    translate(text, ctx)


def translate(text, ctx):
    try:
        want = reference(text, VARS)
    except (Bad, Skip) as e:
        want = e
    if "\0" in text:
        want = Skip("NUL")
    if isinstance(want, Skip) and "long" in str(want):
        return
    ctx.label("undefined" if isinstance(want, Skip) else "invalid" if isinstance(want, Bad) else "valid")
    with ctx.srv("asan").case() as c:
        open(c.s.cwd + "/in.qds", "wb").write(text.encode("latin-1"))
        for v, x in VARS.items():
            c("sx.var", v, x)
        try:
            got = c("sx.parse", "in.qds", timeout=60)[0]
        except (QdError, OtherError) as e:
            if isinstance(want, Exception):
                return
            ctx.fail(f"a valid input is refused ({e}): {text[:400]!r}")
        if isinstance(want, Skip):
            return
        ctx.check(not isinstance(want, Bad), lambda: f"an invalid input ({want}) is translated: {text[:400]!r}")
        compare(ctx, got.decode("latin-1") if isinstance(got, bytes) else got, want, text, "parser")


# ------------------------------------------------------------------ equivalent inputs
@st.composite
def same_(draw):
    k = draw(rcase(filters=2))
    k["forms"] = draw(st.lists(st.sampled_from(["short", "short", "vars", "vars", "cmdline", "layout", "layout", "multi", "config", "defs", "wfdefs", "converted", "bare"]), min_size=1, max_size=3, unique=True))
    k["layout"] = draw(seeds)
    k["blocks"] = draw(st.sampled_from([0, 0, 1, 2, 3]))
    return k


def esc(v, q):
    v = v.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
    return v.replace(q, "&quot;" if q == '"' else "&apos;")


def as_xml(e, r, plain=False):
    """The element written in some layout."""
    at = list(e.attrib.items())
    if not plain:
        r.shuffle(at)
    ws = lambda: "" if plain else r.choice(["", "", " ", "\n   ", "\r\n", "<!-- a <b/> { } comment -->", " \n<!-- x --> ", "<?skip me?>"])
    s = "<" + e.tag
    for a, v in at:
        q = '"' if plain else r.choice("\"'")
        v = esc(v, q)
        if not plain and v and r.randrange(12) == 0:
            i = r.randrange(len(v))
            if v[i].isalnum() and "&" not in v:
                v = v[:i] + f"&#{ord(v[i])};" + v[i + 1:]
        s += (" " if plain else r.choice([" ", "\n  ", "\t"])) + a + ("=" if plain else r.choice(["=", " = "])) + q + v + q
    ch = list(e)
    if not ch and (plain or r.randrange(3)):
        return s + ("/>" if plain else r.choice(["/>", " />"]))
    return s + ">" + ws() + "".join(as_xml(x, r, plain) + ws() for x in ch) + f"</{e.tag}>"


QOK = re.compile(STR)
TOK = re.compile(r"[a-zA-Z0-9.\-_:]+")


class Short:
    """The element in the short language, with values from variables."""
    def __init__(self, r, use):
        self.r, self.use, self.n, self.head, self.cmd = r, use, 0, [], []

    def lit(self, v):
        return v if TOK.fullmatch(v) and v != "for" and self.r.randrange(2) else f'"{v}"'

    def value(self, v):
        r = self.r
        if not v or not self.use or r.randrange(2):
            return [self.lit(v)]
        cut = sorted(r.randrange(len(v) + 1) for _ in range(r.randrange(3)))
        parts = [x for x in (v[a:b] for a, b in zip([0] + cut, cut + [len(v)])) if x]
        out = []
        for x in parts:
            if out:
                out.append("~")
            if r.randrange(2):
                out.append(self.lit(x))
                continue
            self.n += 1
            n = f"v{self.n}"
            if self.use == "cmdline":
                self.cmd.append(f"{n}={x}")
            else:
                self.head += [f"${n}", "=", self.lit(x)] if r.randrange(3) or len(x) < 2 else [f"${n}", "=", self.lit(x[:1]), "~", self.lit(x[1:])]
            out.append(f"$({n})")
            if re.fullmatch(r"[1-9]\d{0,7}", x) and r.randrange(2):
                out.append("%d")
        return out

    def tokens(self, e):
        items = [[a, "="] + self.value(v) for a, v in e.attrib.items()]
        self.r.shuffle(items)
        # the order of the children counts, the place of the attributes between them doesn't
        out = []
        ch = [self.tokens(x) for x in e]
        while items or ch:
            if items and (not ch or self.r.randrange(3)):
                out += items.pop()
            else:
                out += ch.pop(0)
        return [e.tag, "{"] + out + ["}"]


def snapshot(cwd):
    out = {}
    for d, _, l in os.walk(cwd):
        for f in l:
            p = os.path.join(d, f)
            out[os.path.relpath(p, cwd)] = open(p, "rb").read()
    return out


def clear(cwd, keep):
    for p in snapshot(cwd):
        if p not in keep:
            os.unlink(os.path.join(cwd, p))


def shown(out):
    """What the run reports."""
    t = []
    rows = [l.strip() for l in re.findall(r"^ *(?:-?\d+\t.*|Step\tTime.*|Initial energy.*|\s*Normal termination.*|\d+ step done.*)$", out, re.M)]
    return rows


def run_same(k, ctx):
    with ctx.srv().case() as c:
        p, dt = prepare(k, ctx, c)
        write_init(c, k)
        cwd = c.s.cwd
        extra = "".join(section(k, s, p.ops) for s in ("filterinit", "filterpre", "filterpost"))
        body = propa_xml(k, p, extra)
        n = k["blocks"]
        if n:
            # more than one program
            d = where(dict(k, odir=None)).replace("/", "_")
            k = dict(k, odir=None)
            body = "".join(re.sub(r"(<propa[^>]*?) steps=\"[^\"]*\"", rf'\1 steps="{max(1, k["n"] - n + i)}"', re.sub(r"(<propa[^>]*?) dir=\"[^\"]*\"", r"\1", body, count=1), count=1).replace("<propa", f'<propa dir="B{d}{i}"', 1) for i in range(1, n + 1)) if k["n"] > n else body
        root = ET.fromstring(document(k, body))
        before = snapshot(cwd)
        odir = ["-d", k["odir"]] if k["odir"] else []
        open(cwd + "/in.xml", "w").write(as_xml(root, None, True))
        r0 = run("qdng", odir + ["in.xml"], cwd, "opt")
        if r0.crashed or not r0.ok:
            ctx.label("refused")
        want, rows = snapshot(cwd), shown(r0.out)
        clear(cwd, before)
        # the other form
        r = random.Random(k["layout"])
        forms = k["forms"]
        name, args, config = "in2.xml", [], ""
        if "multi" in forms:
            root.tag = "multi"
        if "bare" in forms and len(root) == 1 and r0.ok:
            config = "".join(f"{a} = {v}\n" for a, v in root.attrib.items())
            root = root[0]
        elif "config" in forms:
            config = "".join(f"{a} = {v}\n" for a, v in root.attrib.items())
            root.attrib.clear()
        if root.tag != "propa":
            defs = []
            if "defs" in forms:
                for e in list(root.iter("hamiltonian"))[:1]:
                    if "ref" not in e.attrib and "key" not in e.attrib:
                        o = ET.Element("opdef", dict(e.attrib, key="theH"))
                        o.extend(list(e))
                        for x in list(e):
                            e.remove(x)
                        e.attrib = {"ref": "theH"}
                        q = ET.Element("opdefs")
                        q.append(o)
                        defs.append(q)
            if "wfdefs" in forms:
                ws = [e for e in root.iter("wf") if "file" in e.attrib]
                if ws and all(e.attrib == ws[0].attrib for e in ws):
                    q = ET.Element("wfdefs")
                    q.append(ET.Element("wfdef", dict(ws[0].attrib, key="theW")))
                    defs.append(q)
            for q in reversed(defs):
                root.insert(0, q)
        short = any(f in forms for f in ("short", "vars", "cmdline", "converted"))
        if short and all(QOK.fullmatch(v) for e in root.iter() for v in e.attrib.values()):
            sh = Short(r, "vars" if "vars" in forms or "converted" in forms else "cmdline" if "cmdline" in forms else None)
            body = sh.tokens(root)
            text = layout(dict(tok=sh.head + body, seed=r.randrange(1 << 30), comments=True, tail=r.choice(["\n", "", "# end"])))
            name, args = "in2.qds", sh.cmd
        else:
            forms = [f for f in forms if f not in ("short", "vars", "cmdline", "converted")]
            text = r.choice(["", '<?xml version="1.0"?>\n', '<?xml version="1.0" encoding="UTF-8"?>\n<!-- head -->\n', '<?xml version="1.0"?>\n<!-- ' + "long { } " * 200 + "-->\n", "\n" if "layout" not in forms else "", "\ufeff" if False else ""]).lstrip("\n") + as_xml(root, r, "layout" not in forms)
        open(f"{cwd}/{name}", "w", newline="").write(text)
        if config:
            open(cwd + "/.qdconfig", "w").write(config)
        if "converted" in forms:
            q = run("qds2qdi", [name], cwd, "opt")
            ctx.check(not q.crashed and q.ok, lambda: f"qds2qdi refuses {text[:300]!r}: {q.out[-300:]}")
            name += "qdi"
        what = f"input in the form {'+'.join(forms) or 'plain'}"
        r1 = run("qdng", odir + [name] + args, cwd, "opt")
        ctx.check(not r1.crashed and r1.ok == r0.ok, lambda: f"{what}: exit status {r1.rc} instead of {r0.rc}: {rtail(r1)} for {text[:600]!r}")
        if not r0.ok:
            return
        for f in forms:
            ctx.label(f)
        got = snapshot(cwd)
        for x in ("in.xml", "in2.xml", "in2.qds", "in2.qdsqdi", ".qdconfig", "wisdom"):
            got.pop(x, None)
            want.pop(x, None)
        ctx.check(set(got) == set(want), lambda: f"{what}: files {sorted(set(got) ^ set(want))} are written in one form only")
        # the indentation of the log is no content
        flat = lambda b: re.sub(rb"(?m)^ +", b"", b)
        for f in list(got):
            if f.endswith("spec.dat") and got[f] != want[f]:
                # rounding in the Fourier transformation, which depends on the place in memory
                try:
                    a, b = (np.array([float(x) for l in q[f].decode().split("\n") for x in l.split() if not l.startswith("#")]) for q in (got, want))
                    if a.shape == b.shape and np.all(np.abs(a - b) <= 1e-9 * np.abs(b).max(initial=0)):
                        got[f] = want[f]
                except ValueError:
                    pass
        bad = [f for f in got if got[f] != want[f] and (f.endswith(".wf") or flat(got[f]) != flat(want[f]))]
        if bad and os.environ.get("QD_SHOW"):
            print(want[bad[0]][:1500], got[bad[0]][:1500], sep="\n=====\n")
        ctx.check(not bad, lambda: f"{what}: {sorted(bad)} differ for {text[:800]!r}")
        ctx.check(shown(r1.out) == rows, lambda: f"{what}: reports {[a for a, b in zip(shown(r1.out), rows) if a != b][:2]} instead of {[b for a, b in zip(shown(r1.out), rows) if a != b][:2]}")


SUBS = [
    Sub("translate", program(), run_translate, (1500, 40000), lambda k: len(k["tok"]) > 12, "more than 12 tokens"),
    Sub("damaged", damaged(), run_damaged, (1500, 60000), lambda k: len(k["tok"]) > 4, "more than 4 tokens"),
    Sub("same", same_(), run_same, (400, 8000), lambda k: k["n"] > 1, "more than one step"),
]
