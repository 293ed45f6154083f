"""C08: wave function arithmetic against the element-wise definition (numpy reference)."""
from common import *
from runner import Sub

BUILD = [("opt", ["qdrv"])]

RS = st.tuples(seeds, styles)
scal = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 0.5, 2.0, -3.25]), flt(-10, 10))


@st.composite
def prog(draw):
    """A history of operations on a pool of wave functions of one shape."""
    spec = draw(wfspecs(maxdim=4, maxpts=200))
    n = draw(st.integers(2, 4))
    init = [list(draw(RS)) for _ in range(n)]
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        o = draw(st.sampled_from(["plus", "addeq", "subeq", "muld", "mulc", "dp", "dpc", "dp2", "dpc2", "imag", "real",
                                  "assign", "copy", "dot", "norm", "normalize", "setc", "setel", "newinst", "kspace2"]))
        ops.append([o, draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1)),
                    draw(scal), draw(scal), draw(st.integers(0, 10**6))])
    return {"spec": spec, "init": init, "ops": ops}


def run_prog(case, ctx):
    spec = case["spec"]
    W = metric(spec)
    n = wf_size(spec)
    with ctx.srv().case() as c:
        ref, scl = [], []
        for i, (s, sty) in enumerate(case["init"]):
            v = amps(spec, s, sty)
            put(c, f"w{i}", spec, v)
            ref.append(v)
            scl.append(np.abs(v))          # running bound of what rounding is relative to

        for op, a, b, d, x, y, el in case["ops"]:
            A, B, D = f"w{a}", f"w{b}", f"w{d}"
            z = complex(x, y)
            sc = None
            if op == "plus":
                c("wf.plus", "t", B, D)
                exp = ref[b] + ref[d]
                s2 = scl[b] + scl[d]
                got = get(c, "t")
                ctx.check(np.all(np.abs(got - exp) <= 1e-14 * s2 + 1e-300), f"{op}: sum of two {kind(spec)} functions is wrong by {err(got, exp)}")
                c("wf.del", "t")
            elif op == "addeq":
                c("wf.addeq", A, B)
                ref[a] = ref[a] + ref[b]; scl[a] = scl[a] + scl[b]
            elif op == "subeq":
                c("wf.subeq", A, B)
                ref[a] = ref[a] - ref[b]; scl[a] = scl[a] + scl[b]
            elif op == "muld":
                c("wf.muld", A, x)
                ref[a] = ref[a] * x; scl[a] = scl[a] * abs(x)
            elif op == "mulc":
                c("wf.mulc", A, x, y)
                ref[a] = ref[a] * z; scl[a] = scl[a] * abs(z)
            elif op in ("dp", "dpc"):
                if np.max(scl[a]) * np.max(scl[b]) > 1e100:
                    continue
                c("wf." + op, A, B)
                m = ref[b] if op == "dp" else None
                ref[a] = ref[a] * ref[b] if op == "dp" else np.conj(ref[a]) * ref[b]
                scl[a] = scl[a] * scl[b]
            elif op in ("dp2", "dpc2"):
                if np.max(scl[d]) * np.max(scl[b]) > 1e100:
                    continue
                c("wf." + op, "t", B, D)
                exp = ref[b] * ref[d] if op == "dp2" else np.conj(ref[b]) * ref[d]
                got = get(c, "t")
                ctx.check(np.all(np.abs(got - exp) <= 1e-13 * scl[b] * scl[d] + 1e-300), f"{op} of two {kind(spec)} functions is wrong by {err(got, exp)}")
                c("wf.del", "t")
            elif op == "imag":
                c("wf.imag", A)
                # Imag keeps the imaginary part; stored as documented by the element function
                got = get(c, A)
                ok = close(got, 1j * ref[a].imag) or close(got, ref[a].imag + 0j)
                ctx.check(np.all(np.abs(got.imag - ref[a].imag) <= 1e-13 * scl[a] + 1e-300) and np.all(np.abs(got.real) <= 1e-13 * scl[a])
                          or np.all(np.abs(got.real - ref[a].imag) <= 1e-13 * scl[a] + 1e-300) and np.all(np.abs(got.imag) <= 1e-13 * scl[a]),
                          f"imaginary part of a {kind(spec)} function is wrong")
                ref[a] = got
            elif op == "real":
                c("wf.real", A)
                ref[a] = ref[a].real + 0j
            elif op == "assign":
                c("wf.assign", A, B)
                ctx.check(same_bits(get(c, A), get(c, B)), "assignment does not copy")
                ref[a] = ref[b].copy(); scl[a] = scl[b].copy()
            elif op == "copy":
                c("wf.copy", "t", B)
                ctx.check(same_bits(get(c, "t"), get(c, B)), "a copy differs from the original")
                # independent storage: changing the copy leaves the original alone
                before = get(c, B)
                c("wf.setc", "t", 3.0, -4.0)
                ctx.check(same_bits(before, get(c, B)), "a copy shares storage with its original")
                c("wf.del", "t")
            elif op == "newinst":
                c("wf.newinst", "t", B)
                m1, m2 = c("wf.meta", "t"), c("wf.meta", B)
                ctx.check(m1[0] == m2[0] and m1[1] == m2[1] and m1[2] == m2[2] and m1[6] == m2[6], f"a new instance has another shape: {m1} {m2}")
                c("wf.del", "t")
            elif op == "kspace2":
                before = get(c, A)
                c("wf.kspace", A, 1); c("wf.kspace", A, 0)
                ctx.check(same_bits(before, get(c, A)), "switching the representation back and forth changes the amplitudes")
                continue
            elif op == "dot":
                got = cplx(c("wf.dot", A, B)[0])
                exp = np.sum(np.conj(ref[a]) * ref[b] * W)
                tol = 1e-12 * float(np.sum(scl[a] * scl[b] * W)) + 1e-300
                ctx.check(abs(got - exp) <= tol, f"scalar product of two {kind(spec)} functions {got}, expected {exp}")
            elif op == "norm":
                got = dbl(c("wf.norm", A)[0])
                exp = math.sqrt(float(np.sum(np.abs(ref[a]) ** 2 * W)))
                ctx.check(abs(got - exp) <= 1e-12 * math.sqrt(float(np.sum(scl[a] ** 2 * W))) + 1e-300, f"norm of a {kind(spec)} function {got}, expected {exp}")
            elif op == "normalize":
                nn = math.sqrt(float(np.sum(np.abs(ref[a]) ** 2 * W)))
                s0 = math.sqrt(float(np.sum(scl[a] ** 2 * W)))
                if nn < 1e-3 * s0 or nn == 0:
                    continue
                c("wf.normalize", A)
                ref[a] = ref[a] / nn; scl[a] = scl[a] / nn
                ctx.check(abs(dbl(c("wf.norm", A)[0]) - 1) < 1e-9, "normalisation does not give norm one")
            elif op == "setc":
                c("wf.setc", A, x, y)
                ref[a] = np.full(n, z); scl[a] = np.abs(ref[a])
            elif op == "setel":
                i = el % n
                got = cplx(c("wf.getel", A, i)[0])
                ctx.check(abs(got - ref[a][i]) <= 1e-11 * scl[a][i] + 1e-300, f"element {i} reads {got}, expected {ref[a][i]}")
                c("wf.setel", A, i, x, y)
                ref[a][i] = z; scl[a][i] = abs(z)
            # every function of the pool: operands unchanged, result right
            for i in range(len(ref)):
                got = get(c, f"w{i}")
                ctx.check(np.all(np.abs(got - ref[i]) <= 1e-11 * scl[i] + 1e-300),
                          lambda: f"after {op}: {'result' if i == a else 'operand'} w{i} ({kind(spec)}) differs by {err(got, ref[i])}")
                ref[i] = got


@st.composite
def kdot(draw):
    s = draw(single(level=False))
    if draw(st.booleans()):
        s = {"k": "multi", "states": [s] * draw(st.integers(1, 3))}
    return {"spec": s, "a": list(draw(RS)), "b": list(draw(RS))}


def run_kdot(case, ctx):
    """Momentum-space representation: same vector, weight 2 pi / (xmax-xmin) per dimension; buffers stay separate."""
    spec = case["spec"]
    s0 = spec["states"][0] if spec["k"] == "multi" else spec
    W = np.prod([2 * np.pi / (b - a) for _, a, b in s0["dims"]])
    n = wf_size(spec)
    with ctx.srv().case() as c:
        x = amps(spec, *case["a"]); y = amps(spec, *case["b"])
        p, q = amps(spec, case["b"][0] ^ 5), amps(spec, case["a"][0] ^ 9)
        put(c, "x", spec, x); put(c, "y", spec, y)
        for w, v in (("x", p), ("y", q)):
            c("wf.kspace", w, 1)
            c("wf.set", w, v)
        got = cplx(c("wf.dot", "x", "y")[0])
        exp = np.sum(np.conj(p) * q) * W
        ctx.check(abs(got - exp) <= 1e-12 * np.sum(abs(p) * abs(q)) * W, f"momentum space scalar product {got}, expected {exp}")
        for w, v, u in (("x", p, x), ("y", q, y)):
            ctx.check(same_bits(get(c, w), v), "momentum space amplitudes lost")
            c("wf.kspace", w, 0)
            ctx.check(same_bits(get(c, w), u), "real space amplitudes lost")


OPS = ["plus", "addeq", "subeq", "dp", "dpc", "dp2", "dpc2", "dot", "assign"]


@st.composite
def incompat(draw):
    a = draw(single()); b = draw(single())
    if draw(st.integers(0, 2)) == 0:      # same number of amplitudes, different number of states
        m = draw(st.integers(1, 3)); f = draw(st.integers(2, 3)); n = draw(st.integers(2, 12))
        one = lambda k: {"k": "level", "n": k} if a["k"] == "level" else {"k": "grid", "dims": [[k, -1.0, 1.0]]}
        a, b = one(n * f), one(n)
        return {"a": a, "b": b, "na": m, "nb": m * f, "s": draw(seeds), "op": draw(st.sampled_from(OPS))}
    return {"a": a, "b": b, "na": draw(st.integers(0, 3)), "nb": draw(st.integers(0, 3)), "s": draw(seeds),
            "op": draw(st.sampled_from(OPS))}


def run_incompat(case, ctx):
    A = {"k": "multi", "states": [case["a"]] * case["na"]} if case["na"] else case["a"]
    B = {"k": "multi", "states": [case["b"]] * case["nb"]} if case["nb"] else case["b"]
    na, nb = wf_size(A), wf_size(B)
    op = case["op"]
    level = A["k"] == "level"
    refuse = na != nb or max(1, case["na"]) != max(1, case["nb"]) or op == "dot" and A["k"] == "multi" and B["k"] != "multi"
    if op == "assign":
        # copying onto a different kind is refused; a multistate keeps its number of states
        refuse = A["k"] != B["k"] or A["k"] == "multi" and (len(A["states"]) != len(B["states"]) or A["states"][0]["k"] != B["states"][0]["k"])
    elif not refuse:
        return
    if not refuse:
        return
    with ctx.srv().case() as c:
        x, y = amps(A, case["s"]), amps(B, case["s"] ^ 77)
        put(c, "a", A, x); put(c, "b", B, y)
        try:
            if op in ("dp2", "dpc2", "plus"):
                c("wf." + op, "t", "a", "b")
            else:
                c("wf." + op, "a", "b")
        except QdError:
            ctx.check(same_bits(get(c, "b"), y), "refused operation changed its operand")
            return
        ctx.fail(f"{op} of {kind(A)} ({na}) and {kind(B)} ({nb}) was not refused")


SUBS = [
    Sub("algebra", prog(), run_prog, (1200, 40000), lambda c: len(c["ops"]) >= 3 and wf_size(c["spec"]) > 1,
        "history of 1-12 vector space operations on 2-4 wave functions of one random kind/shape, compared with numpy after every step; non-trivial: >= 3 operations, > 1 amplitude",
        classify=lambda c: [kind(c["spec"])]),
    Sub("kspace", kdot(), run_kdot, (250, 5000), lambda c: wf_size(c["spec"]) > 2,
        "two grid functions switched to momentum space; non-trivial: > 2 amplitudes"),
    Sub("incompatible", incompat(), run_incompat, (300, 5000),
        lambda c: c["a"] != c["b"] or c["na"] != c["nb"],
        "two wave functions of different kind or size; non-trivial: they differ"),
]
