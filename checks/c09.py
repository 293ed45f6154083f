"""C09: linear algebra helpers against numpy/scipy definitions and residual equations."""
from common import *
from runner import Sub
import scipy.special as ss
import scipy.linalg as sl

BUILD = [("opt", ["qdrv"]), ("asan", ["qdrv"])]
sc = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 0.5, 2.0]), flt(-5, 5))

# op -> function(A,B,C,D,d,z) -> dict of changed operands
ELEM = {
    "AddElements": lambda A, B, C, D, d, z: {"A": A + B},
    "AddElements_d": lambda A, B, C, D, d, z: {"A": A + B * d},
    "AddElements_c": lambda A, B, C, D, d, z: {"A": A + B * z},
    "AddElementsEq": lambda A, B, C, D, d, z: {"A": B + C},
    "ExpElements": lambda A, B, C, D, d, z: {"A": np.exp(B * z)},
    "ExpElements_D": lambda A, B, C, D, d, z: {"A": np.exp(D * z)},
    "MultElementsAdd_BD": lambda A, B, C, D, d, z: {"A": A + B * D},
    "MultElementsAdd_BDd": lambda A, B, C, D, d, z: {"A": A + B * D * d},
    "MultElementsAdd_c": lambda A, B, C, D, d, z: {"A": A + B * z},
    "MultElementsAdd_d": lambda A, B, C, D, d, z: {"A": A + B * d},
    "MultElements_B": lambda A, B, C, D, d, z: {"A": A * B},
    "MultElements_BD": lambda A, B, C, D, d, z: {"A": B * D},
    "MultElements_BDd": lambda A, B, C, D, d, z: {"A": B * D * d},
    "MultElements_Bd": lambda A, B, C, D, d, z: {"A": A * B * d},
    "MultElements_D": lambda A, B, C, D, d, z: {"A": A * D},
    "MultElements_Dc": lambda A, B, C, D, d, z: {"A": A * D * z},
    "MultElements_Dd": lambda A, B, C, D, d, z: {"A": A * D * d},
    "MultElements_c": lambda A, B, C, D, d, z: {"A": A * z},
    "MultElements_d": lambda A, B, C, D, d, z: {"A": A * d},
    "MultElementsComplex_BDd": lambda A, B, C, D, d, z: {"A": A * 1j * B * D * d},
    "MultElementsComplex_Bd": lambda A, B, C, D, d, z: {"A": A * 1j * B * d},
    "MultElementsComplex_Dd": lambda A, B, C, D, d, z: {"A": A * 1j * D * d},
    "MultElementsComplexEq": lambda A, B, C, D, d, z: {"A": B * 1j * D * d},
    "MultElementsConjugate3": lambda A, B, C, D, d, z: {"A": np.conj(B) * C * d},
    "MultElementsConjugate2": lambda A, B, C, D, d, z: {"A": np.conj(A) * B * d},
    "MultElementsCopy_BC": lambda A, B, C, D, d, z: {"A": B * C},
    "MultElementsCopy_BCd": lambda A, B, C, D, d, z: {"A": B * C * d},
    "MultElementsCopy_BD": lambda A, B, C, D, d, z: {"A": B * D},
    "MultElementsCopy_BDd": lambda A, B, C, D, d, z: {"A": B * D * d},
    "MultElementsCopy_c": lambda A, B, C, D, d, z: {"A": B * z},
    "MultElementsCopy_d": lambda A, B, C, D, d, z: {"A": B * d},
    "MultElementsReal_d": lambda A, B, C, D, d, z: {"D": D * d},
    "Abs": lambda A, B, C, D, d, z: {"D": np.abs(A)},
    "VecScalar": lambda A, B, C, D, d, z: {"A": A * z},
    "FastCopy": lambda A, B, C, D, d, z: {"A": B},
    "Assign": lambda A, B, C, D, d, z: {"A": B},
    "AssignScalar": lambda A, B, C, D, d, z: {"A": A * 0 + z},
    "CopyCtor": lambda A, B, C, D, d, z: {"A": B},
    "Swap": lambda A, B, C, D, d, z: {"A": B, "B": A},
}


@st.composite
def elem(draw):
    strides = draw(st.integers(1, 5))
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 7, 8, 16, 31, 64])) * strides
    return dict(op=draw(st.sampled_from(sorted(ELEM) + ["Re", "Re2", "Im", "Im2"])), strides=strides, n=n, seed=draw(seeds),
                style=draw(safe_styles), d=draw(sc), z=[draw(sc), draw(sc)])


def run_elem(case, ctx):
    n, s = case["n"], case["seed"]
    A, B, C = (rng_amps(n, s + i, case["style"]) for i in range(3))
    D = rng_amps(n, s + 3, "gauss").real.copy()
    d, z = case["d"], complex(*case["z"])
    with ctx.srv().case() as c:
        o = c("vec", case["op"], case["strides"], A, B, C, D, d, np.array(case["z"]))
    got = dict(A=cvec(o[0]), B=cvec(o[1]), C=cvec(o[2]), D=dvec(o[3]))
    exp = dict(A=A, B=B, C=C, D=D)
    op = case["op"]
    if op in ("Re", "Re2", "Im", "Im2"):
        src = A if op in ("Re", "Im") else B
        part = src.real if op[0] == "R" else src.imag
        g = got["A"]
        one = np.all(np.abs(g.real - part) < 1e-14 * (1 + np.abs(part))) and not np.any(g.imag)
        two = op[0] == "I" and np.all(np.abs(g.imag - part) < 1e-14 * (1 + np.abs(part))) and not np.any(g.real)
        ctx.check(one or two, f"{op} does not keep the part it names")
        del exp["A"]
    else:
        exp.update(ELEM[op](A, B, C, D, d, z))
    for k, e in exp.items():
        scale = (1 + np.abs(A)) * (1 + np.abs(B)) * (1 + np.abs(C)) * (1 + np.abs(D)) * (1 + abs(d)) * (1 + abs(z)) + np.abs(e)
        ctx.check(got[k].shape == e.shape and np.all(np.abs(got[k] - e) <= 2e-15 * 8 * scale), lambda: f"{op}: operand {k} wrong by {err(got[k], e)} (n={n}, strides={case['strides']})")


@st.composite
def scal(draw):
    st_ = draw(st.integers(1, 4))
    return dict(op=draw(st.sampled_from(["maxc", "maxd", "mind", "normd"])), strides=st_, n=st_ * draw(st.integers(1, 40)), seed=draw(seeds), style=draw(safe_styles),
                sign=draw(st.sampled_from([-1, 0, 1])))


def run_scal(case, ctx):
    v = rng_amps(case["n"], case["seed"], case["style"])
    r = v.real.copy()
    if case["sign"]:
        r = case["sign"] * np.abs(r)
    with ctx.srv().case() as c:
        g = dbl(c("vec.scal", case["op"], case["strides"], v if case["op"] == "maxc" else r)[0])
    e = {"maxc": np.abs(v).max(), "maxd": r.max(), "mind": r.min(), "normd": np.sqrt((r * r).sum())}[case["op"]]
    ctx.check(abs(g - e) <= 1e-13 * (1 + abs(e)), f"{case['op']} is {g}, expected {e}")


@st.composite
def stride(draw):
    s = draw(st.integers(1, 5))
    return dict(strides=s, per=draw(st.integers(1, 12)), src=draw(st.integers(0, s - 1)), dst=draw(st.integers(0, s - 1)), seed=draw(seeds))


def run_stride(case, ctx):
    s, p = case["strides"], case["per"]
    A, B = rng_amps(s * p, case["seed"]), rng_amps(s * p, case["seed"] + 1)
    D = np.zeros(s * p)
    with ctx.srv().case() as c:
        o = c("vec", "StrideCopy", s, A, B, A, D, 0.0, np.array([float(case["src"]), float(case["dst"])]))
        e = A.copy()
        e[case["dst"] * p:(case["dst"] + 1) * p] = B[case["src"] * p:(case["src"] + 1) * p]
        ctx.check(int(o[0]) == 1 and same_bits(cvec(o[1]), e), "copying one state of a strided vector touches something else")
        for f, e in (("+", A + B), ("-", A - B)):
            o = c("vec.binary", f, s, A, B, np.array([1.0, 0.0]))
            ctx.check(close(cvec(o[0]), e, tol=1e-14) and same_bits(cvec(o[1]), A) and same_bits(cvec(o[2]), B), f"vector {f} vector")


# ------------------------------------------------------------------ complex scalars
czs = st.one_of(st.sampled_from([[0., 0.], [1., 0.], [0., 1.], [-1., 0.], [0., -1.]]), st.lists(flt(-30, 30), min_size=2, max_size=2),
                st.lists(flt(-1e-3, 1e-3), min_size=2, max_size=2))


@st.composite
def cplxs(draw):
    return dict(a=draw(czs), b=draw(czs), d=draw(st.one_of(st.sampled_from([0., 1., -1., 2.]), flt(-50, 50))), n=draw(st.integers(-40, 400)))


def run_cplx(case, ctx):
    a, b, d, n = complex(*case["a"]), complex(*case["b"]), case["d"], case["n"]
    E = {"+": a + b, "-": a - b, "*": a * b, "+d": a + d, "-d": a - d, "*d": a * d, "d*": d * a, "+=": a + b, "-=": a - b, "*=": a * b, "*=d": a * d,
         "conj": a.conjugate(), "conjf": a.conjugate(), "conjugate": a.conjugate(), "cexpI": np.exp(1j * d), "cexp": np.exp(a), "I*": 1j * a, "*I": 1j * a,
         "I*d": 1j * d, "d*I": 1j * d}
    if abs(b) > 1e-6:
        E.update({"/": a / b, "/=": a / b})
    if abs(d) > 1e-6:
        E["/d"] = a / d
    if abs(a) > 1e-6:
        E["d/"] = d / a
    with ctx.srv().case() as c:
        for f, e in E.items():
            g = cplx(c("cplx", f, np.array(case["a"]), np.array(case["b"]), d)[0])
            s = (1 + abs(a)) * (1 + abs(b)) * (1 + abs(d)) if f not in ("/", "/=", "d/", "/d", "cexp", "cexpI") else abs(e) * (1 if f[0] != "c" else 1 + abs(a.imag) + abs(d))
            ctx.check(abs(g - e) <= 1e-14 * s + 1e-300, f"complex {f}: {a} {b} {d} gives {g}, expected {e}")
        g = dbl(c("cplx", "cabs", np.array(case["a"]), np.array(case["b"]), d)[0])
        ctx.check(abs(g - abs(a)) <= 1e-14 * abs(a) + 1e-150, f"cabs({a}) = {g}")
        if abs(a) > 1e-6:
            g = dbl(c("cplx", "phase", np.array(case["a"]), np.array(case["b"]), d)[0])
            dd = abs(np.exp(1j * g) - a / abs(a))
            ctx.check(dd <= 5e-8 and -math.pi - 1e-12 <= g <= math.pi + 1e-12, f"phase({a}) = {g}")
        g = cplx(c("cplx", "powI", np.array(case["a"]), np.array(case["b"]), float(n))[0])
        ctx.check(g == [1, 1j, -1, -1j][n % 4], f"i^{n} = {g}")


# ------------------------------------------------------------------ Matrix
@st.composite
def mats(draw):
    return dict(r=draw(st.integers(1, 9)), c=draw(st.integers(1, 9)), sq=draw(st.booleans()), seed=draw(seeds), col=draw(st.integers(0, 8)), z=[draw(sc), draw(sc)])


def run_mat(case, ctx):
    r, cc = case["r"], case["c"]
    if case["sq"]:
        cc = r
    M = rng_amps(r * cc, case["seed"]).reshape(r, cc)
    R = M.real.copy()
    x = rng_amps(cc, case["seed"] + 1)
    y = rng_amps(r, case["seed"] + 2)
    z = complex(*case["z"])
    with ctx.srv().case() as c:
        def eq(name, e, *a, dec=cvec):
            o = c("mat", name, r, cc, *a)
            g = dec(o[0])
            e = np.asarray(e).ravel()
            ctx.check(g.shape == e.shape and err(g, e) <= 1e-13 * (1 + np.abs(e).max()) * 4, lambda: f"matrix {name} ({r}x{cc}): {g[:6]} expected {e[:6]}")
            return o
        eq("vec", M @ x, M, x)
        eq("dvec", R @ x, R, x)
        eq("vect", M.T @ y, M, y)
        eq("veca", M.conj().T @ y, M, y)
        eq("dvect", R.T @ y, R, y)
        eq("dveca", R.T @ y, R, y)
        if r == cc:
            eq("transpose", M.T, M)
            eq("transposed", R.T, R, dec=dvec)
            eq("diag", np.diag(R), R, dec=dvec)
            dd = x.real.copy()
            S = R.copy(); np.fill_diagonal(S, dd)
            eq("setdiag", S, R, dd, dec=dvec)
        k = case["col"] % cc
        eq("column", R[:, k], R, k, dec=dvec)
        o = eq("copy", M, M)
        ctx.check(int(o[1]) == r and int(o[2]) == cc, "copied matrix has another shape")
        eq("scale", M * z, M, np.array(case["z"]))
        eq("fill", np.full((r, cc), z), M, np.array(case["z"]))
        o = c("mat", "resize", r, cc)
        ctx.check(int(o[0]) == r and int(o[1]) == cc and int(o[2]) == 16 * r * cc and np.all(cvec(o[3]) == 1 + 2j), "resized matrix")


# ------------------------------------------------------------------ eigen solvers
@st.composite
def eigs(draw):
    return dict(n=draw(st.sampled_from([1, 2, 3, 4, 5, 6, 8, 12, 17, 25, 33, 40, 64, 90])), seed=draw(seeds),
                kind=draw(st.sampled_from(["full", "full", "diag", "degenerate", "rank1", "graded", "block", "zero"])),
                scale=draw(st.sampled_from([1.0, 1e-6, 1e6])))


def herm(case, cplx_):
    n = case["n"]
    r = np.random.RandomState(case["seed"] & 0x7fffffff)
    A = r.standard_normal((n, n)) + (1j * r.standard_normal((n, n)) if cplx_ else 0)
    A = (A + A.conj().T) / 2
    k = case["kind"]
    if k == "diag":
        A = np.diag(np.diag(A))
    elif k == "degenerate":
        q, _ = np.linalg.qr(A)
        A = q @ np.diag(np.round(r.standard_normal(n))) @ q.conj().T
        A = (A + A.conj().T) / 2
    elif k == "rank1":
        v = A[0]
        A = np.outer(v, v.conj())
        A = (A + A.conj().T) / 2
    elif k == "graded":
        g = 10.0 ** (-np.arange(n) * 4.0 / n)
        A = A * np.outer(g, g)
    elif k == "block":
        h = n // 2
        A[:h, h:] = 0; A[h:, :h] = 0
    elif k == "zero":
        A = A * 0
    return A * case["scale"]


def chk_eig(ctx, A, w, V, what):
    n = len(A)
    e = np.linalg.eigvalsh(A)
    s = max(np.abs(e).max(), 1e-300)
    tol = 1e-13 * max(n, 4) * s
    ctx.check(np.all(np.isfinite(w)) and np.all(np.diff(w) >= 0), f"{what}: eigenvalues not in ascending order")
    ctx.check(np.abs(w - e).max() <= tol, f"{what}: eigenvalues differ from the reference by {np.abs(w - e).max()} (n={n})")
    ctx.check(np.abs(V.conj().T @ V - np.eye(n)).max() <= 1e-12 * max(n, 4), f"{what}: eigenvectors are not orthonormal (n={n})")
    ctx.check(np.abs(A @ V - V * w).max() <= 10 * tol, f"{what}: A v = w v violated by {np.abs(A @ V - V * w).max()} (n={n})")


def run_eig(case, ctx):
    n = case["n"]
    r = np.random.RandomState((case["seed"] + 7) & 0x7fffffff)
    flav = "asan" if n <= 40 else "opt"
    with ctx.srv(flav).case() as c:
        A = herm(case, False)
        o = c("eig.d", n, A)
        ctx.check(int(o[0]) == 0, "real symmetric diagonalisation reports an error")
        chk_eig(ctx, A, dvec(o[1]), dvec(o[2]).reshape(n, n), "real symmetric matrix")
        A = herm(case, True)
        o = c("eig.z", n, A)
        ctx.check(int(o[0]) == 0, "Hermitian diagonalisation reports an error")
        chk_eig(ctx, A, dvec(o[1]), cvec(o[2]).reshape(n, n), "Hermitian matrix")
        d, e = r.standard_normal(n) * case["scale"], r.standard_normal(max(n, 1)) * case["scale"]
        if case["kind"] in ("diag", "zero"):
            e *= 0
        T = np.diag(d) + np.diag(e[:n - 1], 1) + np.diag(e[:n - 1], -1)
        o = c("eig.tri", n, d, e)
        ctx.check(int(o[0]) == 0, "tridiagonal diagonalisation reports an error")
        chk_eig(ctx, T, dvec(o[1]), dvec(o[2]).reshape(n, n), "tridiagonal matrix")


@st.composite
def gens(draw):
    return dict(n=draw(st.sampled_from([2, 3, 4, 5, 6, 8, 12, 17, 25])), seed=draw(seeds), scale=draw(st.sampled_from([1.0, 1e-4, 1e4])), kind=draw(st.sampled_from(["full", "hess", "nearherm"])))


def match_eigs(a, b):
    """Largest distance in the best greedy matching."""
    b = list(b)
    m = 0.0
    for x in sorted(a, key=lambda z: (-abs(z))):
        i = min(range(len(b)), key=lambda j: abs(b[j] - x))
        m = max(m, abs(b.pop(i) - x))
    return m


def run_gen(case, ctx):
    n = case["n"]
    r = np.random.RandomState(case["seed"] & 0x7fffffff)
    A = (r.standard_normal((n, n)) + 1j * r.standard_normal((n, n))) * case["scale"]
    if case["kind"] == "nearherm":
        A = (A + A.conj().T) / 2 + 0.01 * A
    w0, V0 = np.linalg.eig(A)
    cond = np.linalg.cond(V0)
    nr = np.linalg.norm(A, 2)
    with ctx.srv("asan").case() as c:
        o = c("eig.gen", n, A)
        w = cvec(o[1])
        ctx.check(match_eigs(w, w0) <= 1e-12 * cond * nr * n, f"general matrix: eigenvalues off by {match_eigs(w, w0)}")
        V = cvec(o[3]).reshape(n, n)
        res = np.abs(A @ V - V * w).max() / (nr * max(np.abs(V).max(), 1e-300))
        ctx.check(res <= 1e-10 * cond, f"general matrix: A v = w v violated by {res}", known="diaggeneral-vectors")
        H = sl.hessenberg(A)
        H = np.triu(H, -1)
        w0, V0 = np.linalg.eig(H)
        cond = np.linalg.cond(V0)
        o = c("eig.hess", n, H)
        w = cvec(o[1])
        L, V = cvec(o[2]).reshape(n, n), cvec(o[3]).reshape(n, n)
        ctx.check(match_eigs(w, w0) <= 1e-12 * cond * nr * n, f"Hessenberg matrix: eigenvalues off by {match_eigs(w, w0)}")
        for nm, M, B in (("right", H @ V - V * w, V), ("left", H.conj().T @ L - L * w.conj(), L)):
            cn = np.sqrt((np.abs(B) ** 2).sum(axis=0))
            ctx.check(np.all(cn > 0), f"Hessenberg matrix: {nm} eigenvector vanishes")
            res = (np.sqrt((np.abs(M) ** 2).sum(axis=0)) / cn).max() / nr
            ctx.check(res <= 1e-11 * cond, f"Hessenberg matrix: {nm} eigenvector equation violated by {res} (n={n})")
        o = c("inv.gen", n, A)
        ctx.check(int(o[0]) == 0, "inversion reports an error")
        res = np.abs(cvec(o[1]).reshape(n, n) @ A - np.eye(n)).max()
        ctx.check(res <= 1e-13 * n * np.linalg.cond(A), f"inverse times matrix differs from one by {res}")


@st.composite
def d22s(draw):
    q = lambda v: 0.0 if abs(v) < 1e-9 else v
    return dict(m1=q(draw(sc)), m2=q(draw(sc)), m12=q(draw(st.one_of(sc, flt(-1e-3, 1e-3)))))


def run_d22(case, ctx):
    m1, m2, m12 = case["m1"], case["m2"], case["m12"]
    if 0 < abs(m12) < 1e-9:
        return
    A = np.array([[m1, m12], [m12, m2]])
    with ctx.srv().case() as c:
        o = c("diag22", m1, m2, m12)
    e = np.linalg.eigvalsh(A)
    s = np.abs(A).max() + 1e-300
    g = [dbl(o[0]), dbl(o[1])]
    ctx.check(max(abs(g[0] - e[0]), abs(g[1] - e[1])) <= 1e-13 * s, f"eigenvalues {g} of {A.tolist()}, expected {e}")
    v = dvec(o[2])
    w, V = v[:2], v[2:].reshape(2, 2)
    ctx.check(abs(sorted(w)[0] - e[0]) + abs(sorted(w)[1] - e[1]) <= 1e-13 * s, f"eigenvalues (with vectors) {w} of {A.tolist()}, expected {e}")
    ctx.check(np.abs(V @ V.T - np.eye(2)).max() <= 1e-7, f"eigenvectors {V.tolist()} are not orthonormal")
    # one convention for all inputs: rows or columns of evec hold the vectors
    r1 = max(np.abs(A @ V[i] - w[i] * V[i]).max() for i in (0, 1))
    r2 = max(np.abs(A @ V[:, i] - w[i] * V[:, i]).max() for i in (0, 1))
    ctx.check(min(r1, r2) <= 1e-7 * s, f"A v = w v violated by {min(r1, r2)} for {A.tolist()}")


# ------------------------------------------------------------------ special functions
@st.composite
def bes(draw):
    return dict(kind=draw(st.sampled_from("JI")), n=draw(st.one_of(st.integers(1, 60), st.integers(1, 800))), x=draw(st.one_of(flt(1e-6, 2), flt(0.1, 60), flt(1, 700))))


def run_bes(case, ctx):
    n, x, k = case["n"], case["x"], case["kind"]
    with ctx.srv().case() as c:
        o = c("bessel", k, n, x)
    g = dvec(o[2])
    o_ = np.arange(n)
    e = ss.jv(o_, x) if k == "J" else ss.ive(o_, x)
    ctx.check(int(o[0]) in (0, 3) and len(g) == n, f"Bessel {k} n={n} x={x}: status {o[0]}")
    ctx.check(np.abs(g - e).max() <= 2e-12, f"Bessel {k}_m({x}), m<{n}: off by {np.abs(g - e).max()} at m={np.abs(g - e).argmax()}")
    s = np.sum(g * np.where(o_ == 0, 1, 2) * (g if k == "J" else 1))
    if n > x + 12 * x ** (1 / 3.) + 60:      # complete series: sum rules
        ctx.check(abs(s - 1) <= 1e-11, f"Bessel {k} sum rule {s} at x={x}")


# ------------------------------------------------------------------ views and grids
@st.composite
def views(draw):
    nd_ = draw(st.integers(1, 4))
    dims = [draw(st.integers(2, 6)) for _ in range(nd_)]
    ops = [[draw(st.integers(0, nd_ - 1)), draw(st.sampled_from("=*+")), draw(seeds)] for _ in range(draw(st.integers(1, 6)))]
    return dict(dims=dims, seed=draw(seeds), ops=ops)


def run_view(case, ctx):
    dims = case["dims"]
    v = rng_amps(int(np.prod(dims)), case["seed"])
    ref = v.reshape(dims[::-1]).copy()
    args = []
    for d, o, s in case["ops"]:
        x = rng_amps(dims[d], s)
        args += [d, o, x]
        sh = [1] * len(dims)
        sh[len(dims) - 1 - d] = dims[d]
        X = x.reshape(sh)
        ref = np.broadcast_to(X, ref.shape).copy() if o == "=" else ref * X if o == "*" else ref + X
    with ctx.srv("asan").case() as c:
        g = cvec(c("view", [float(x) for x in dims], v, *args)[0])
    ctx.check(close(g, ref.ravel(), tol=1e-13, scale=np.abs(ref).max() * 10 + 10), f"view of a {dims} array: wrong by {err(g, ref.ravel())} after {[(d, o) for d, o, _ in case['ops']]}")


@st.composite
def gridcase(draw):
    return dict(dims=draw(grids(4, 400)), other=draw(st.integers(0, 4)), which=draw(st.integers(0, 3)))


def flatdims(dims):
    return np.array([x for d in dims for x in d], float)


def run_grid(case, ctx):
    dims = case["dims"]
    with ctx.srv("asan").case() as c:
        o = c("grid", flatdims(dims))
        ctx.check(int(o[0]) == len(dims) and int(o[1]) == int(np.prod([d[0] for d in dims])), "grid dimension or size")
        g = dvec(o[2]).reshape(-1, 4)
        for d, q in zip(dims, g):
            ctx.check(q[0] == d[0] and q[1] == d[1] and q[2] == d[2], f"grid axis {q} instead of {d}")
            dx = (d[2] - d[1]) / (d[0] - 1)
            ctx.check(abs(q[3] - dx) <= 1e-14 * (abs(d[1]) + abs(d[2])), f"grid spacing {q[3]} expected {dx}")
        ix = dvec(o[3]).reshape(len(dims), -1)
        n = [d[0] for d in dims]
        idx = np.arange(int(np.prod(n))).reshape(n[::-1])
        for d in range(len(dims)):
            lines = np.moveaxis(idx, len(dims) - 1 - d, -1).reshape(-1, n[d])
            got = ix[d].reshape(-1, n[d])
            ctx.check(sorted(map(tuple, got.astype(int).tolist())) == sorted(map(tuple, lines.tolist())),
                      f"grid {n}: the lines along dimension {d} do not address the elements of the line")
        # equality: sensitive to every component
        other = [list(d) for d in dims]
        w = case["which"] % len(dims)
        k = case["other"]
        if k == 0:
            other[w][0] += 1
        elif k == 1:
            other[w][1] -= 0.25
        elif k == 2:
            other[w][2] += 0.25
        elif k == 3 and len(dims) < 4:
            other = other + [[2, 0.0, 1.0]]
        same = k == 4 or other == [list(d) for d in dims]
        o = c("grid.eq", flatdims(dims), flatdims(other))
        ctx.check((int(o[0]) == 1) == same and (int(o[1]) == 1) != same, f"grids {dims} and {other} compare {'un' if same else ''}equal")


SUBS = [
    Sub("elementwise", elem(), run_elem, (1500, 40000), lambda c: c["n"] > 1, "vector primitive on more than one element"),
    Sub("reductions", scal(), run_scal, (400, 10000), lambda c: c["n"] > 1, "more than one element"),
    Sub("strides", stride(), run_stride, (300, 8000), lambda c: c["strides"] > 1, "more than one stride"),
    Sub("complex", cplxs(), run_cplx, (500, 12000), lambda c: True, "any scalar pair"),
    Sub("matrix", mats(), run_mat, (600, 20000), lambda c: c["r"] > 1 and c["c"] > 1, "matrix larger than one row/column"),
    Sub("eigen", eigs(), run_eig, (400, 6000), lambda c: c["n"] > 1 and c["kind"] != "zero", "non-zero matrix larger than 1x1"),
    Sub("general", gens(), run_gen, (300, 6000), lambda c: True, "every general matrix"),
    Sub("diag22", d22s(), run_d22, (400, 10000), lambda c: c["m12"] != 0, "off-diagonal element not zero"),
    Sub("bessel", bes(), run_bes, (600, 20000), lambda c: c["n"] > 1, "more than one order"),
    Sub("views", views(), run_view, (500, 12000), lambda c: len(c["dims"]) > 1, "more than one dimension"),
    Sub("gridindex", gridcase(), run_grid, (400, 10000), lambda c: len(c["dims"]) > 1, "more than one dimension"),
]
