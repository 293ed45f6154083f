"""Shared strategies and reference code."""
import math, os, sys
import numpy as np
from hypothesis import strategies as st
import qd
from qd import *

seeds = st.integers(0, 2**31 - 1)
styles = st.sampled_from(["gauss", "gauss", "gauss", "sparse", "real", "imag", "neg", "wide", "const", "one"])
safe_styles = st.sampled_from(["gauss", "gauss", "gauss", "sparse", "real", "imag", "neg", "const", "one"])
fin = dict(allow_nan=False, allow_infinity=False)


def flt(a, b):
    return st.floats(a, b, **fin)


@st.composite
def bounds(draw):
    """(xmin, xmax): symmetric, shifted, negative, tiny and long intervals, non-representable decimals."""
    m = draw(st.integers(0, 4))
    if m == 0:
        L = draw(st.sampled_from([1.0, 2.5, 10.0, 0.3, 7.7]))
        return (-L, L)
    if m == 1:
        a = draw(st.sampled_from([0.0, 0.1, -3.3, 5.0]))
        return (a, a + draw(st.sampled_from([1.0, 0.7, 12.3])))
    a = draw(flt(-20, 20))
    return (a, a + draw(flt(0.5, 30)))


@st.composite
def grids(draw, maxdim=3, maxpts=300, nmin=2, nmax=40):
    d = draw(st.integers(1, maxdim))
    dims, tot = [], 1
    for i in range(d):
        left = d - i - 1
        hi = max(nmin, min(nmax, maxpts // (tot * nmin ** left)))
        n = draw(st.integers(nmin, hi))
        tot *= n
        a, b = draw(bounds())
        dims.append([n, a, b])
    return dims


@st.composite
def single(draw, maxdim=3, maxpts=300, nmin=2, level=True):
    if level and draw(st.integers(0, 3)) == 0:
        return {"k": "level", "n": draw(st.integers(1, 30))}
    return {"k": "grid", "dims": draw(grids(maxdim, maxpts, nmin))}


@st.composite
def wfspecs(draw, maxdim=3, maxpts=300, nmin=2, multi=True, level=True, maxstates=5):
    s = draw(single(maxdim, maxpts, nmin, level))
    if multi and draw(st.integers(0, 2)) == 0:
        return {"k": "multi", "states": [s] * draw(st.integers(1, maxstates))}
    return s


def kind(spec):
    if spec["k"] == "multi":
        return "multi%d(%s)" % (len(spec["states"]), kind(spec["states"][0]))
    if spec["k"] == "grid":
        return "grid%dd" % len(spec["dims"])
    return "level"


def amps(spec, seed, style="gauss"):
    return rng_amps(wf_size(spec), seed, style)


def err(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return float("inf")
    if a.size == 0:
        return 0.0
    d = np.abs(a - b)
    if not np.all(np.isfinite(d)):
        return float("inf")
    return float(d.max())


def same_bits(a, b):
    return np.asarray(a).tobytes() == np.asarray(b).tobytes()


def close(a, b, scale=None, tol=1e-12):
    """|a-b| <= tol * scale, with scale the size of the quantities the result is built from."""
    if scale is None:
        scale = max(float(np.max(np.abs(b))) if np.size(b) else 0.0, 1e-300)
    return err(a, b) <= tol * scale


def relclose(a, b, tol=1e-13):
    """Element-wise relative agreement."""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * np.maximum(np.abs(b), 1e-280)))


def xs(dim):
    n, a, b = dim
    return a + np.arange(n) * ((b - a) / (n - 1))


def mesh(dims):
    """Coordinates in storage order (dimension 0 runs fastest): list of flat arrays."""
    ax = [xs(d) for d in dims]
    g = np.meshgrid(*ax[::-1], indexing="ij")
    return [x.ravel() for x in g[::-1]]


def nd(v, dims):
    """Flat storage -> array indexed [dim_last,...,dim0]."""
    return v.reshape([d[0] for d in dims][::-1])


def ax_of(dims, i):
    return len(dims) - 1 - i


def kvec(dim):
    """Wave numbers of the DFT bins for a periodic grid; the even-N Nyquist bin counts negative."""
    n, a, b = dim
    dx = (b - a) / (n - 1)
    return 2 * np.pi * np.fft.fftfreq(n, dx)


# how FFTs are planned: "estimate" (fast, leaves data alone), "measure" (as with an existing wisdom file; overwrites its buffers while planning), "patient" (the default of the programs)
PLANS = ("estimate", "measure", "patient")


def gp_plan(plan="estimate"):
    g = ["gp", "wisdomsave", "/dev/null"]
    if plan == "estimate":
        return g + ["fftwOptimize", "false", "wisdom", "/nonexistent/wisdom"]
    return g + (["wisdom", "/dev/null"] if plan == "measure" else ["fftwOptimize", "true", "wisdom", "/nonexistent/wisdom"])


GP = tuple(gp_plan())


def rtail(r, n=500):
    """The telling part of what a program printed."""
    for k in ("AddressSanitizer", "runtime error", "Error termination"):
        i = r.out.find(k)
        if i >= 0:
            return r.out[max(i - 300 * (k[0] == "E"), 0):][:900 if k[0] == "A" else 500]
    return r.out[-n:]
