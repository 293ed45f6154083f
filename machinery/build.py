#!/usr/bin/env python3
"""Builds /repo's current working tree (never its _build output) into /verif/build/<flavour>.

  build.py FLAVOUR [target...]     flavours: opt, asan, fuzz   targets: qdng qdz qdinfo qds2qdi qdrv ...

Everything is compiled from /repo/src with ninja; nothing is written to /repo.
The source lists come from the repository's own Makefile.am files.
"""
import os, re, subprocess, sys, fcntl

REPO = os.environ.get("QD_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = REPO + "/src"
HARN = VERIF + "/harness"

CONFIG_H = """
#define F77_FUNC(name,NAME) name ## _
#define F77_FUNC_(name,NAME) name ## _
""" + "".join("#define HAVE_%s 1\n" % n for n in """BLAS DLFCN_H FCNTL_H FTRUNCATE INTTYPES_H LAPACK LIBBZ2
LIBZ LIMITS_H MALLOC MALLOC_H MEMSET MKDIR MMAP MUNMAP POW SQRT STDBOOL_H STDINT_H STDIO_H STDLIB_H STRDUP
STRINGS_H STRING_H STRSTR SYS_STAT_H SYS_SYSINFO_H SYS_TYPES_H UNAME UNISTD_H""".split()) + """

#define PACKAGE_NAME "QDng"
#define PACKAGE_VERSION "1.0.0"
#define VERSION "1.0.0"
#define PACKAGE "qdng"
#define PACKAGE_STRING "QDng 1.0.0"
#define PACKAGE_TARNAME "qdng"
#define PACKAGE_BUGREPORT ""
#define PACKAGE_URL ""
#define LT_OBJDIR ".libs/"
#define STDC_HEADERS 1
#define YYTEXT_POINTER 1
"""

INC = "-I/usr/include/libxml2"
FLAV = {
    # same code generation options as the shipped build, less optimisation and no debug info (build time)
    "opt": dict(cxx="g++", fc="gfortran", cf="-O1 -g0 -fopenmp", lf="-fopenmp"),
    "asan": dict(cxx="g++", fc="gfortran",
                 cf="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,bounds,null,vptr -fno-sanitize-recover=all",
                 lf="-fsanitize=address,bounds,null,vptr"),
    "fuzz": dict(cxx="clang++", fc="gfortran",
                 cf="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,fuzzer-no-link",
                 lf="-fsanitize=address"),
}
LIBS = "-lxml2 -lfftw3_omp -lfftw3 -llapack -lblas -lbz2 -lz -lprotobuf -lgfortran -lquadmath -ldl -lm -lpthread"


def sources(sub, var):
    """Value of an automake *_SOURCES variable."""
    t = open(f"{SRC}/{sub}/Makefile.am").read().replace("\\\n", " ")
    m = re.search(r"^%s\s*=(.*)$" % re.escape(var), t, re.M)
    return [s for s in m[1].split() if not s.startswith("$(") and not s.endswith(".h")]


def generate(flav):
    f = FLAV[flav]
    B = f"{VERIF}/build/{flav}"
    os.makedirs(B + "/gen", exist_ok=True)
    cfg = B + "/gen/config.h"
    if not os.path.exists(cfg) or open(cfg).read() != CONFIG_H:
        open(cfg, "w").write(CONFIG_H)
    o = []
    w = o.append
    w(f"builddir = {B}")
    w(f"cf = {f['cf']} -w -DHAVE_CONFIG_H -DQD_SYS_MOD_PATH='\"/nonexistent/\"' "
      "-DQDNG_BUILD_DATE='\"x\"' -DQDNG_BUILD_HOST='\"x\"' -DQDNG_BUILD_MACH='\"x\"' -DQDNG_REV='\"x\"' "
      f"-I{B}/gen -I{SRC} {INC}")
    w(f"lf = {f['lf']}")
    w(f"rule cxx\n command = {f['cxx']} $cf $xf -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc")
    w(f"rule fc\n command = {f['fc']} -O1 -w -c $in -o $out")
    w("rule ar\n command = rm -f $out && ar rcs $out $in")
    w(f"rule link\n command = {f['cxx']} $lf $xl -Wl,-export-dynamic -o $out $in {LIBS}")
    w("rule proto\n command = protoc --proto_path=$pp --cpp_out=$po $in")
    w("rule bison\n command = bison -d -o $gy $in 2>/dev/null")
    w("rule flex\n command = flex -o $out $in")
    gens, objs = [], []
    G = B + "/gen"
    for sub, n in (("tools", "FileSingleHeader"), ("qdlib", "GridSystem"), (".", "IACmds")):
        d = G if sub == "." else f"{G}/{sub}"
        os.makedirs(d, exist_ok=True)
        sd = SRC if sub == "." else f"{SRC}/{sub}"
        w(f"build {d}/{n}.pb.cc {d}/{n}.pb.h: proto {sd}/{n}.proto\n pp = {sd}\n po = {d}")
        gens += [f"{d}/{n}.pb.h"]
    os.makedirs(G + "/simpleXml", exist_ok=True)
    gy = f"{G}/simpleXml/grammar.cc"
    w(f"build {gy} {gy[:-3]}.hh: bison {SRC}/simpleXml/grammar.yy\n gy = {gy}")
    w(f"build {G}/simpleXml/simpleXml.cc: flex {SRC}/simpleXml/simpleXml.ll")
    gens += [gy[:-3] + ".hh"]

    def cxx(src, obj, extra=""):
        w(f"build {obj}: cxx {src} || {' '.join(gens)}" + (f"\n xf = {extra}" if extra else ""))
        return obj

    lib = []
    for sub, var in (("tools", "libtools_la_SOURCES"), ("linalg", "liblinalg_la_SOURCES"),
                     ("math", "libmath_la_SOURCES"), ("qdlib", "libqd_la_SOURCES"), ("fft", "libfft_la_SOURCES"),
                     ("modules", "libModuleLoader_la_SOURCES"), ("lib", "libqdng_la_SOURCES")):
        for s in sources(sub, var):
            lib.append(cxx(f"{SRC}/{sub}/{s}", f"{B}/{sub}/{s}.o"))
    for s in sources("slatec", "libslatecmin_la_SOURCES"):
        w(f"build {B}/slatec/{s}.o: fc {SRC}/slatec/{s}")
        lib.append(f"{B}/slatec/{s}.o")
    for sub, n in (("tools", "FileSingleHeader"), ("qdlib", "GridSystem"), (".", "IACmds")):
        d = G if sub == "." else f"{G}/{sub}"
        lib.append(cxx(f"{d}/{n}.pb.cc", f"{B}/{n}.pb.o"))
    for s in ("grammar", "simpleXml"):
        lib.append(cxx(f"{G}/simpleXml/{s}.cc", f"{B}/simpleXml/{s}.o", f"-I{SRC}/simpleXml -I{G}/simpleXml"))
    lib.append(cxx(f"{SRC}/simpleXml/Simple2Xml.cpp", f"{B}/simpleXml/Simple2Xml.o"))
    for s in sources(".", "qdng_SOURCES"):
        ob = cxx(f"{SRC}/{s}", f"{B}/{s}.o")
        if s != "qdng.cpp":
            lib.append(ob)
    w(f"build {B}/libqd.a: ar {' '.join(lib)}")
    L = f"{B}/libqd.a"
    w(f"build {B}/qdng: link {B}/qdng.cpp.o {L}\nbuild qdng: phony {B}/qdng")
    for p, s in (("qdz", "qdz.cpp"), ("qdinfo", "qdng_info.cpp"), ("qds2qdi", "simpleXml/qds2qdi.cpp")):
        ob = cxx(f"{SRC}/{s}", f"{B}/{p}.o")
        w(f"build {B}/{p}: link {ob} {L}\nbuild {p}: phony {B}/{p}")
    drv = []
    for h in sorted(os.listdir(HARN)) if os.path.isdir(HARN) else []:
        if not h.endswith(".cc"):
            continue
        if h.startswith("drv_") or h == "qdrv.cc":
            if flav != "fuzz":
                drv.append(cxx(f"{HARN}/{h}", f"{B}/h_{h[:-3]}.o", f"-I{HARN}"))
            continue
        n = h[:-3]
        isfuzz = n.startswith("fuzz_")
        if isfuzz and flav != "fuzz":
            continue
        if flav == "fuzz" and not isfuzz:
            continue
        ob = cxx(f"{HARN}/{h}", f"{B}/h_{n}.o", f"-I{HARN}")
        xl = "\n xl = -fsanitize=fuzzer" if isfuzz else ""
        w(f"build {B}/{n}: link {ob} {L}{xl}")
        w(f"build {n}: phony {B}/{n}")
    if drv:
        w(f"build {B}/qdrv: link {' '.join(drv)} {L}\nbuild qdrv: phony {B}/qdrv")
    txt = "\n".join(o) + "\n"
    p = B + "/build.ninja"
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, "w").write(txt)
    return B


def build(flav, targets):
    os.makedirs(f"{VERIF}/build", exist_ok=True)
    with open(f"{VERIF}/build/.lock.{flav}", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        B = generate(flav)
        r = subprocess.run(["ninja", "-C", B, "-k", "0", *targets], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        msg = "\n".join(l for l in r.stdout.splitlines() if not re.match(r"\[\d+/\d+\]|g\+\+ |rm -f ", l))
        sys.stderr.write(msg[-4000:] + "\n")
        raise SystemExit("BUILD FAILED (%s)" % flav)
    return B


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2:] or ["qdng"]))
