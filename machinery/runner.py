"""Generated-input search with Hypothesis: shards, shrinking, replay files, known findings, evidence."""
import hashlib, json, multiprocessing, os, sys, time, traceback
import hypothesis
from hypothesis import given, settings, seed as hseed, HealthCheck, Phase

import qd
VERIF = qd.VERIF
KNOWN = f"{VERIF}/known_findings.json"


class Sub:
    """One executable statement of (part of) a property.

    strategy: Hypothesis strategy of a JSON-serialisable case;  fn(case, ctx) raises qd.Failure when the
    property is broken; n = cases (quick, thorough) over all shards; nontrivial(case) -> bool; rule: its text.
    fixed: list of cases that are always run first (regressions of repaired defects and known findings)."""
    def __init__(self, name, strategy, fn, n, nontrivial=None, rule="", shards=None, fixed=(), classify=None):
        self.name, self.strategy, self.fn, self.n = name, strategy, fn, n
        self.nontrivial = nontrivial or (lambda c: True)
        self.rule, self.fixed, self.classify = rule, list(fixed), classify
        self.shards = shards


class Ctx:
    def __init__(self, prop, tier, known):
        self.prop, self.tier, self.known_list, self.seen_known = prop, tier, known, {}
        self.servers = {}
        self.labels = {}

    def srv(self, flav="opt", **kw):
        k = (flav, json.dumps(kw, sort_keys=True))
        if k not in self.servers:
            self.servers[k] = qd.Server(flav, **kw)
        return self.servers[k]

    def label(self, l):
        self.labels[l] = self.labels.get(l, 0) + 1

    def fail(self, msg, known=None):
        """known: id of a listed finding this exact situation belongs to."""
        if known and known in self.known_list:
            self.seen_known[known] = self.seen_known.get(known, 0) + 1
            return
        raise qd.Failure(msg)

    def check(self, cond, msg, known=None):
        if not cond:
            self.fail(msg if isinstance(msg, str) else msg(), known)


def canon(case):
    return json.dumps(case, sort_keys=True, default=float)


def load_known(prop):
    try:
        d = json.load(open(KNOWN))
    except FileNotFoundError:
        return {}
    return {f["id"]: f for f in d["findings"] if f["property"] == prop}


def run_case(sub, case, ctx):
    """None, or the failure message."""
    try:
        sub.fn(case, ctx)
    except qd.Failure as e:
        return str(e)
    except qd.Crash as e:
        return "crash: " + str(e)
    except (qd.QdError, qd.OtherError) as e:
        return "unexpected error reported: " + repr(e)
    return None


SHRINK_S = 45


def job(a):
    modname, prop, si, shard, nsh, tier, seed, budget = a
    import importlib
    mod = importlib.import_module(modname)
    sub = mod.SUBS[si]
    ctx = Ctx(prop, tier, load_known(prop))
    t0 = time.time()
    st = dict(sub=sub.name, evals=0, hashes=set(), samples=[], fail=None, error=None, skipped=0, gen=0)
    try:
        if shard == 0:
            for fx in sub.fixed:
                st["evals"] += 1
                if sub.nontrivial(fx):
                    st["hashes"].add(hashlib.sha1(canon(fx).encode()).hexdigest())
                m = run_case(sub, fx, ctx)
                if m:
                    st["fail"] = (canon(fx), m)
                    raise StopIteration
        n = max(1, -(-sub.n[0 if tier == "quick" else 1] // nsh))
        best = [None, None, None]     # case, msg, time of first failure

        def body(case):
            now = time.time()
            if best[0] is not None and now - best[2] > SHRINK_S:
                return
            if best[0] is None and now - t0 > budget:
                st["skipped"] += 1
                return
            st["evals"] += 1
            js = canon(case)
            if sub.nontrivial(case):
                h = hashlib.sha1(js.encode()).hexdigest()
                if h not in st["hashes"]:
                    st["hashes"].add(h)
                    if len(st["samples"]) < 3 and len(js) < 4000:
                        st["samples"].append(case)
            if sub.classify:
                for l in sub.classify(case):
                    ctx.label(l)
            m = run_case(sub, json.loads(js), ctx)
            if m:
                if best[0] is None:
                    best[2] = time.time()
                best[0], best[1] = js, m
                raise qd.Failure(m)

        test = given(sub.strategy)(body)
        test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                        phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False,
                        suppress_health_check=list(HealthCheck), print_blob=False)(test)
        hx = int(hashlib.sha1(f"{seed}/{prop}/{sub.name}/{shard}".encode()).hexdigest()[:12], 16)
        test = hseed(hx)(test)
        try:
            test()
        except Exception as e:
            if best[0] is None:
                raise
        if best[0] is not None:
            st["fail"] = (best[0], best[1])
    except StopIteration:
        pass
    except BaseException:
        st["error"] = traceback.format_exc()
    st["known"] = ctx.seen_known
    st["labels"] = ctx.labels
    st["secs"] = time.time() - t0
    for s in ctx.servers.values():
        s.stop()
    return st


def replay(modname, prop, path):
    import importlib
    mod = importlib.import_module(modname)
    d = json.load(open(path))
    sub = [s for s in mod.SUBS if s.name == d["check"]][0]
    ctx = Ctx(prop, "quick", {})
    m = run_case(sub, d["case"], ctx)
    for s in ctx.servers.values():
        s.stop()
    return m


def main(modname, prop, tier, seed, only=None, scale=1.0):
    import importlib
    t0 = time.time()
    mod = importlib.import_module(modname)
    for flav, targets in mod.BUILD:
        qd.build(flav, *targets)
    tb = time.time() - t0
    known = load_known(prop)
    budget = (getattr(mod, "BUDGET", 90) if tier == "quick" else getattr(mod, "BUDGET_T", 3000))
    jobs = []
    for i, s in enumerate(mod.SUBS):
        if only and s.name not in only:
            continue
        s.n = (max(1, int(s.n[0] * scale)), max(1, int(s.n[1] * scale)))
        nsh = s.shards or (min(4, max(1, s.n[0] // 50)) if tier == "quick" else min(8, max(1, s.n[1] // 100)))
        if tier != "quick":
            nsh = max(nsh, min(8, max(1, s.n[1] // 100)))
        jobs += [(modname, prop, i, k, nsh, tier, seed, budget) for k in range(nsh)]
    with multiprocessing.get_context("fork").Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
        res = pool.map(job, jobs, chunksize=1)
    evals = sum(r["evals"] for r in res)
    hashes, samples, labels, kn, per = set(), [], {}, {}, {}
    for r in res:
        hashes |= {r["sub"] + h for h in r["hashes"]}
        p = per.setdefault(r["sub"], dict(evaluations=0, distinct_nontrivial=set(), not_run_for_time=0, secs=0))
        p["evaluations"] += r["evals"]
        p["distinct_nontrivial"] |= r["hashes"]
        p["not_run_for_time"] += r["skipped"]
        p["secs"] = round(p["secs"] + r["secs"], 1)
        if sum(1 for s in samples if s["check"] == r["sub"]) < 2:
            samples += [{"check": r["sub"], "case": c} for c in r["samples"][:1]]
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["known"].items():
            kn[k] = kn.get(k, 0) + v
    for p in per.values():
        p["distinct_nontrivial"] = len(p["distinct_nontrivial"])
    rule = " | ".join(f"{s.name}: {s.rule}" for s in mod.SUBS if s.rule)
    viol = []
    os.makedirs(f"{VERIF}/replays", exist_ok=True)
    seen = set()
    ctx = Ctx(prop, tier, known)
    for r in res:
        if r["fail"] and r["sub"] not in seen:
            js, m = r["fail"]
            sub = [s for s in mod.SUBS if s.name == r["sub"]][0]
            again = [run_case(sub, json.loads(js), ctx) for _ in range(3)]
            path = f"{VERIF}/replays/{prop}-{r['sub']}.json"
            json.dump({"property": prop, "check": r["sub"], "message": m, "case": json.loads(js)}, open(path, "w"), indent=1)
            if not any(again):
                print(f"NOTE: a failure of {r['sub']} did not repeat in three further runs, not counted: {m[:300]} ({path})")
                continue
            seen.add(r["sub"])
            viol.append((path, m))
    for s in ctx.servers.values():
        s.stop()
    errs = [r for r in res if r["error"]]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(hashes), "rule": rule[:20000] or "see DESIGN.md",
                       "samples": samples[:12], "per_check": per, "classes": labels,
                       "known_findings_seen": kn},
          "wall_s": round(time.time() - t0, 2), "build_s": round(tb, 2), "violations": [p for p, _ in viol]}
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    txt = json.dumps(ev, indent=1, default=float)
    if len(txt) > 400000:
        ev["coverage"]["samples"] = ev["coverage"]["samples"][:3]
        txt = json.dumps(ev, indent=1, default=float)
    if not only:
        open(f"{VERIF}/evidence/{prop}.json", "w").write(txt)
    for k in sorted(kn):
        print(f"KNOWN-FINDING: property={prop} {known[k]['what']}")
    for p, v in sorted(per.items()):
        print(f"{prop} {p}: {v['evaluations']} cases, {v['distinct_nontrivial']} distinct non-trivial, {v['secs']} s"
              + (f", {v['not_run_for_time']} not run (time)" if v["not_run_for_time"] else ""))
    for path, m in viol:
        print(f"  {m[:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
    for r in errs:
        print(f"HARNESS ERROR in {r['sub']}:\n{r['error'][-3000:]}", file=sys.stderr)
    print(f"{prop}: {evals} cases, {len(hashes)} distinct non-trivial, {time.time() - t0:.1f} s (build {tb:.1f} s)")
    if viol:
        return 1
    if errs:
        return 2
    return 0
