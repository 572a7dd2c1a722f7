"""Decide one property:  python3-vt checks/run.py P07 [--tier quick|thorough] [--only SUBSTR] [--replay FILE]"""
import argparse
import importlib
import io
import json
import multiprocessing as mp
import os
import pickle
import signal
import sys
import time
import traceback
import contextlib

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path[:0] = [ROOT, REPO]
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")

EVID = os.path.join(ROOT, "evidence")


def load(prop):
    from pyvc import contracts
    meta = importlib.import_module("checks." + prop.lower())
    return contracts.REG.get(prop, []), meta


# ------------------------------------------------------------------ one contract
def concrete_phase(c, seed, n, budget, deadline_fail=None):
    """n random concrete runs.  -> (stats, failure or None)"""
    from pyvc import core
    st = dict(runs=0, rejected=0, checks=0, harness_errors=[])
    t0 = time.time()
    fails = None
    for k in range(n * 4):
        if st["runs"] >= n or time.time() - t0 > budget:
            break
        f = one_concrete(c, seed * 100003 + k, None, None, st)
        if f:
            fails = f
            break
    return st, fails


def one_concrete(c, seed, values, choices, st):
    from pyvc import core
    r, info = core.run_concrete(c.fn, seed, values, choices, c.tol)
    if r == "ok":
        st["runs"] += 1
        st["checks"] += info.checked
        if info.checked:
            key = repr((sorted(info.log.items(), key=lambda x: x[0]), info.rng.getstate()[1][:8], info.checked))
            d = st.setdefault("_seen", set())
            d.add(hash(key))
            st["distinct"] = len(d)
            if len(st.setdefault("samples", [])) < 1:
                st["samples"].append(dict(contract=c.name, seed=seed, inputs=_short(info.log), clauses_checked=info.checked))
        return None
    if r == "reject":
        st["rejected"] += 1
        return None
    if r == "fail":
        ctx, ex = info
        return dict(kind="postcondition", label=ex.label, message=ex.msg[:2000], seed=seed, inputs=_short(ctx.log),
                    values=[[list(k), v] for k, v in (values or {}).items()], choices=choices)
    ctx, ex, in_repo, text = info
    if in_repo and not isinstance(ex, (AttributeError, ImportError, NameError)):
        return dict(kind="exception", label="no exception", message="%s: %s" % (type(ex).__name__, ex), seed=seed,
                    traceback=text, inputs=_short(ctx.log),
                    values=[[list(k), v] for k, v in (values or {}).items()], choices=choices)
    st["runs"] += 1
    if len(st["harness_errors"]) < 3:
        st["harness_errors"].append(text[-1500:])
    return None


def _short(log):
    out = {}
    for k, v in log.items():
        s = repr(v)
        out[k] = v if len(s) < 1500 else s[:1500] + "..."
    return out


def work(c, tier, seed, conn):
    """Run in a child process."""
    from pyvc import core
    res = dict(name=c.name, sym=c.sym)
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    try:
        n = c.samples[0 if tier == "quick" else 1]
        limit = c.limit if tier == "quick" else c.limit * 3
        if c.conc:
            st, fail = concrete_phase(c, seed, n, limit)
        else:
            st, fail = dict(runs=0, rejected=0, checks=0, harness_errors=[]), None
        st.pop("_seen", None)
        res["conc"] = st
        res["fail"] = fail
        conn.send(("partial", dict(res)))
        if c.sym:
            ex = core.explore(c.fn, tier, limit, c.max_paths)
            obls = ex.pop("obls")
            models = ex.pop("models")
            res["sym_stats"] = ex
            res["proved"] = sum(1 for o in obls if o.status == "proved")
            res["total"] = len(obls)
            by = {}
            for o in obls:
                if o.status == "proved":
                    by[o.by] = by.get(o.by, 0) + 1
            res["by"] = by
            bad = [o for o in obls if o.status != "proved"]
            res["bad"] = [(o.label, o.status, o.by, o.detail[:600], o.path) for o in bad[:12]]
            res["nbad"] = len(bad)
            # replay counter-models, and one run per symbolic path, on the real code
            if not res["fail"] and c.conc:
                tries = [(o.model, json.loads(o.path)) for o in bad[:10]]
                tries += [(m, p) for m, p in models[: 10 if tier == "quick" else 40]]
                t0 = time.time()
                for m, p in tries:
                    if time.time() - t0 > limit:
                        break
                    for s in range(2):
                        f = one_concrete(c, seed * 7919 + s, m or None, p, st)
                        if f:
                            res["fail"] = f
                            break
                    if res["fail"]:
                        break
                if bad and not res["fail"]:
                    st2, fail = concrete_phase(c, seed + 17, 10 * n, limit)
                    for k in ("runs", "rejected", "checks"):
                        st[k] += st2[k]
                    res["fail"] = fail
        st.pop("_seen", None)
        conn.send(("done", res))
    except BaseException as ex:
        res["crash"] = "".join(traceback.format_exception(type(ex), ex, ex.__traceback__))[-2500:]
        try:
            conn.send(("done", res))
        except Exception:
            pass
    conn.close()
    os._exit(0)


def run_all(cs, tier, seed, budget):
    """Children, at most 8 at once, each with a hard time limit."""
    jobs = list(cs)
    running = {}
    out = {}
    ctxm = mp.get_context("fork")
    t_end = time.time() + budget
    jobs.sort(key=lambda c: -c.limit)
    while jobs or running:
        while jobs and len(running) < 8:
            c = jobs.pop(0)
            a, b = ctxm.Pipe(False)
            p = ctxm.Process(target=work, args=(c, tier, seed, b))
            p.start()
            b.close()
            hard = (c.limit if tier == "quick" else 3 * c.limit) * 3 + 60
            running[c.name] = [p, a, time.time() + hard, c, None]
        time.sleep(0.02)
        for name in list(running):
            p, a, dl, c, last = running[name]
            done = False
            try:
                while a.poll():
                    kind, r = a.recv()
                    running[name][4] = r
                    if kind == "done":
                        done = True
                        break
            except EOFError:
                done = True
            if done or time.time() > min(dl, t_end):
                r = running[name][4] or dict(name=name, sym=c.sym)
                if not done:
                    r["timeout"] = True
                    try:
                        os.kill(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                p.join(5)
                out[name] = r
                del running[name]
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default="")
    ap.add_argument("--replay", default="")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    cs, meta = load(a.prop)
    if a.replay:
        return replay(a, cs)
    if a.only:
        cs = [c for c in cs if a.only in c.name]
    if not cs:
        print("no contracts for %s" % a.prop)
        return 2
    res = run_all(cs, tier, seed, 780 if tier == "quick" else 6 * 3600)
    known = load_known(a.prop)
    viol, undec, findings = [], [], []
    for c in cs:
        r = res[c.name]
        f = r.get("fail")
        if f:
            hit = [k for k in known if k.get("contract") == c.name and k.get("label") == f["label"]]
            if hit:
                findings.append(hit[0])
            else:
                viol.append((c, r, f))
            continue
        ref = [b for b in r.get("bad", []) if b[1] == "refuted"]
        if ref:
            viol.append((c, r, None))
        elif r.get("nbad") or r.get("crash") or r.get("timeout") or (r.get("sym_stats") or {}).get("unsupported"):
            undec.append((c, r))
    wall = time.time() - t0
    write_evidence(a.prop, tier, seed, cs, res, meta, viol, undec, wall)
    for k in findings:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    if a.v:
        for c in cs:
            r = res[c.name]
            print("%-44s proved %s/%s by %s; concrete %s; %.1fs z3 %.1fs paths %s" % (
                c.name, r.get("proved"), r.get("total"), r.get("by"),
                {k: v for k, v in (r.get("conc") or {}).items() if k in ("runs", "rejected", "checks")},
                (r.get("sym_stats") or {}).get("wall", 0), (r.get("sym_stats") or {}).get("z3_time", 0),
                (r.get("sym_stats") or {}).get("paths")))
            for b in r.get("bad", [])[:4]:
                print("    NOT PROVED", b)
            for u in (r.get("sym_stats") or {}).get("unsupported", [])[:4]:
                print("    UNSUPPORTED", u)
            for h in (r.get("conc") or {}).get("harness_errors", [])[:1]:
                print("    HARNESS", h)
            if r.get("crash"):
                print("    CRASH", r["crash"])
            if r.get("timeout"):
                print("    TIMEOUT")
    for c, r in undec:
        print("UNDECIDED obligations in contract %s (bounded runs of the real code all satisfied it)" % c.name)
    if viol:
        for i, (c, r, f) in enumerate(viol):
            os.makedirs(EVID, exist_ok=True)
            path = os.path.join(EVID, "replay_%s_%d.json" % (a.prop, i))
            json.dump(dict(property=a.prop, contract=c.name, targets=c.targets, clause=c.clause,
                           obligation=(f or {}).get("label") or [b[0] for b in r.get("bad", [])], failure=f, undischarged=r.get("bad"),
                           how="python3-vt checks/run.py %s --replay %s" % (a.prop, path)),
                      open(path, "w"), indent=1, default=str)
            if f:
                print("contract %s: %s: %s" % (c.name, f.get("label"), str(f.get("message"))[:400]))
            else:
                print("contract %s: obligation %s refuted by the prover: %s" % (
                    c.name, r["bad"][0][0], r["bad"][0][3][:300]))
            print("VIOLATION property=%s replay=%s%s" % (a.prop, path, "" if f else " no-failing-input-found"))
        return 1
    nob = sum(r.get("proved", 0) for r in res.values()) + sum((r.get("conc") or {}).get("checks", 0) for r in res.values())
    if nob == 0:
        print("nothing was checked")
        return 2
    print("%s: %d contracts, %d obligations proved, %d concrete checks, %.1f s" % (
        a.prop, len(cs), sum(r.get("proved", 0) for r in res.values()),
        sum((r.get("conc") or {}).get("checks", 0) for r in res.values()), wall))
    return 0


def load_known(prop):
    p = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "open":
                    out.append(d)
    return out


def replay(a, cs):
    d = json.load(open(a.replay))
    c = [c for c in cs if c.name == d["contract"]][0]
    f = d["failure"]
    if not f:
        print(json.dumps(d.get("undischarged"), indent=1, default=str))
        return 1
    vals = {(k[0], tuple(k[1])): v for k, v in f.get("values") or []}
    st = dict(runs=0, rejected=0, checks=0, harness_errors=[])
    r = one_concrete(c, f["seed"], vals or None, f.get("choices"), st)
    print(json.dumps(r, indent=1, default=str))
    if r:
        print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
        return 1
    return 0


def write_evidence(prop, tier, seed, cs, res, meta, viol, undec, wall):
    os.makedirs(EVID, exist_ok=True)
    tot = sum(r.get("total", 0) for r in res.values())
    prv = sum(r.get("proved", 0) for r in res.values())
    by = {}
    z3t = 0.0
    z3q = {}
    for r in res.values():
        for k, v in (r.get("by") or {}).items():
            by[k] = by.get(k, 0) + v
        ss = r.get("sym_stats") or {}
        z3t += ss.get("z3_time", 0)
        for k, v in (ss.get("z3_results") or {}).items():
            z3q[k] = z3q.get(k, 0) + v
    funcs = sorted({t for c in cs for t in c.targets})
    contracts = []
    bounded = []
    for c in cs:
        r = res[c.name]
        ss = r.get("sym_stats") or {}
        full = bool(c.sym and r.get("total") and r.get("proved") == r.get("total") and not ss.get("unsupported")
                    and not r.get("crash") and not r.get("timeout"))
        d = dict(name=c.name, functions=c.targets, clause=c.clause[:500],
                 status="proved" if full else ("bounded" if not c.sym else "undecided, bounded runs passed"),
                 obligations=r.get("total", 0), discharged=r.get("proved", 0), paths=ss.get("paths"),
                 concrete_runs=(r.get("conc") or {}).get("runs"), concrete_checks=(r.get("conc") or {}).get("checks"))
        if r.get("fail"):
            d["status"] = "violated"
        if not c.sym:
            d["bounded_because"] = c.why
        if ss.get("unsupported"):
            d["outside_the_engine"] = ss["unsupported"][:5]
        if r.get("bad"):
            d["not_discharged"] = r["bad"][:5]
        if (r.get("conc") or {}).get("harness_errors"):
            d["harness_errors"] = [h[-400:] for h in r["conc"]["harness_errors"]]
        if d["status"] != "proved":
            bounded.append(c.name)
        contracts.append(d)
    level = getattr(meta, "LEVEL", "proof")
    cov = dict(obligations=max(tot, 0), discharged=prv,
               checker_cmd="python3-vt checks/run.py %s --tier %s" % (prop, tier),
               trusted_base=getattr(meta, "TRUSTED", []) + [
                   "pyvc (this engine): symbolic execution of the unmodified functions in CPython, its term normal form "
                   "and its numpy shim", "z3 %s" % _z3v()],
               functions_under_contract=funcs, discharged_by=by, z3_seconds=round(z3t, 2), z3_answers=z3q,
               contracts=contracts, bounded_contracts=bounded,
               concrete_runs=sum((r.get("conc") or {}).get("runs", 0) for r in res.values()),
               concrete_checks=sum((r.get("conc") or {}).get("checks", 0) for r in res.values()))
    if level in ("exploration", "fault_enumeration"):
        cov.update(evaluations=cov["concrete_runs"],
                   distinct_nontrivial=sum((r.get("conc") or {}).get("distinct", 0) for r in res.values()),
                   rule="contracts run on the real code with generated inputs, schedules and faults; a run counts when it is "
                        "different from the others of its contract and evaluated at least one clause",
                   samples=[x for r in res.values() for x in (r.get("conc") or {}).get("samples", [])][:12])
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=["machine floating point treated as exact real arithmetic in the symbolic runs",
                           "symbolic runs assume denominators are non-zero and arguments of square roots and "
                           "logarithms are in range", "linspace/trigonometric table entries that are not multiples of "
                           "pi/12 are compared with tolerance 1e-10"] + getattr(meta, "ASSUMPTIONS", []),
              wall_s=round(wall, 2), violations=len(viol))
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1, default=str)


def _z3v():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
