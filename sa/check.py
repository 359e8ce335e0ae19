"""Decide one property: run every scenario that has obligations for it.

    python3 -m sa.check C01 [--tier quick|thorough] [--repo /repo] [-v]
"""
import argparse
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = ["s_prob", "s_seq", "s_mps", "s_adaptive", "s_ti", "s_contract", "s_embed", "s_utils", "s_data", "s_state", "s_reject", "s_hist", "s_scale", "s_deep", "s_opts", "s_user", "s_parts", "s_sizes", "s_again"]
ANALYSIS = "abstract interpretation of the source over symbolic tensors (value numbering of tensor terms)"

ROWS = {"device": "C14", "dtype": "C14", "cast": "C14", "mutate": "C16", "mutate_param": "C16", "rng": "C17", "setting": "C17"}


def load():
    from . import scen
    for m in MODULES:
        if os.path.exists(os.path.join(VERIF, "sa", m + ".py")):
            importlib.import_module("sa." + m)
    return scen.SCENARIOS


DEADLINE = 780      # seconds for a whole check


def blank(s):
    return {"name": s.name, "props": s.props, "paths": 0, "ok": [], "bad": [], "und": [], "funcs": [], "calls": 0, "skipped": 0, "time": 0}


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def run_one(job):
    """Analyse one scenario; returns a plain dict."""
    repo, idx, debug = job
    from . import scen, interp
    s = scen.SCENARIOS[idx]
    out = dict(blank(s), id=idx)
    funcs = set()
    t0 = time.time()
    ctxs = []

    def drv(it):
        c = scen.Ctx(it, s.moved)
        ctxs.append(c)
        try:
            s.driver(c, **s.args)
        except scen.Skip:
            c.skipped = True
        except scen.Missing as ex:
            c.und(s.props[0], "anchor", str(ex))
        except (KeyError, AttributeError, IndexError, AssertionError, ValueError, TypeError) as ex:
            if debug:
                traceback.print_exc()
            c.und(s.props[0], "driver", f"{type(ex).__name__}: {ex} in {traceback.extract_tb(ex.__traceback__)[-1][:3]}")
    if not debug:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(s.limit)
    try:
        for r in interp.explore(repo, drv, s.paths):
            c = ctxs[-1]
            out["paths"] += 1
            if r.undecided:
                c.und(s.props[0], "analysis", r.undecided)
            if r.raised is not None:
                if getattr(r.raised, "soft", False):
                    c.und(s.raises, "evaluation", repr(r.raised))
                else:
                    c.bad(s.raises, "evaluation", f"raises {r.raised.name}: {' '.join(map(str, r.raised.eargs))[:300]}", r.raised.where)
            if c.report_events:
                events(c, r.interp.events)
            if getattr(c, "skipped", False):
                out["skipped"] += 1
            funcs |= r.interp.funcs_seen
            out["calls"] += r.interp.calls
            out["ok"] += [list(x) for x in c.checked]
            out["bad"] += [[f.prop, f.oblig, f.msg, f.where] for f in c.findings]
            out["und"] += [list(x) for x in c.undecided]
    except Timeout:
        out["und"].append([s.props[0], "analysis", f"time limit of {s.limit} s"])
    except MemoryError:
        out["und"].append([s.props[0], "analysis", "memory limit"])
    except Exception as ex:          # a gap of the analyser is never an alarm
        if debug:
            raise
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        out["und"].append([s.props[0], "analyser", f"{type(ex).__name__}: {ex} at {tb.filename}:{tb.lineno}"])
    finally:
        signal.alarm(0)
    out["funcs"] = sorted(funcs)
    out["time"] = round(time.time() - t0, 2)
    return out


def events(c, evs):
    kinds = {"device": 0, "dtype": 0, "cast": 0, "mutate": 0, "mutate_param": 0, "rng": 0}
    seen = set()
    for e in evs:
        if e.kind == "global" and "seed" in e.msg:
            prop = "C17"
        elif e.kind in ROWS:
            prop = ROWS[e.kind]
        else:
            continue
        if e.kind in c.allow:
            continue
        kinds[e.kind if e.kind in kinds else "rng"] += 1
        if (e.kind, e.msg, e.where) in seen:
            continue
        seen.add((e.kind, e.msg, e.where))
        c.bad(prop, "event:" + e.kind, e.msg, e.where)
    if c.did_run:
        for prop, ks in (("C14", ("device", "dtype", "cast")), ("C16", ("mutate", "mutate_param")), ("C17", ("rng",))):
            if prop == "C14" and not c.moved:
                continue
            if not any(kinds[k] for k in ks):
                c.ok(prop, "no " + "/".join(ks) + " effect")


def known(prop):
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith(f"known: property={prop} "):
                parts = line.strip().split(" ", 3)
                res[parts[2].split("=", 1)[1]] = parts[3] if len(parts) > 3 else ""
    return res


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--repo", default=os.environ.get("SA_REPO", "/repo"))
    ap.add_argument("-v", action="count", default=0)
    ap.add_argument("--only")
    ap.add_argument("--debug", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("--all-props", action="store_true")
    a = ap.parse_args(argv)
    sys.setrecursionlimit(20000)
    t0 = time.time()
    scs = load()
    kn = known(a.prop)
    jobs = []
    for i, s in enumerate(scs):
        if a.prop not in s.props and not a.all_props:
            continue
        if a.only and a.only not in s.name:
            continue
        if s.tier == "thorough" and a.tier != "thorough":
            continue
        jobs.append((a.repo, i, a.debug))
    jobs.sort(key=lambda j: -scs[j[1]].limit)
    if a.debug:
        results = [run_one(j) for j in jobs]
    else:
        with multiprocessing.Pool(min(a.j, max(1, len(jobs))), maxtasksperchild=8) as pool:
            results, todo = [], {j[1] for j in jobs}
            it = pool.imap_unordered(run_one, jobs, chunksize=1)
            while todo:
                # scenarios not finished in time stay undecided; with a violation at hand the wait is shorter
                found = any(b[0] == a.prop and f"{r['name']}/{b[1]}".replace(" ", "_") not in kn for r in results for b in r["bad"])
                left = t0 + (DEADLINE / 2 if found else DEADLINE) * (10 if a.tier == "thorough" or a.all_props else 1) - time.time()
                try:
                    r = it.next(timeout=max(left, 0.01))
                except multiprocessing.TimeoutError:
                    pool.terminate()
                    break
                results.append(r)
                todo.discard(r["id"])
            for i in sorted(todo):
                results.append(dict(blank(scs[i]), id=i, und=[[scs[i].props[0], "analysis", "not finished within the time of the whole check"]]))
    results.sort(key=lambda r: r["name"])
    bad, und, ok = [], [], []
    for r in results:
        for p, o, m, w in r["bad"]:
            if p == a.prop or a.all_props:
                bad.append((r["name"], o, m, w, p))
        for p, o, m in r["und"]:
            if p == a.prop or o in ("analysis", "analyser", "driver", "anchor") or a.all_props:
                und.append((r["name"], o, m, p))
        ok += [(r["name"], o, p) for p, o in r["ok"] if p == a.prop or a.all_props]
    if a.v:
        for r in results:
            if a.v < 2 and not r["bad"] and not r["und"] and r["time"] < 20:
                continue
            print(f"  {r['name']:55s} paths={r['paths']:3d} ok={len([1 for p, o in r['ok'] if p == a.prop or a.all_props]):3d} "
                  f"bad={len(r['bad'])} und={len(r['und'])} {r['time']:.1f}s")
        grp = {}
        for u in und:
            grp.setdefault((u[1], u[2]), []).append(f"{u[3]}:{u[0]}")
        for (o, m), ns in grp.items():
            print(f"  UNDECIDED [{o}] {m[:300]} :: {len(ns)} x {', '.join(ns[:3])}")
    shown, viol, seen = {}, [], set()
    for n, o, m, w, p in bad:
        key = f"{n}/{o}".replace(" ", "_")
        if key in kn:
            shown[key] = kn[key]
            continue
        if (n, o, w) in seen:
            continue
        seen.add((n, o, w))
        viol.append((key, n, o, m, w, p))
    for key, what in shown.items():
        print(f"KNOWN-FINDING: property={a.prop} {key}: {what}")
    if a.all_props:
        grp = {}
        for x in viol:
            grp.setdefault((x[1], x[3]), []).append(x[5])
        viol = [(k[0], k[0], "", k[1], None, "+".join(sorted(set(v)))) for k, v in grp.items()]
        for key, n, o, m, w, p in viol[:12]:
            if viol.index((key, n, o, m, w, p)) < 400:
                print(f"ALARM {p} {key}: {m[:160 if not a.v > 1 else 2000]} [{w}]"[:400 if not a.v > 1 else 3000])
        print(f"{len(results)} scenarios, {len(ok)} ok, {len(und)} undecided, {len(viol)} alarms, {time.time()-t0:.0f}s")
        return 1 if viol else 0
    ev = os.environ.get("SA_EVIDENCE", os.path.join(VERIF, "evidence"))   # author runs on scratch copies keep theirs apart
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, f"{a.prop}.violations.txt")
    if os.path.exists(replay):
        os.unlink(replay)
    nokobl = len({(n, o) for n, o, p in ok})
    funcs = sorted({f for r in results for f in r["funcs"]})
    funcs = [f.replace(a.repo.rstrip("/") + "/", "") for f in funcs]
    evidence(ev, a, results, ok, und, viol, shown, funcs, time.time() - t0)
    if viol:
        with open(replay, "w") as fh:
            for key, n, o, m, w, p in viol:
                fh.write(f"scenario {n}, obligation {o}\n  at {w}\n  {m}\n  replay: cd {VERIF} && python3 -m sa.check {a.prop} --only '{n}' -v\n\n")
        for key, n, o, m, w, p in viol[:12]:
            print(f"  {key}: {m[:600]}")
            print(f"    at {w}")
        print(f"VIOLATION property={a.prop} replay={replay}")
        return 1
    print(f"{a.prop}: {len(results)} scenarios, {nokobl} obligations hold, {len(und)} undecided, {len(funcs)} functions analysed, {time.time()-t0:.0f} s")
    if not ok:
        print("no obligation could be decided")
        return 2
    return 0


def evidence(ev, a, results, ok, und, viol, shown, funcs, dt):
    from . import evidence as E
    E.write(ev, a, results, ok, und, viol, shown, funcs, dt)


if __name__ == "__main__":
    sys.exit(main())
