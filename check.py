#!/usr/bin/env python3
"""check.py C01            decides one property (VERIF_SEED, VERIF_TIER)
check.py C01 --thorough decides it on as much as can be explored in minutes
check.py --setup           checks that the tools work
check.py C01 --replay F    runs the script of a violation again
"""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
EVIDENCE = os.environ.get("VF_EVIDENCE") or os.path.join(VERIF, "evidence")
sys.path.insert(0, os.path.join(VERIF, "harness"))
sys.dont_write_bytecode = True

import gen  # noqa: E402
import plans  # noqa: E402
import run  # noqa: E402
import scripts  # noqa: E402
from run import CheckError, Scratch  # noqa: E402


def event_text(e):
    t = e.get("t", "")
    return "".join(t) if isinstance(t, list) else t


def brief(tr, upto=None):
    """A trace, as a person reads it."""
    out = []
    for e in tr["ev"][:upto]:
        x = {"op": e["op"]}
        if e.get("t"):
            x["text"] = event_text(e)
        if e.get("name"):
            x["name"] = "".join(map(chr, e["name"])) if e["name"] and isinstance(e["name"][0], int) else e["name"]
        for k in ("qs", "ops"):
            if e.get(k):
                x[k] = [dict({j: v for j, v in o.items() if v not in ("", [], "n", False)}, t=event_text(o)) for o in e[k]]
        for k in ("db", "res", "exc", "mode", "a", "ret", "dbs", "evs"):
            if k in e and e[k] not in ("", [], "n", None):
                x[k] = e[k]
        out.append(x)
    return out


def known(prop):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for ln in f:
                if ln.startswith("finding: property=%s " % prop):
                    rest = ln.split(" event=", 1)[1]
                    ev, end = json.JSONDecoder().raw_decode(rest)
                    res.append((ev, rest[end:].strip()))
    return res


def models(prop, tier, scratch):
    """Exhaustive checks of the models; those with a flaw must fail."""
    out = {"states": 0, "transitions": 0, "models": []}
    for module, cfg, flawed in plans.models(prop, tier):
        t, rc = run.tlc(f"{VERIF}/spec/{module}.tla", f"{VERIF}/spec/{cfg}.cfg", scratch, xss="64m")
        gen_, dist = 0, 0
        for ln in t.splitlines():
            if "distinct states found" in ln and "states generated" in ln and "left on queue" in ln and "Progress" not in ln:
                gen_, dist = int(ln.split()[0].replace(",", "")), int(ln.split(",")[1].split()[0].replace(",", ""))
        good = rc == 0 and "No error has been found" in t
        broken = rc in (12, 13)
        if good == flawed or not (good or broken):
            raise CheckError(f"model {module} {cfg}: rc {rc}\n" + t[-3000:])
        if not flawed:
            out["states"] += dist
            out["transitions"] += gen_
        out["models"].append({"model": module, "config": cfg, "states": dist,
                              "result": "flaw shown, as it must be" if flawed else "no error"})
    return out


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        with Scratch() as s:
            run.build_shim(s)
            t, rc = run.tlc(f"{VERIF}/spec/MC.tla", f"{VERIF}/spec/MCquick.cfg", s, xss="64m")
            if rc:
                print(t)
                return 2
        print("ok")
        return 0
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
        sys.argv.remove("--thorough")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    ev_path = os.path.join(EVIDENCE, f"{prop}.json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        with open(sys.argv[3]) as f:
            rp = json.load(f)
        batches = [(rp["module"], [rp["job"]], rp["shim"])]
        mc = {"states": 0, "transitions": 0, "models": []}
        cov = {}
        replaying = True
    else:
        replaying = False
        with Scratch() as s:
            mc = models(prop, tier, s)
    violations, samples = [], []
    states = transitions = traces = events = 0
    counts, parts = {}, []
    findings = known(prop)
    seen_findings = set()
    with Scratch() as s:
        if not replaying:
            batches, cov = plans.batches(prop, tier, seed, s)
        for k, (module, jobs, shim) in enumerate(batches):
            if not jobs:
                continue
            b0 = time.time()
            sub = os.path.join(s, f"b{k}")
            os.mkdir(sub)
            os.chmod(sub, 0o755)
            lines = run.run_jobs(jobs, sub, shim=shim, workers=16 if prop in ("C23", "C24", "C26") else run.WORKERS, timeout=3000 if tier == "thorough" else 400)
            b1 = time.time()
            viol, st, cls = run.validate(lines, prop, sub, module=module, timeout=3000 if tier == "thorough" else 400)
            byid = {}
            bad = {v[0] for v in viol}
            for n, ln in enumerate(lines):
                tr_id = ln[8:ln.index('"', 8)] if ln.startswith('{"id": "') else json.loads(ln)["id"]
                d = None
                if tr_id in bad or n % max(1, len(lines) // 2) == 0:
                    d = json.loads(ln)
                if d and tr_id in bad:
                    byid[tr_id] = d
                if d and len(samples) < 6:
                    samples.append({"trace": tr_id, "events": brief(d, 8)})
            traces += len(lines)
            events += len(cls)
            states += st[0]
            transitions += st[1]
            for c in cls.values():
                counts[c] = counts.get(c, 0) + 1
            parts.append({"module": module, "traces": len(lines), "run_s": round(b1 - b0, 1), "tlc_s": round(time.time() - b1, 1)})
            jobs_by_id = {j["id"]: j for j in jobs}
            for tid, ev, why in viol:
                e = byid[tid]["ev"][ev - 1]
                hit = [f for f in findings if f[0] == event_text(e)]
                if hit:
                    seen_findings.add(hit[0][1])
                    continue
                violations.append((module, shim, jobs_by_id[tid.split("/")[0]], byid[tid], ev, why))
    for f in findings:
        print(f"KNOWN-FINDING: property={prop} {f[1]}")
    cov = dict(cov, states=mc["states"] + states, transitions=mc["transitions"] + transitions, traces_validated_against_impl=traces,
               events_decided=events, events_by_class=dict(sorted(counts.items())), models=mc["models"],
               model_states=mc["states"], parts=parts, samples=samples or [{"models": mc["models"]}])
    if not replaying:
        with open(ev_path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
                       "assumptions": plans.ASSUMPTIONS, "wall_s": round(time.time() - t0, 1), "violations": len(violations)}, f, indent=1)
    if violations:
        module, shim, job, tr, ev, why = min(violations, key=lambda v: (len(json.dumps(v[2])), v[4]))
        rdir = os.path.join(EVIDENCE, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}.json")
        reasons = {}
        for v in violations:
            reasons[v[5]] = reasons.get(v[5], 0) + 1
        with open(path, "w") as f:
            json.dump({"property": prop, "why": why, "module": module, "shim": shim, "event": ev, "trace": brief(tr, ev),
                       "job": job, "all": reasons}, f, indent=1)
        for w, c in sorted(reasons.items(), key=lambda x: -x[1])[:12]:
            print(f"  {c} x {w}")
        print("  e.g.", json.dumps(brief(tr, ev)[-1])[:600])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"{prop}: held on {traces} traces, {events} events decided, {mc['states']} model states, {time.time() - t0:.1f} s")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("ERROR:", e)
        sys.exit(2)
    except Exception:
        import traceback
        print("ERROR:", traceback.format_exc()[-1500:])
        sys.exit(2)
