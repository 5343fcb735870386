"""Scripts made by the specification: TLC runs a generator in simulation mode."""
import json
import os

from run import VERIF, CheckError, tlc

FALSY = {"@EMPTY": {}, "@NULL": None, "@FALSE": False, "@NIL": [], "@ZERO": 0, "@BLANK": ""}
SUBST = [("@LONG", "x" * 200), ("@HUGE", "y" * 20000), ("@NUL", "\0"), ("@E", "\u00e9"), ("@U", "\u00dcn\u00ef"),
         ("@u", "u\u0308")]


def subst(x):
    if isinstance(x, str):
        if x in FALSY:
            return FALSY[x]
        for a, b in SUBST:
            x = x.replace(a, b)
        return x
    if isinstance(x, list):
        return [subst(y) for y in x]
    if isinstance(x, dict):
        return {k: subst(v) for k, v in x.items()}
    return x


def simulate(module, length, num, seed, scratch):
    """num scripts of that length, and the number of states TLC went through."""
    out, rc = tlc(f"{VERIF}/spec/{module}.tla", f"{VERIF}/spec/{module if module in ('ScriptsSched', 'ScriptsAdmin') else 'Scripts'}.cfg", scratch, env={"LEN": str(length)}, workers=1,
                  extra=("-simulate", f"num={num}", "-depth", str(length + 10), "-seed", str(seed)), xss="64m")
    res, states = [], 0
    for ln in out.splitlines():
        if ln.startswith('"SCRIPT|'):
            res.append(subst(json.loads(json.loads(ln)[7:])))
        elif ln.startswith("The number of states generated:"):
            states = int(ln.split(":")[1].replace(",", ""))
    if len(res) < num:
        raise CheckError(f"{module}: {len(res)} of {num} scripts\n" + out[-2000:])
    return res, states


def enumerate_texts(family, scratch):
    """The texts of a complete family of spec/Enum.tla."""
    path = os.path.join(scratch, f"enum_{family}.ndjson")
    out, rc = tlc(f"{VERIF}/spec/Enum.tla", f"{VERIF}/spec/Enum.cfg", scratch, env={"FAMILY": family, "OUT": path}, workers=1)
    if rc != 0 or not os.path.exists(path):
        raise CheckError(f"family {family}:\n" + out[-3000:])
    with open(path) as f:
        return sorted(json.loads(ln)["t"] for ln in f)


def written(scratch, num, seed, most, everything=False):
    """Queries the writer of spec/MCLang.tla writes: random ones, or all within its bounds."""
    cfg = "MCLangtexts" if everything else "MCLanglong"
    extra = () if everything else ("-simulate", f"num={num}", "-depth", "40", "-seed", str(seed))
    out, rc = tlc(f"{VERIF}/spec/MCLang.tla", f"{VERIF}/spec/{cfg}.cfg", scratch, workers=8 if everything else 1, extra=extra, xss="64m")
    res = sorted({json.loads(json.loads(ln)[5:]) for ln in out.splitlines() if ln.startswith('"TEXT|')})
    if rc != 0 or not res:
        raise CheckError(f"{cfg}:\n" + out[-3000:])
    step = max(1, len(res) // most)
    return res[seed % step::step][:most]


def untag(v):
    k, _, x = v.partition(":")
    return {"i": int, "s": str, "n": lambda _: None, "b": lambda y: y == "true"}[k](x)


def with_criteria(scratch, seed, most):
    """FINDs and criteria, all those of spec/MCRequest.tla or a part of them."""
    out, rc = tlc(f"{VERIF}/spec/MCRequest.tla", f"{VERIF}/spec/MCRequesttexts.cfg", scratch, workers=8, xss="64m")
    res = sorted({json.loads(ln)[5:] for ln in out.splitlines() if ln.startswith('"CASE|')})
    if rc != 0 or not res:
        raise CheckError("MCRequesttexts:\n" + out[-3000:])
    step = max(1, len(res) // most)
    said = lambda ps: {n: untag(v) for n, v in ps}
    return [(t, [[c["h"], said(c["yes"]), said(c["no"])] for c in crit])
            for t, crit in map(json.loads, res[seed % step::step][:most])]


def graph_jobs(scripts, prefix):
    return [{"id": f"{prefix}{k}", "dbs": ["db1", "db2"], "steps": [["new", 1], ["new", 2]] + s} for k, s in enumerate(scripts)]


def catalog_jobs(scripts, prefix):
    return [{"id": f"{prefix}{k}", "kind": "catalog", "steps": s} for k, s in enumerate(scripts)]


def store_jobs(scripts, prefix):
    return [{"id": f"{prefix}{k}", "kind": "store", "steps": s} for k, s in enumerate(scripts)]


def shell_jobs(scripts, prefix):
    return [dict(s, id=f"{prefix}{k}", kind="shell") for k, s in enumerate(scripts)]


def sched_jobs(scripts, prefix):
    out = []
    for k, s in enumerate(scripts):
        s = [x for x in s if x[0] != "use"]
        # what begins with a MAKE may wait for another, so it is asked of the third database
        acts = [["look", 3 if "make" in a[2].lower() else a[1], a[2]] if a[0] == "q" else a for a in s[6:]]
        qs = [x[1:] for x in s[3:6]]
        looks = [x[1:] for x in acts if x[0] == "look" and x[1] != 3]
        out.append({"id": f"{prefix}{k}", "kind": "sched", "dbs": ["db1", "db2", "db3"], "setup": [x[1:] for x in s[:3]],
                    "queries": qs, "acts": acts, "follow": looks[:2] + qs[:1] + looks[:1] + qs[1:2]})
    return out


def _admin(s):
    """The steps of one script, with names for the databases."""
    names = {0: "", 1: "db1", 2: "db1_"}
    step = lambda a: ["sess"] if a[0] == "sess" else ["list"] if a[0] == "list" else [a[0], names[a[1]], *a[2:]]
    s = [x for x in s if x[0] != "use"]
    return [step(x) for x in s[:4]], [step(x) for x in s[4:8]], s[8:17], [step(x) for x in s[17:]] + [["list"]]


def admin_once_jobs(scripts, prefix):
    out = []
    for k, s in enumerate(scripts):
        setup, ops, acts, follow = _admin(s)
        opened = [j + 1 for j, o in enumerate(ops) if o[0] == "q" and (k + j) % 3 == 0]
        out.append({"id": f"{prefix}{k}", "kind": "admin", "setup": setup, "ops": ops, "opened": opened, "acts": acts, "each": 0, "follow": follow})
    return out


def admin_cut_jobs(scripts, prefix):
    import work
    out = []
    for k, s in enumerate(scripts):
        setup, ops, acts, follow = _admin(s)
        out.append({"id": f"{prefix}{k}", "kind": "admin", "setup": setup, "hit": ops[0], "modes": work.FAILS if k % 2 else work.KILLS,
                    "follow": [x for x in ops[1:] if x[0] != "list"] + follow})
    return out
