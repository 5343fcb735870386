"""Runs scripts on the real code and has TLC decide the recorded traces."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
PY = "/opt/venv/bin/python"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = 8
NOBODY = 65534


class CheckError(Exception):
    pass


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vf_", dir="/tmp")
        os.chmod(self.d, 0o755)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def own(path):
    if os.getuid() != 0:
        return
    for base, dirs, files in os.walk(path):
        os.chown(base, NOBODY, NOBODY)
        for f in files:
            os.lchown(os.path.join(base, f), NOBODY, NOBODY)


def build_shim(scratch):
    so = os.path.join(scratch, "shim.so")
    if not os.path.exists(so):
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, f"{VERIF}/harness/shim.c", "-ldl"], check=True)
        os.chmod(so, 0o755)
    return so


def run_jobs(jobs, scratch, shim=False, workers=WORKERS, timeout=800):
    """Runs the scripts; the recorded traces, in the order of the scripts."""
    if not jobs:
        return []
    workers = max(1, min(workers, len(jobs)))
    procs = []
    env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "TZ", "PYTHONPATH")}
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    if shim:
        env["LD_PRELOAD"] = build_shim(scratch)
    for k in range(workers):
        root = os.path.join(scratch, f"w{k}")
        if not os.path.isdir(os.path.join(root, "repo")):
            shutil.copytree(REPO, os.path.join(root, "repo"), symlinks=True,
                            ignore=shutil.ignore_patterns(".git", "__pycache__", "dbms", "*.log", ".pytest_cache"))
        os.makedirs(os.path.join(root, "h"), exist_ok=True)
        for f in ("driver.py", "driver_more.py", "driver_admin.py"):
            if os.path.exists(f"{VERIF}/harness/{f}"):
                shutil.copy(f"{VERIF}/harness/{f}", os.path.join(root, "h", f))
        with open(os.path.join(root, "jobs"), "w") as f:
            for j in jobs[k::workers]:
                f.write(json.dumps(j) + "\n")
        own(root)
        err = open(os.path.join(scratch, f"err{k}"), "w")
        procs.append((k, root, subprocess.Popen(
            [PY, os.path.join(root, "h", "driver.py"), os.path.join(root, "jobs"), os.path.join(root, "out"), root],
            env=env, stdin=subprocess.DEVNULL, stdout=err, stderr=err)))
    out = []
    end = time.time() + timeout
    for k, root, p in procs:
        try:
            rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            for _, _, q in procs:
                q.kill()
            raise CheckError("the driver did not end in time")
        if rc != 0:
            with open(os.path.join(scratch, f"err{k}")) as f:
                raise CheckError("driver: " + f.read()[-3000:])
        with open(os.path.join(root, "out")) as f:
            out += [line for line in f]
    return out


def tlc(spec, cfg, scratch, env=None, workers=WORKERS, extra=(), timeout=800, xss="512m"):
    """Runs TLC on a specification; its output and exit code."""
    d = tempfile.mkdtemp(prefix="tlc_", dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", f"-Xss{xss}", "-XX:+UseParallelGC", "-Xmx10g", f"-DTLA-Library={VERIF}/spec", "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", d, "-noGenerateSpecTE", *extra, "-config", cfg, spec]
    try:
        r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC did not end in time on " + spec)
    return r.stdout + r.stderr, r.returncode


def validate(lines, prop, scratch, module="Trace", shards=4, timeout=800):
    """Has TLC decide the traces.  

    Returns [(trace id, event, reason)], the states and transitions, and the class
    of every query text by (trace id, event).
    """
    from concurrent.futures import ThreadPoolExecutor
    if not lines:
        return [], 0, {}
    ids = [json.loads(x)["id"] for x in lines]
    if len(set(ids)) != len(ids):
        raise CheckError("trace ids are not unique")
    shards = max(1, min(shards, len(lines) // 20 or 1))

    def one(k):
        mine = lines[k::shards]
        path = os.path.join(scratch, f"traces_{prop}_{module}_{k}.ndjson")
        with open(path, "w") as f:
            f.writelines(mine)
        out, rc = tlc(f"{VERIF}/spec/{module}.tla", f"{VERIF}/spec/Trace.cfg", scratch,
                      env={"TRACES": path, "PROP": prop}, workers=max(1, WORKERS // shards), timeout=timeout)
        done, viol, cls = set(), [], {}
        for ln in out.splitlines():
            ln = ln.strip().strip('"')
            if ln.startswith("EV|"):
                _, tid, ev, c = ln.split("|", 3)
                cls[tid, int(ev)] = c
            elif ln.startswith("DONE|"):
                done.add(ln[5:])
            elif ln.startswith("VIOL|"):
                _, tid, ev, why = ln.split("|", 3)
                viol.append((tid, int(ev), why))
        if len(done) != len(mine) or rc != 0:
            raise CheckError(f"TLC decided {len(done)} of {len(mine)} traces, rc {rc}:\n" + out[-3000:])
        n = (0, 0)
        for ln in out.splitlines():
            if ln[:1].isdigit() and "distinct states found" in ln and "states generated" in ln:
                n = (int(ln.split(",")[1].split()[0]), int(ln.split()[0]))
        return viol, n, cls
    with ThreadPoolExecutor(shards) as ex:
        res = list(ex.map(one, range(shards)))
    cls = {}
    for r in res:
        cls.update(r[2])
    return [v for r in res for v in r[0]], (sum(r[1][0] for r in res), sum(r[1][1] for r in res)), cls
