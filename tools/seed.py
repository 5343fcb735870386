#!/usr/bin/env python3
"""Plants a bug of /verif/seeded in a scratch copy of /repo and says what becomes of it.

seed.py ID...          compile, stable tests, demo with and without the patch, the quick check
seed.py --all
seed.py --no-check ID  without the check
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, VERIF_SEED="1", VERIF_TIER=os.environ.get("VERIF_TIER", "quick"), PYTHONHASHSEED="0")


def run(cmd, cwd, timeout=900, **env):
    p = subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def stable_tests(copy, tmp):
    """The repository's own scripts, pointed at the copy."""
    texts = {}
    for name in ("build.sh", "test.sh"):
        texts[name] = Path("/opt/vp", name).read_text().replace("/repo", str(copy))
        Path(tmp, name).write_text(texts[name])
    imp = Path("/opt/vp/import_all.py").read_text().replace("/repo", str(copy))
    Path(tmp, "import_all.py").write_text(imp)
    Path(tmp, "build.sh").write_text(texts["build.sh"].replace("/opt/vp/import_all.py", f"{tmp}/import_all.py"))
    rc, out = run(["bash", f"{tmp}/build.sh"], copy)
    if rc:
        return "does not build: " + out[-400:]
    rc, out = run(["bash", f"{tmp}/test.sh", f"{tmp}/out.json"], copy)
    got = json.loads(Path(tmp, "out.json").read_text())
    base = json.loads(Path("/opt/vp/BASELINE.json").read_text())
    want, have = set(base["stable"]), set(got["passed"])
    lost = sorted(want - have)
    return "tests lost: " + ", ".join(lost[:5]) if lost else ""


def one(sid, with_check=True, prop=None):
    d = VERIF / "seeded" / sid
    meta = json.loads((d / "meta.json").read_text())
    tmp = tempfile.mkdtemp(prefix="vfseed")
    res = {"id": sid, "property": meta["property"]}
    try:
        copy = Path(tmp, "repo")
        shutil.copytree("/repo", copy, symlinks=True)
        demo = Path(tmp, "demo")
        shutil.copytree(d, demo, ignore=lambda a, n: [x for x in n if x.endswith((".diff", ".patch")) or x == "meta.json"])
        rc, out = run(["bash", f"{demo}/demo.sh"], copy, 300)
        res["demo_clean"] = rc
        if rc:
            res["demo_out"] = out[-500:]
        rc, out = run(["git", "apply", str(d / "patch.diff")], copy)
        if rc:
            res["error"] = "does not apply: " + out
            return res
        res["tests"] = stable_tests(copy, tmp) or "pass"
        rc, out = run(["bash", f"{demo}/demo.sh"], copy, 300)
        res["demo_patched"] = rc
        res["demo_says"] = out.strip().split("\n")[-1][:200]
        if with_check:
            p = prop or meta["property"]
            rc, out = run(["python3", str(VERIF / "check.py"), p], VERIF, 900, VF_REPO=str(copy), VF_EVIDENCE=str(Path(tmp, "evidence")))
            res["check"] = rc
            res["caught"] = rc == 1 and f"VIOLATION property={p}" in out
            res["check_says"] = " | ".join(out.strip().split("\n")[-3:])[-400:]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def main(argv):
    check = "--no-check" not in argv
    ids = [a for a in argv if not a.startswith("--")]
    if "--all" in argv:
        ids = sorted(p.name for p in (VERIF / "seeded").iterdir() if (p / "meta.json").is_file())
    bad = 0
    with ThreadPoolExecutor(int(os.environ.get("SEED_JOBS", "2"))) as ex:
        for r in ex.map(lambda i: one(i, check), ids):
            counts = r.get("demo_clean") == 0 and r.get("tests") == "pass" and r.get("demo_patched") not in (0, None)
            verdict = ("COUNTS " if counts else "INVALID ") + ("CAUGHT" if r.get("caught") else "missed" if check else "")
            bad += not (counts and (r.get("caught") or not check))
            print(r["id"], r["property"], verdict, flush=True)
            if not counts or (check and not r.get("caught")):
                print("   ", json.dumps(r), flush=True)
    return bool(bad)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
