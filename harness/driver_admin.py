"""Creating, deleting and using databases: interrupted, and at the same time."""
import os
import shutil
import time

D = M = None      # the modules driver, driver_more
LOOKS = {"list": 2, "open": 2}      # these are held up where they only look, too
FILES = {"db": "database_%s.json", "idx": "indexes_%s.json", "num": "wiggle_number_%s.txt"}


def kinds(driver, more):
    global D, M
    D, M = driver, more
    return {"admin": admin_script}


class Folder:
    """A folder of databases, and things beside it that nobody may touch."""

    def __init__(self):
        self.base = os.path.join(D.ROOT, "adm")
        shutil.rmtree(self.base, ignore_errors=True)
        self.dbms = os.path.join(self.base, "in", "dbms")
        os.makedirs(os.path.join(self.base, "in", "other"))
        for p in ("in/other/database_a.json", "in/keep.txt"):
            with open(os.path.join(self.base, p), "w") as h:
                h.write("{}")
        self.kept = os.path.join(D.ROOT, "adm_kept")
        self.before = None

    def keep(self):
        shutil.rmtree(self.kept, ignore_errors=True)
        shutil.copytree(self.base, self.kept)

    def restore(self):
        shutil.rmtree(self.base)
        shutil.copytree(self.kept, self.base)
        self.before = None

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)
        shutil.rmtree(self.kept, ignore_errors=True)

    def state(self, tr):
        out = []
        for nm in sorted(os.listdir(self.dbms)) if os.path.isdir(self.dbms) else []:
            p = os.path.join(self.dbms, nm)
            if os.path.isdir(p):
                out.append({"n": nm, "f": [k for k in FILES if os.path.isfile(os.path.join(p, FILES[k] % nm))],
                            "s": tr.snap(D.snapshot(p, nm))})
        return out

    def seen(self, tr):
        """The state, and what is different from what was seen last."""
        now, touched, outside = M.walk(self.base), set(), False
        for p in set(now) | set(self.before or now):
            if self.before is not None and self.before.get(p) != now.get(p):
                parts = p.split("/")
                if parts[:2] == ["in", "dbms"] and len(parts) > 2:
                    touched.add(parts[2])
                elif parts != ["in", "dbms"]:
                    outside = True
        self.before = now
        return dict(post=self.state(tr), touched=sorted(touched), outside=outside)

    def right(self, name, a):
        return a["res"] != "ok" or [os.path.realpath(x) for x in a.get("paths", [])] == [
            os.path.realpath(os.path.join(self.dbms, name, FILES[k] % name)) for k in ("db", "idx", "num")]


def command(st, arm=None):
    """["new"|"del"|"open", name]  ["list"]  ["q", name, text]"""
    if st[0] == "q":
        return dict(c="q", db=st[1], t=st[2], arm=arm)
    return dict(c=st[0], name=st[1] if len(st) > 1 else "", arm=arm)


def about(st, a, mode="n"):
    return dict(op=st[0], name=st[1] if len(st) > 1 else "", t=D.chars(st[2]) if len(st) > 2 else [], mode=mode,
                res=a["res"], exc=a.get("exc", ""), none=bool(a.get("none")), list=a.get("list") or [])


class Run:
    def __init__(self, fo, tid):
        self.fo = fo
        self.tr = D.Trace(tid, 0)
        self.tr.d["first"] = fo.seen(self.tr)["post"]
        self.s = D.Session(fo.dbms)

    def step(self, st, arm=None):
        if st[0] == "sess" or not self.s.alive:
            self.s.kill()
            self.s = D.Session(self.fo.dbms)
            if st[0] == "sess":
                return {}
        try:
            a = self.s.call(**command(st, arm))
        except D.Died:
            a = {"res": "died"}
        mode = "n"
        if arm and a["res"] == "died":
            mode = "kill"
        elif arm and (a["res"] == "hang" or a.get("hits")):
            mode = "fail"
        e = about(st, a, mode)
        e.update(self.fo.seen(self.tr), right=st[0] not in ("new", "open") or self.fo.right(st[1], a))
        self.tr.add(**e)
        return a


def admin_script(job, emit):
    """folder: is there a folder of databases at first
    setup: [step...]   follow: [step...]
    hit: step, modes: interrupted at each of its points                     or
    ops: [step...], acts, each: as in driver.sched_script; points: only these of it; opened: [k...] sessions that opened the database before
    """
    fo = Folder()
    if job.get("folder", True):
        os.mkdir(fo.dbms)
    r = None
    try:
        r = Run(fo, job["id"] + "/setup")
        for st in job["setup"]:
            r.step(st)
        r.s.kill()
        emit(r.tr.d)
        fo.keep()
        if "hit" in job:
            interrupt(job, fo, emit)
        else:
            at_once(job, fo, emit)
    finally:
        if r:
            r.s.kill()
        fo.close()


def points(fo, st, reads):
    """What it does with files, one after the other."""
    s = D.Session(fo.dbms)
    try:
        return s.call(**command(st, ["count", 0, 0, 0, reads])).get("kinds", "")
    except D.Died:
        return ""
    finally:
        s.kill()
        fo.restore()


def interrupt(job, fo, emit):
    total = {reads: points(fo, job["hit"], reads) for reads in {m[4] for m in job["modes"]}}
    for mode, _, err, part, reads in job["modes"]:
        for n in range(1, len(total[reads]) + 1):
            if mode in ("torn", "short") and total[reads][n - 1] != "w":
                continue
            r = Run(fo, "%s/%s.%d.%d.%d" % (job["id"], mode, err, part, n))
            try:
                r.step(job["hit"], [mode, n, err, part, reads])
                for st in job["follow"]:
                    r.step(st)
            finally:
                r.s.kill()
            emit(r.tr.d)
            fo.restore()


def at_once(job, fo, emit):
    total = [len(points(fo, st, LOOKS.get(st[0], 1))) for st in job["ops"]]
    k = job.get("each", 0)
    for n in job.get("points") or (range(1, total[k - 1] + 1) if k else [0]):
        schedule(job, fo, f"{job['id']}/{n}", total, k, n, emit)
        fo.restore()


def schedule(job, fo, tid, total, each, n, emit):
    r = Run(fo, tid)
    ops = [dict(about(st, {"res": "hang"}), s=0, e=0) for st in job["ops"]]
    ss, state, clock = {}, {}, 0
    for nm in job.get("known", []):      # the session that follows has opened it before, too
        r.step(["open", nm])
    for k in job.get("opened", []):
        ss[k] = D.Session(fo.dbms)
        try:
            ss[k].call(c="open", name=job["ops"][k - 1][1])
        except D.Died:
            pass

    def tick():
        nonlocal clock
        clock += 1
        return clock

    def ended(k, a, mode="n"):
        ops[k - 1].update(about(job["ops"][k - 1], a, mode), e=tick())
        state[k] = "done"
        ss[k].kill()

    def settle(k):
        state[k] = ss[k].settle()
        if state[k] == "done":
            try:
                a = ss[k].recv()
            except D.Died:
                a = {"res": "died"}
            ended(k, a)

    def others(k):
        for j in list(state):
            if j != k and state[j] == "waits":
                settle(j)

    try:
        for a in job["acts"] + [["go", k] for k in range(1, len(ops) + 1)] * 2:
            k = a[1]
            if a[0] == "start" and k not in state:
                st = job["ops"][k - 1]
                at = n if k == each else 1 + a[2] * total[k - 1] // 1000 if a[2] and total[k - 1] else 0
                if k not in ss or not ss[k].alive:
                    ss[k] = D.Session(fo.dbms)
                ops[k - 1]["s"] = tick()
                ss[k].send(command(st, ["stop", at, 0, a[3], LOOKS.get(st[0], 1)] if at else None))
                settle(k)
            elif k in state and state[k] != "done":
                if a[0] == "kill":
                    ended(k, {"res": "died"}, "kill")
                else:
                    if state[k] == "stopped":
                        ss[k].go_on()
                    settle(k)
                others(k)
        end = time.time() + D.QUERY_TIMEOUT
        while any(x != "done" for x in state.values()) and time.time() < end:
            for k in state:
                if state[k] != "done":
                    if state[k] == "stopped":
                        ss[k].go_on()
                    settle(k)
    finally:
        for k in ss:
            if state.get(k, "done") != "done":
                D.HANGS += 1
                ops[k - 1]["e"] = tick()
            ss[k].kill()
    e = about(["par"], {"res": "ok"})
    e.update(fo.seen(r.tr), right=True, ops=[ops[k - 1] for k in sorted(state)])
    r.tr.add(**e)
    try:
        for st in job.get("follow", []):
            r.step(st)
    finally:
        r.s.kill()
    emit(r.tr.d)
