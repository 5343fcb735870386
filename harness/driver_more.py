"""The other kinds of script: catalog of databases, storage layer, shell."""
import hashlib
import json
import os
import re
import runpy
import shutil
import sys

D = None      # the driver module


def kinds(driver):
    global D
    D = driver
    import driver_admin
    return {"catalog": catalog_script, "store": store_script, "shell": shell_script,
            **driver_admin.kinds(driver, sys.modules[__name__])}


def codes(s):
    return [ord(c) for c in s]


# ------------------------------------------------------------------ catalog
def walk(root, skip=()):
    """path below root -> what is there"""
    out = {}
    for base, dirs, files in os.walk(root):
        dirs[:] = [d for d in dirs if os.path.join(base, d) not in skip]
        for d in dirs:
            out[os.path.relpath(os.path.join(base, d), root)] = "dir"
        for f in files:
            p = os.path.join(base, f)
            if f.endswith(".log"):
                continue
            try:
                with open(p, "rb") as h:
                    out[os.path.relpath(p, root)] = hashlib.sha1(h.read()).hexdigest()
            except OSError:
                out[os.path.relpath(p, root)] = "unreadable"
    return out


def stats(root):
    out = {}
    for base, dirs, files in os.walk(root):
        dirs[:] = [d for d in dirs if d != "__pycache__"]
        for f in files:
            if not f.endswith((".log", ".pyc")):
                st = os.stat(os.path.join(base, f))
                out[os.path.join(base, f)] = (st.st_size, st.st_mtime_ns)
        for d in dirs:
            out[os.path.join(base, d)] = "dir"
    return out


def catalog_script(job, emit):
    """steps: ["new"|"open"|"del", name]  ["list"]  ["q", name, text]  ["sess"]
    ["pick", lines]: choose by letter   ["ask", lines]: create under a name that is asked for
    ["use", k]: go on in session k, which stays alive beside the others
    ["bare"]: the environment removes the folder, if it is empty
    ["drop", name, which]: the environment removes a file   ["stray", file name]"""
    base = os.path.join(D.ROOT, "cat")
    shutil.rmtree(base, ignore_errors=True)
    dbms = os.path.join(base, "in", "dbms")
    os.makedirs(dbms)
    # things that must never be touched, where a careless path would lead
    for p in ("in/other", "in/x", "x", "in/dbms2/a", "in/databases"):
        os.makedirs(os.path.join(base, p))
        for f in ("keep.txt", "database_x.json", "database_other.json", "database_a.json"):
            with open(os.path.join(base, p, f), "w") as h:
                h.write("{}")
    for p in ("in", "."):
        for f in range(6):
            with open(os.path.join(base, p, f"notes{f}.txt"), "w") as h:
                h.write("keep")

    def name_of(n):
        return n.replace("@BASE", base)

    def compared(nm, paths, folder):
        """Whether these are the files of that database, and whether there are no others."""
        want = [os.path.join(dbms, nm, x) for x in (f"database_{nm}.json", f"indexes_{nm}.json", f"wiggle_number_{nm}.txt")]
        return ([os.path.realpath(x) for x in paths] == [os.path.realpath(x) for x in want],
                folder is not None and os.path.isdir(folder) and sorted(os.path.join(folder, x) for x in os.listdir(folder)) == sorted(want))
    pool = {0: D.Session(dbms)}
    k, s = 0, pool[0]
    tr = D.Trace(job["id"], 0)
    try:
        for st in job["steps"]:
            if st[0] in ("sess", "use"):
                if st[0] == "use":
                    k = st[1]
                else:
                    s.kill()
                if k not in pool or not pool[k].alive:
                    pool[k] = D.Session(dbms)
                s = pool[k]
                continue
            before, code = walk(base), stats(D.REPO)
            ev = {"op": st[0], "name": [], "res": "ok", "exc": "", "list": [], "right": True, "three": True, "post": 1,
                  "t": [], "none": False, "lines": []}
            try:
                if st[0] == "drop":
                    nm = name_of(st[1])
                    ev["name"] = codes(nm)
                    f = {"db": f"database_{nm}.json", "idx": f"indexes_{nm}.json", "num": f"wiggle_number_{nm}.txt"}[st[2]]
                    p = os.path.join(dbms, nm, f)
                    if os.path.exists(p):
                        os.unlink(p)
                    a = {"res": "ok"}
                elif st[0] == "stray":
                    os.makedirs(dbms, exist_ok=True)
                    with open(os.path.join(dbms, st[1]), "w") as h:
                        h.write("stray")
                    a = {"res": "ok"}
                elif st[0] == "bare":
                    try:
                        os.rmdir(dbms)
                    except OSError:
                        pass
                    a, before = {"res": "ok"}, walk(base)
                elif st[0] in ("pick", "ask"):
                    lines = [y for x in st[1] for y in name_of(x).split("\n")]
                    ev["lines"] = [codes(x) for x in lines]
                    a = s.call(c=st[0], lines=lines)
                    if a["res"] == "ok":
                        nm = os.path.basename(os.path.dirname(a["paths"][0]))
                        ev["name"], folder = codes(nm), os.path.join(dbms, nm)
                        ev["right"], ev["three"] = compared(nm, a["paths"], folder)
                        ev["post"] = tr.snap(D.snapshot(folder, nm))
                elif st[0] == "list":
                    a = s.call(c="list")
                    ev["list"] = [codes(x) for x in a.get("list") or []]
                else:
                    nm = name_of(st[1])
                    ev["name"] = codes(nm)
                    if st[0] == "q":
                        ev["t"] = D.chars(st[2])
                        a = s.call(c="q", db=nm, t=st[2])
                    else:
                        a = s.call(c=st[0], name=nm)
                    folder = os.path.join(dbms, nm) if nm and "/" not in nm and "\0" not in nm else None
                    if st[0] in ("new", "open") and a["res"] == "ok":
                        ev["right"], ev["three"] = compared(nm, a["paths"], folder)
                    if st[0] in ("new", "q") and folder and os.path.isdir(folder):
                        ev["post"] = tr.snap(D.snapshot(folder, nm))
            except D.Died:
                a = {"res": "died"}
            ev["res"], ev["exc"] = a["res"], a.get("exc", "")
            ev["none"] = bool(a.get("none"))
            after = walk(base)
            touched, outside = set(), stats(D.REPO) != code
            for p in set(before) | set(after):
                if p == "in/dbms" and p not in before:
                    continue
                if before.get(p) != after.get(p):
                    parts = p.split("/")
                    if parts[:2] == ["in", "dbms"] and len(parts) > 2:
                        touched.add(parts[2])
                    elif parts[:2] != ["in", "dbms"]:
                        outside = True
                    else:
                        outside = True
            ev["touched"] = sorted(codes(x) for x in touched)
            ev["outside"] = outside
            ev["gone"] = bool(ev["name"]) and not os.path.lexists(os.path.join(dbms, "".join(map(chr, ev["name"])).replace("\0", "_")))
            tr.add(**ev)
            if not s.alive:
                pool[k] = s = D.Session(dbms)
    finally:
        for x in pool.values():
            x.kill()
        shutil.rmtree(base, ignore_errors=True)
    emit(tr.d)


# ------------------------------------------------------------------ storage
def store_script(job, emit):
    """steps: ["sess"]  [function, arguments, sure]"""
    w = D.World(["db1"])
    w.session()
    events = []
    try:
        w.s.call(c="new", name="db1")
        first = D.rawstore(w.folder("db1"), "db1")
        for st in job["steps"]:
            if st[0] == "sess":
                w.session()
                w.s.call(c="open", name="db1")
                continue
            try:
                a = w.s.call(c="st", db="db1", f=st[0], a=st[1], sure=st[2])
            except D.Died:
                a = {"res": "died"}
            ret = a.get("ret")
            args = st[1]
            if st[0] == "add":
                args = [[k, json.dumps(v, sort_keys=True)] for k, v in args]
            elif st[0] == "addr":
                args = [[k, sorted(v)] for k, v in args]
            events.append({"op": st[0], "a": args if args is not None else [], "sure": st[2] or "",
                           "res": a["res"], "exc": a.get("exc", ""), "ret": ret if ret is not None else [],
                           "post": D.rawstore(w.folder("db1"), "db1")})
            if not w.s.alive:
                w.session()
                w.s.call(c="open", name="db1")
    finally:
        w.close()
    emit({"id": job["id"], "first": first, "ev": events})


# -------------------------------------------------------------------- shell
class Lines:
    """Standard input of the shell: asks the driver for every line."""

    def __init__(self, r, w, out):
        self.r, self.w, self.out = os.fdopen(r, "r"), w, out
        self.encoding, self.errors = "utf-8", "strict"

    def readline(self, *a):
        sys.stdout.flush()
        o = D.taken(self.out)
        os.write(self.w, json.dumps({"at": "read", "o": o, "res": "ok"}).encode() + b"\n")
        line = self.r.readline()
        if not line:
            raise EOFError()
        return json.loads(line)["line"] + "\n"

    def fileno(self):
        raise OSError("no file")

    def isatty(self):
        return False

    def flush(self):
        pass

    def __iter__(self):
        return self

    def __next__(self):
        return self.readline()


def shell_child(r, w, dbms, tz):
    out = D.capture("shell.out")
    sys.stdin = Lines(r, w, out)
    how = "returned"
    try:
        runpy.run_path(os.path.join(D.REPO, "wiggle_shell", "wiggleshell.py"), run_name="__main__")
    except BaseException as e:
        how = type(e).__name__
    os.write(w, json.dumps({"at": "end", "how": how, "o": D.taken(out), "res": "ok"}).encode() + b"\n")


def hide(dbms, which):
    """Takes one file of every database away."""
    out, to = [], os.path.join(D.ROOT, "hidden")
    os.makedirs(to, exist_ok=True)
    for nm in os.listdir(dbms) if os.path.isdir(dbms) else []:
        p = os.path.join(dbms, nm, {"db": f"database_{nm}.json", "idx": f"indexes_{nm}.json", "num": f"wiggle_number_{nm}.txt"}[which])
        if os.path.exists(p):
            out.append((os.path.join(to, nm), p))
            os.replace(p, out[-1][0])
    return out


def shell_script(job, emit):
    """setup: [[name, [query, ...], missing file or ""], ...]   lines: [...]
    several sessions: lines is a list of lists"""
    dbms = os.path.join(D.REPO, "dbms")
    shutil.rmtree(dbms, ignore_errors=True)
    if job["setup"] or job.get("folder"):
        os.mkdir(dbms)
    tr = D.Trace(job["id"], 0)
    s = D.Session(dbms)
    for name, queries, missing in job["setup"]:
        s.call(c="new", name=name)
        for q in queries:
            s.call(c="q", db=name, t=q)
        if missing:
            os.unlink(os.path.join(dbms, name, {"db": f"database_{name}.json", "idx": f"indexes_{name}.json",
                                                "num": f"wiggle_number_{name}.txt"}[missing]))
    s.kill()

    def state():
        out = []
        if os.path.isdir(dbms):
            for nm in sorted(os.listdir(dbms)):
                p = os.path.join(dbms, nm)
                if os.path.isdir(p):
                    out.append({"n": codes(nm), "s": tr.snap(D.snapshot(p, nm)),
                                "full": all(os.path.exists(os.path.join(p, x)) for x in
                                            (f"database_{nm}.json", f"indexes_{nm}.json", f"wiggle_number_{nm}.txt"))})
        return out

    def shown(o):
        return [[m.group(1), codes(m.group(2))] for m in re.finditer(r"^([A-Z])[ \t]{2,}(\S.*)$", o, re.M)]

    def visible(o):
        return len("".join(o.split()))
    try:
        for lines in job["lines"]:
            s = D.Session(dbms, main=shell_child)
            try:
                a = s.recv()
            except D.Died:
                a = {"at": "end", "how": "died", "o": ""}
            tr.add(op="start", fail=False, state=state(), shown=shown(a.get("o", "")), ended=a.get("at") != "read",
                   t=[], line=[], none=False, extra=0, how=a.get("how", ""))
            for line in lines:
                if a.get("at") != "read":
                    break
                hidden = []
                if isinstance(line, list):      # ["fail", which, line]: a file is not there meanwhile
                    hidden, line = hide(dbms, line[1]), line[2]
                s.send({"line": line})
                try:
                    a = s.recv()
                except D.Died:
                    a = {"at": "end", "how": "died", "o": ""}
                if a.get("res") == "hang":
                    a = {"at": "hang", "how": "hang", "o": ""}
                for away, p in hidden:
                    if os.path.isdir(os.path.dirname(p)):
                        os.replace(away, p)
                o = a.get("o", "")
                tr.add(op="line", fail=bool(hidden), state=state(), shown=shown(o), ended=a.get("at") != "read", t=D.chars(line),
                       line=codes(line), none="no results" in o.lower(), extra=visible(o) - visible(line),
                       how=a.get("how", ""))
            s.kill()
    finally:
        s.kill()
        shutil.rmtree(dbms, ignore_errors=True)
    emit(tr.d)
