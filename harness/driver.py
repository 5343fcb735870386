"""Runs scripts on the real code and writes down what was observed.

    driver.py JOBS OUT ROOT

JOBS   ndjson, one script per line (see run_script)
OUT    ndjson, the recorded traces, in the form spec/Trace.tla reads
ROOT   a folder of this driver's own, with a copy of /repo in ROOT/repo

Started with LD_PRELOAD=shim.so when scripts kill queries or let them fail.
Every session of a user is a process of its own, forked from this one, which
has loaded the code and done nothing else with it.  What is recorded about a
database is what its files say, read here and not through the code under test.
"""
import ctypes
import io
import json
import os
import re
import select
import shutil
import signal
import sys
import time
import traceback
from decimal import Decimal

JOBS, OUT, ROOT = sys.argv[1:4]
REPO = os.path.join(ROOT, "repo")
NOBODY = 65534
QUERY_TIMEOUT = float(os.environ.get("VF_TIMEOUT", "20"))

if os.getuid() == 0:
    os.setgroups([])
    os.setgid(NOBODY)
    os.setuid(NOBODY)
os.chdir(REPO)
os.environ["HOME"] = ROOT
os.environ["TMPDIR"] = ROOT
sys.path.insert(0, os.path.join(REPO, "wiggle_shell"))
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

BASE = time.time()


def us(ts):
    x = int((ts - BASE) * 1e6)
    return max(-2_000_000_000, min(2_000_000_000, x))


SHIM = None
try:
    _l = ctypes.CDLL(None)
    _l.vf_arm.argtypes = [ctypes.c_int] * 5 + [ctypes.c_char_p]
    _l.vf_kinds.restype = ctypes.c_char_p
    SHIM = _l
except AttributeError:
    pass
MODES = {"count": 1, "kill": 2, "torn": 3, "fail": 4, "failall": 5, "short": 6, "full": 7, "stop": 8}

# the code under test, loaded once
_real_stdout = sys.stdout
sys.stdout = io.StringIO()
from wiggle_shell.core.query.query import query  # noqa: E402
from wiggle_shell.core import select_gdbms as catalog  # noqa: E402
from models.wigish import GDBMSFilePath  # noqa: E402

sys.stdout = _real_stdout


# ---------------------------------------------------------------- snapshots
def enc(v, in_list=False):
    if v is None:
        return "n:"
    if isinstance(v, bool):
        return "b:true" if v else "b:false"
    if isinstance(v, int):
        return "i:%d" % v
    if isinstance(v, float):
        r = repr(v)
        if "n" in r:
            return "f!" + r
        a, _, b = (format(Decimal(r), "f") if "e" in r else r).partition(".")
        return "f:" + a + "." + b.rstrip("0")
    if isinstance(v, str):
        return "s:" + v
    if isinstance(v, (list, tuple)):
        return "l:" + "".join(enc(x) + "~" for x in v)
    return "?!" + repr(v)


def props(d):
    return [] if not d else [[str(k), enc(v)] for k, v in d.items()]


def num(x):
    return x if isinstance(x, int) and not isinstance(x, bool) and -1 <= x < 2**31 else -1


def key(x):
    try:
        return num(int(x)) if str(int(x)) == x else -1
    except (TypeError, ValueError):
        return -1


BROKEN = {"ok": False, "nodes": [], "rels": [], "il": [], "ir": [], "inr": [], "ctr": -1}


def word(x):
    """A label or a name, as text whatever it is."""
    return x if isinstance(x, str) else "" if x is None else f"?{x!r}"


def snapshot(folder, name):
    """What the three files of a database say."""
    try:
        with open(os.path.join(folder, f"database_{name}.json")) as f:
            db = json.load(f)
        with open(os.path.join(folder, f"indexes_{name}.json")) as f:
            ix = json.load(f)
        with open(os.path.join(folder, f"wiggle_number_{name}.txt")) as f:
            ctr = int(f.read())
        nodes, rels = [], []
        for k, n in db.items():
            md = n["node_metadata"]
            nodes.append({"k": key(k), "wn": num(md["wn"]), "l": word(n["node_label"]),
                          "p": props(n["properties"]), "c": us(md["created_at"] or 0),
                          "u": md.get("updated_at") is not None})
            for r in n["relations"] or []:
                md2 = r["relationship_metadata"]
                rels.append({"wn": num(md2["wn"]), "hold": num(md["wn"]),
                             "from": num(r["wn_from_node"]), "to": num(r["wn_to_node"]),
                             "n": word(r["relationship_name"]), "p": props(r["properties"]),
                             "c": us(md2["created_at"] or 0),
                             "u": md2.get("updated_at") is not None})
        for x in ix["node_labels"] + ix["relationship_names"]:
            assert isinstance(x, str)
        return {"ok": True, "nodes": nodes, "rels": rels, "il": ix["node_labels"],
                "ir": ix["relationship_names"],
                "inr": [[key(k), [num(x) for x in v]] for k, v in ix["node_relationships"].items()],
                "ctr": ctr}
    except Exception:
        return BROKEN


# ----------------------------------------------------------------- sessions
class Died(Exception):
    pass


HANGS = 0


class Session:
    """A process of its own that runs commands on the real code."""

    def __init__(self, dbms, tz=None, main=None):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                (main or child)(r1, w2, dbms, tz)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r, self.buf = w1, r2, b""
        self.alive = True
        self.gone = False

    def send(self, cmd):
        os.write(self.w, json.dumps(cmd).encode() + b"\n")

    def recv(self, timeout=None):
        global HANGS
        end = time.time() + (timeout or (QUERY_TIMEOUT if HANGS < 2 else 3))
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0 or not select.select([self.r], [], [], left)[0]:
                self.kill()
                HANGS += 1
                return {"res": "hang"}
            d = os.read(self.r, 1 << 20)
            if not d:
                self.kill()
                raise Died()
            self.buf += d
        line, _, self.buf = self.buf.partition(b"\n")
        return json.loads(line)

    def call(self, **cmd):
        if not self.alive:
            raise Died()
        self.send(cmd)
        return self.recv()

    def settle(self, timeout=20):
        """Lets it go on until it has answered, is stopped, waits for something, or is dead."""
        end, still = time.time() + timeout, 0
        while time.time() < end:
            if b"\n" in self.buf or select.select([self.r], [], [], 0.002)[0]:
                return "done"
            pid, st = os.waitpid(self.pid, os.WNOHANG | os.WUNTRACED)
            if pid:
                if os.WIFSTOPPED(st):
                    return "stopped"
                self.gone = True
                return "done"
            with open(f"/proc/{self.pid}/stat") as f:
                still = still + 1 if f.read().rpartition(")")[2].split()[0] == "S" else 0
            if still >= 12:
                return "waits"
        return "waits"

    def go_on(self):
        os.kill(self.pid, signal.SIGCONT)

    def kill(self):
        if not self.alive:
            return
        if self.gone:
            self.alive = False
            os.close(self.w)
            os.close(self.r)
            return
        self.alive = False
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(self.pid, 0)
        os.close(self.w)
        os.close(self.r)


def capture(name):
    """Everything written to standard output and error goes to a file."""
    path = os.path.join(ROOT, f"{name}.{os.getpid()}")
    f = os.open(path, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o644)
    os.unlink(path)
    os.dup2(f, 1)
    os.dup2(f, 2)
    sys.stdout = io.TextIOWrapper(os.fdopen(1, "wb", 0, closefd=False), "utf8", "replace",
                                  write_through=True)
    sys.__stdout__ = sys.stdout
    import logging
    for hd in logging.getLogger().handlers:
        if type(hd) is logging.StreamHandler:
            hd.setStream(sys.stdout)
    return f


def taken(f):
    n = os.lseek(f, 0, os.SEEK_CUR)
    out = os.pread(f, n, 0).decode("utf8", "replace")
    os.ftruncate(f, 0)
    os.lseek(f, 0, os.SEEK_SET)
    return out


def settz(tz):
    if tz:
        os.environ["TZ"] = tz
    else:
        os.environ.pop("TZ", None)
    time.tzset()


def child(r, w, dbms, tz):
    from pathlib import Path
    settz(tz)
    out = capture("child.out")
    inp = os.fdopen(r, "r")
    paths = {}
    folder = Path(dbms)

    def reopen(name):
        return GDBMSFilePath(
            database_file_path=catalog.get_existing_db_file_path(name, folder),
            indexes_file_path=catalog.get_existing_indexes_file_path(name, folder),
            wiggle_number_file_path=catalog.get_existing_wn_file_path(name, folder))

    def show(p):
        return [str(p.database_file_path), str(p.indexes_file_path), str(p.wiggle_number_file_path)]

    for line in inp:
        c = json.loads(line)
        ans = {"res": "ok", "exc": "", "text": ""}
        kind = c["c"]
        taken(out)
        t0 = time.time()
        try:
            if c.get("arm") and kind != "q":
                mode, n, err, part, reads = c["arm"]
                SHIM.vf_arm(MODES[mode], n, err, part, reads, dbms.encode())
            if kind == "q":
                if c["db"] not in paths:
                    paths[c["db"]] = reopen(c["db"])
                t0 = time.time()
                if c.get("arm"):
                    mode, n, err, part, reads = c["arm"]
                    SHIM.vf_arm(MODES[mode], n, err, part, reads, dbms.encode())
                try:
                    query(c["t"], paths[c["db"]])
                finally:
                    if c.get("arm"):
                        ans["n"] = SHIM.vf_disarm()
                        ans["hits"] = SHIM.vf_hits()
                        ans["kinds"] = SHIM.vf_kinds().decode()
            elif kind == "new":
                p = catalog.get_new_gdbms_file_paths(c["name"], folder)
                paths[c["name"]] = p
                ans["paths"] = show(p)
            elif kind == "open":
                p = reopen(c["name"])
                paths[c["name"]] = p
                ans["paths"] = show(p)
            elif kind in ("pick", "ask"):
                was, sys.stdin = sys.stdin, io.StringIO("".join(x + "\n" for x in c["lines"]))
                try:
                    p = (catalog.get_existing_gdbms if kind == "pick" else catalog.create_new_dbms)(folder)
                finally:
                    sys.stdin = was
                paths[os.path.basename(os.path.dirname(str(p.database_file_path)))] = p
                ans["paths"] = show(p)
            elif kind == "del":
                catalog.delete_gdbms(c["name"], folder)
            elif kind == "list":
                ans["list"] = catalog.list_existing_dbms(path_to_dbms_dir=folder)
            elif kind == "pre":
                ans["out"] = request(c["t"])
            elif kind == "crit":
                ans["out"] = criteria(c["t"], c["a"])
            elif kind == "read":
                ans["out"] = parts(c["t"])
            elif kind == "st":
                ans["ret"] = storage(c, paths)
            else:
                raise AssertionError(kind)
        except Exception as e:
            ans["res"], ans["exc"], ans["text"] = "err", type(e).__name__, str(e)[:200]
        except SystemExit as e:
            ans["res"], ans["exc"], ans["text"] = "err", "SystemExit", str(e)[:200]
        if c.get("arm") and kind != "q":
            ans["n"] = SHIM.vf_disarm()
            ans["hits"] = SHIM.vf_hits()
            ans["kinds"] = SHIM.vf_kinds().decode()
        t1 = time.time()
        o = taken(out)
        ans.update(t0=us(t0), t1=us(t1), none="no results" in o.lower(), o=o[-2000:])
        os.write(w, json.dumps(ans).encode() + b"\n")


# ------------------------------------------------------- the search request
def request(text):
    from wiggle_query_language.clauses.find import parse_find_statement_from_query_string
    from wiggle_query_language.clauses.find.transform.find_pre import process_parsed_find
    parsed = parse_find_statement_from_query_string(text)
    return asked(process_parsed_find(parsed_find=parsed))


def criteria(text, crit):
    """The request made from a FIND and criteria, twice, and what the criteria are then."""
    from models.wql import ParsedCriteria, ParsedCriteriaYesNo
    from wiggle_query_language.clauses.find import parse_find_statement_from_query_string
    from wiggle_query_language.clauses.find.transform.find_pre import process_parsed_find
    parsed = parse_find_statement_from_query_string(text)
    had = ParsedCriteria(raw_statement="CRITERIA;", criteria_handle_props={
        h: ParsedCriteriaYesNo(props_dict_yes_match=yes, props_dict_no_match=no) for h, yes, no in crit})
    outs = [asked(process_parsed_find(parsed_find=parsed, parsed_criteria=had)) for _ in (1, 2)]
    outs.append(asked(process_parsed_find(parsed_find=parsed)))
    return {"outs": outs,
            "crit": [{"h": h, "yes": props(x.props_dict_yes_match), "no": props(x.props_dict_no_match)}
                     for h, x in had.criteria_handle_props.items()]}


def parts(text):
    """The parts a query is read into."""
    from wiggle_query_language.clauses.parsing_helpers.parse_properties import get_property_dict
    from wiggle_shell.core.query.query import parse_query_string
    read = parse_query_string(text)

    def pattern(x):
        sides = [("left_node", "left_middle_rel"), ("middle_node", "middle_right_rel"), ("right_node", None)]
        ns, rs = [], []
        for a, b in sides:
            if getattr(x, a):
                ns.append({"l": word(getattr(x, a + "_label")), "h": word(getattr(x, a + "_handle")),
                           "p": props(get_property_dict(getattr(x, a + "_props") or ""))})
            if b and getattr(x, b):
                t = getattr(x, b).strip()
                rs.append({"n": word(getattr(x, b + "_label")), "h": word(getattr(x, b + "_handle")),
                           "p": props(get_property_dict(getattr(x, b + "_props") or "")),
                           "d": t[:1].replace("-", "") + t[-1:].replace("-", "")})
        return {"ns": ns, "rs": rs, "nn": x.number_of_nodes, "nr": x.number_of_relationships, "hs": sorted(map(word, x.pattern_handles))}
    find, rep = read.find_parsed, read.report_parsed
    return {"makes": [{"t": chars(m.raw_statement), "ps": [pattern(x) for x in m.parsed_pattern_list]} for m in read.make_parsed or []],
            "find": [{"t": chars(find.raw_statement), "ps": [pattern(find.parsed_pattern)], "hs": sorted(map(word, find.parsed_pattern_handles))}] if find else [],
            "rep": [{"t": chars(rep.raw_statement), "x": chars(rep.extracted_report)}] if rep else []}


def asked(fp):
    """A search request, as it is recorded."""
    def rel(x):
        return {"n": word(x.rel_name), "h": word(x.rel_handle), "p": props(x.props_dict_yes), "no": props(x.props_dict_no)}

    def node(x):
        if x is None:
            return {"on": False, "l": "", "h": "", "p": [], "no": [], "rels": []}
        return {"on": True, "l": word(x.node_label), "h": word(x.node_handle),
                "p": props(x.props_dict_yes), "no": props(x.props_dict_no), "rels": [rel(y) for y in x.relationships]}
    return {"ns": [node(fp.left_node), node(fp.middle_node), node(fp.right_node)],
            "labels": sorted(word(x) for x in fp.node_labels),
            "names": sorted(word(x) for x in fp.relationship_names)}


# ---------------------------------------------------------------- the store
def storage(c, paths):
    from wiggle_query_language.graph.database import database as D
    from wiggle_query_language.graph.database.indexes import node_labels_index as L
    from wiggle_query_language.graph.database.indexes import node_relationships_index as R
    from wiggle_query_language.graph.database.indexes import relationship_names_index as N
    from wiggle_query_language.graph.state import wiggle_number as W
    p = paths[c["db"]]
    db, ix, wn = p.database_file_path, p.indexes_file_path, p.wiggle_number_file_path
    f, a = c["f"], c.get("a")
    sure = {"im_sure": True} if c.get("sure") == "yes" else {"im_sure": False} if c.get("sure") == "no" else {}
    if f == "add":
        D.add_item_to_database(db, {k: v for k, v in a})
    elif f == "load":
        return rawdb(D.load_database(db))
    elif f == "wipe":
        D.wipe_database(db, **sure)
    elif f == "addl":
        L.add_items_to_node_labels_index(ix, set(a))
    elif f == "loadl":
        return sorted(L.load_node_labels_index(ix))
    elif f == "wipel":
        L.wipe_node_labels_index(ix, **sure)
    elif f == "addn":
        N.add_items_to_relationship_names_index(ix, set(a))
    elif f == "loadn":
        return sorted(N.load_relationship_names_index(ix))
    elif f == "wipen":
        N.wipe_relationship_names_index(ix, **sure)
    elif f == "addr":
        R.add_items_to_node_relationships_index(ix, {k: set(v) for k, v in a})
    elif f == "loadr":
        return [[str(k), sorted(v)] for k, v in R.load_node_relationships_index(ix).items()]
    elif f == "wiper":
        R.wipe_node_relationships_index(ix, **sure)
    elif f == "get":
        return W.get_current_wiggle_number(wn)
    elif f == "set":
        W.update_wiggle_number(wn, a)
    else:
        raise AssertionError(f)
    return []


def rawdb(d):
    return [[str(k), json.dumps(v, sort_keys=True)] for k, v in d.items()]


def rawstore(folder, name):
    try:
        with open(os.path.join(folder, f"database_{name}.json")) as f:
            db = json.load(f)
        with open(os.path.join(folder, f"indexes_{name}.json")) as f:
            ix = json.load(f)
        with open(os.path.join(folder, f"wiggle_number_{name}.txt")) as f:
            ctr = int(f.read())
        return {"ok": True, "db": rawdb(db), "il": ix["node_labels"], "ir": ix["relationship_names"],
                "inr": [[k, v] for k, v in ix["node_relationships"].items()], "ctr": ctr,
                "more": sorted(set(ix) - {"node_labels", "relationship_names", "node_relationships"})}
    except Exception:
        return {"ok": False, "db": [], "il": [], "ir": [], "inr": [], "ctr": -1, "more": []}


# ------------------------------------------------------------------ scripts
def chars(t):
    return list(t)


class Trace:
    def __init__(self, tid, n):
        self.d = {"id": tid, "n": n, "snaps": [], "ev": [], "start": [1] * n}
        self.seen = {}
        self.snap({"ok": True, "nodes": [], "rels": [], "il": [], "ir": [], "inr": [], "ctr": 0})

    def snap(self, s):
        k = json.dumps(s, sort_keys=True)
        if k not in self.seen:
            self.d["snaps"].append(s)
            self.seen[k] = len(self.d["snaps"])
        return self.seen[k]

    def add(self, **e):
        self.d["ev"].append(e)
        return len(self.d["ev"])


class World:
    """The databases of one script, in a folder of their own."""

    def __init__(self, names):
        self.dbms = os.path.join(ROOT, "dbms")
        shutil.rmtree(self.dbms, ignore_errors=True)
        os.mkdir(self.dbms)
        self.names = names
        self.s = None
        self.last = {}
        self.pool = {}

    def leave(self):
        if self.s and not any(self.s is x for x in self.pool.values()):
            self.s.kill()

    def session(self, tz=None):
        """A new session; those of the pool stay alive."""
        self.leave()
        self.s = Session(self.dbms, tz)

    def use(self, k, tz):
        if k not in self.pool or not self.pool[k].alive:
            if k in self.pool:
                self.pool[k].kill()
            x = Session(self.dbms, tz)
        else:
            x = self.pool[k]
        self.leave()
        self.pool[k] = self.s = x

    def folder(self, name):
        return os.path.join(self.dbms, name)

    def bytes(self, name):
        d = self.folder(name)
        out = {}
        if os.path.isdir(d):
            for f in sorted(os.listdir(d)):
                with open(os.path.join(d, f), "rb") as h:
                    out[f] = h.read()
        return out

    def restore(self, name, content):
        d = self.folder(name)
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        for f, b in content.items():
            with open(os.path.join(d, f), "wb") as h:
                h.write(b)

    def snap(self, name):
        return snapshot(self.folder(name), name)

    def close(self):
        for x in [self.s, *self.pool.values()]:
            if x:
                x.kill()
        shutil.rmtree(self.dbms, ignore_errors=True)


def run_query(w, tr, d, text, arm=None):
    name = w.names[d - 1]
    try:
        a = w.s.call(c="q", db=name, t=text, arm=arm)
    except Died:
        a = {"res": "died", "exc": "", "t0": 0, "t1": 0, "none": False}
    if a["res"] == "hang":
        a = {"res": "hang", "exc": "", "t0": 0, "t1": 0, "none": False}
    if arm is None:
        mode = "n"
    elif a["res"] == "died":
        mode = "kill"
    elif a["res"] == "hang":
        mode = "fail"
    elif a.get("hits", 0):
        mode = "fail"
    else:
        mode = "n"          # the point was not reached
    oth = []
    for j, nm in enumerate(w.names, 1):
        b = w.bytes(nm)
        if j != d and nm in w.last and w.last[nm] != b:
            oth.append(j)
        w.last[nm] = b
    e = dict(op="q", db=d, t=chars(text), res=a["res"], exc=a["exc"], none=a["none"], t0=a["t0"] - 3000,
             t1=a["t1"] + 3000, post=tr.snap(w.snap(name)), oth=oth, mode=mode)
    tr.add(**e)
    if a["res"] in ("died", "hang"):
        w.session()
    return a


def run_script(job, emit):
    """steps:
    ["new", d]  ["renew", d]: deleted and made again  ["sess", tz]  ["q", d, text]  ["q", d, text, arm]  ["sleep", ms]
    ["use", k, tz]: go on in session k, which stays alive beside the others
    ["cmp", prop, what, [d...], [event...], same]   ["pre", text]   ["crit", text, [[handle, yes, no]...]]   ["read", text]
    ["enum", d, text, modes, follow]  interrupt this query at each of its points
    """
    names = job.get("dbs") or ["db1"]
    tr = Trace(job["id"], len(names))
    w = World(names)
    w.session(job.get("tz"))
    try:
        for st in job["steps"]:
            k = st[0]
            if k in ("new", "renew"):
                name = names[st[1] - 1]
                try:
                    if k == "renew":
                        w.s.call(c="del", name=name)
                    a = w.s.call(c="new", name=name)
                except Died:
                    a = {"res": "err"}
                w.last[name] = w.bytes(name)
                tr.add(op="new", db=st[1], res=a["res"], post=tr.snap(w.snap(name)))
                if a["res"] != "ok":
                    break
            elif k == "sess":
                w.session(st[1] if len(st) > 1 else None)
            elif k == "use":
                w.use(st[1], st[2] if len(st) > 2 else None)
            elif k == "q":
                run_query(w, tr, st[1], st[2], st[3] if len(st) > 3 else None)
            elif k == "sleep":
                time.sleep(st[1] / 1000)
            elif k == "cmp":
                tr.add(op="cmp", prop=st[1], what=st[2], dbs=st[3], evs=st[4], same=st[5])
            elif k == "pre":
                try:
                    a = w.s.call(c="pre", t=st[1])
                except Died:
                    a = {"res": "died"}
                if a["res"] in ("died", "hang"):
                    w.session()
                tr.add(op="pre", t=chars(st[1]), res=a["res"], exc=a.get("exc", ""),
                       out=a.get("out") or {"ns": [], "labels": [], "names": []})
            elif k == "crit":
                try:
                    a = w.s.call(c="crit", t=st[1], a=st[2])
                except Died:
                    a = {"res": "died"}
                if a["res"] in ("died", "hang"):
                    w.session()
                tr.add(op="crit", t=chars(st[1]), res=a["res"], exc=a.get("exc", ""),
                       crit=[{"h": h, "yes": props(y), "no": props(n)} for h, y, n in st[2]],
                       out=a.get("out") or {"outs": [], "crit": []})
            elif k == "read":
                try:
                    a = w.s.call(c="read", t=st[1])
                except Died:
                    a = {"res": "died"}
                if a["res"] in ("died", "hang"):
                    w.session()
                tr.add(op="read", t=chars(st[1]), res=a["res"], exc=a.get("exc", ""),
                       out=a.get("out") or {"makes": [], "find": [], "rep": []})
            elif k == "enum":
                enumerate_points(job, w, names, st, emit)
            else:
                raise AssertionError(k)
        emit(tr.d)
    finally:
        w.close()


def enumerate_points(job, w, names, st, emit):
    """One trace for each point at which the query can be interrupted."""
    _, d, text, modes, follow = st
    name = names[d - 1]
    before = w.bytes(name)
    w.session()
    total = {}
    for reads in {m[4] for m in modes}:
        a = w.s.call(c="q", db=name, t=text, arm=["count", 0, 0, 0, reads])
        total[reads] = a.get("kinds", "")
        w.restore(name, before)
    for mode, _, err, part, reads in modes:
        for n in range(1, len(total[reads]) + 1):
            if mode in ("torn", "short") and total[reads][n - 1] != "w":
                continue        # nothing is written in part: as kill, or failall
            w.restore(name, before)
            w.session()
            tr = Trace("%s/%s.%d.%d.%d" % (job["id"], mode, err, part, n), len(names))
            tr.d["start"][d - 1] = tr.snap(w.snap(name))
            w.last = {}
            run_query(w, tr, d, text, [mode, n, err, part, reads])
            for f in follow:
                if f[0] == "sess":
                    w.session()
                else:
                    run_query(w, tr, d, f[1], f[2] if len(f) > 2 else None)
            emit(tr.d)
    w.restore(name, before)
    w.session()
    w.last = {}


# ---------------------------------------------------------------- schedules
def sched_script(job, emit):
    """Several queries at the same time, each in a session of its own.

    setup: [[d, text]...]   queries: [[d, text]...]   follow: [[d, text]...]
    acts:  ["start", k, a, b]  query k runs until a per mille of its file operations, and for its
                               next stop b operations further; 0: it does not stop
           ["go", k]  it goes on   ["kill", k]   ["look", d, text]: a query of another session
    each:  k: once for each point of query k, instead of what its start says
    """
    names = job.get("dbs") or ["db1", "db2"]
    w = World(names)
    w.session()
    tr0 = Trace(job["id"] + "/setup", len(names))
    try:
        for d in range(1, len(names) + 1):
            if w.s.call(c="new", name=names[d - 1])["res"] != "ok":
                return
        tr0.d["start"] = [tr0.snap(w.snap(nm)) for nm in names]
        for d, t in job["setup"]:
            run_query(w, tr0, d, t)
        emit(tr0.d)
        before = {nm: w.bytes(nm) for nm in names}
        total = []
        for d, t in job["queries"]:
            w.session()
            try:
                a = w.s.call(c="q", db=names[d - 1], t=t, arm=["count", 0, 0, 0, 1])
            except Died:
                a = {}
            total.append(len(a.get("kinds", "")))
            for nm in names:
                w.restore(nm, before[nm])
        k = job.get("each", 0)
        if not k:
            one_schedule(job, w, names, job["id"], total, 0, 0, emit)
            return
        for n in range(1, total[k - 1] + 1):
            for nm in names:
                w.restore(nm, before[nm])
            one_schedule(job, w, names, f"{job['id']}/{n}", total, k, n, emit)
    finally:
        w.close()


def one_schedule(job, w, names, tid, total, each, n, emit):
    tr = Trace(tid, len(names))
    tr.d["start"] = [tr.snap(w.snap(nm)) for nm in names]
    w.last = {}
    w.session()
    looker = w.s
    qs = [dict(db=d, t=chars(t), res="hang", exc="", none=False, mode="n") for d, t in job["queries"]]
    ss, state, looks = {}, {}, []

    def settle(k):
        state[k] = ss[k].settle()
        if state[k] != "done":
            return
        try:
            a = ss[k].recv()
        except Died:
            a = {"res": "died", "exc": "", "none": False}
        qs[k - 1].update(res=a["res"], exc=a.get("exc", ""), none=a.get("none", False))
        ss[k].kill()

    def others(k):
        for j in list(ss):
            if j != k and state[j] == "waits":
                settle(j)

    def look(d, t):
        nonlocal looker
        pre = [tr.snap(w.snap(nm)) for nm in names]
        old = {nm: w.bytes(nm) for nm in names}
        if not looker.alive:
            w.session()
            looker = w.s
        try:
            a = looker.call(c="q", db=names[d - 1], t=t, arm=None)
        except Died:
            a = {"res": "died", "exc": "", "none": False}
        still = all(state[j] in ("stopped", "done") for j in ss)
        looks.append(dict(db=d, t=chars(t), res=a["res"], exc=a.get("exc", ""), none=a.get("none", False),
                          pre=pre[d - 1], post=tr.snap(w.snap(names[d - 1])),
                          oth=[j for j, nm in enumerate(names, 1) if still and j != d and w.bytes(nm) != old[nm]],
                          still=still, busy=sorted({job["queries"][j - 1][0] for j in ss if state[j] != "done"})))

    try:
        for a in job["acts"] + [["go", k] for k in range(1, len(qs) + 1)] * 2:
            if a[0] == "look":
                look(a[1], a[2])
                continue
            k = a[1]
            if a[0] == "start" and k not in ss:
                d, t = job["queries"][k - 1]
                at = n if k == each else 1 + a[2] * total[k - 1] // 1000 if a[2] else 0
                ss[k] = Session(w.dbms)
                ss[k].send(dict(c="q", db=names[d - 1], t=t, arm=["stop", at, 0, a[3], 1] if at else None))
                settle(k)
            elif k in ss and state[k] != "done":
                if a[0] == "kill":
                    ss[k].kill()
                    state[k] = "done"
                    qs[k - 1].update(res="died", mode="kill")
                else:
                    if state[k] == "stopped":
                        ss[k].go_on()
                    settle(k)
                others(k)
        end = time.time() + QUERY_TIMEOUT
        while any(state[k] != "done" for k in ss) and time.time() < end:
            for k in ss:
                if state[k] != "done":
                    if state[k] == "stopped":
                        ss[k].go_on()
                    settle(k)
    finally:
        for k in ss:
            if state.get(k) != "done":
                global HANGS
                HANGS += 1
            ss[k].kill()
    started = sorted(ss)
    tr.add(op="par", db=1, t=[], qs=[qs[k - 1] for k in started], looks=looks,
           post=[tr.snap(w.snap(nm)) for nm in names])
    w.session()
    for d, t in job.get("follow", []):
        run_query(w, tr, d, t)
    emit(tr.d)


def main():
    kinds = {"script": run_script, "sched": sched_script}
    try:
        import driver_more
        kinds.update(driver_more.kinds(sys.modules[__name__]))
    except ImportError:
        pass
    with open(JOBS) as jobs, open(OUT, "w") as out:
        def emit(tr):
            out.write(json.dumps(tr) + "\n")
        for line in jobs:
            if HANGS > 8:
                break
            job = json.loads(line)
            kinds[job.get("kind", "script")](job, emit)
            out.flush()


if __name__ == "__main__":
    main()
