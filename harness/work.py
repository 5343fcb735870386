"""What each check runs on the real code.

A workload is a function of (rng, n) that gives scripts for the driver.  The
scripts only say what to do; what must come of it is decided by the
specification.  Everything random comes from the seed.
"""
import re

import gen
from gen import Rng


# ------------------------------------------------------------- query scripts
def texts_jobs(prefix, texts, per=20):
    """Each text of a complete family, on a database that earlier ones left."""
    return [{"id": f"{prefix}{k}", "steps": [["new", 1]] + [["q", 1, t] for t in texts[k:k + per]]}
            for k in range(0, len(texts), per)]


def histories(r, n, prefix="h", modes=("ok",), length=10, **kw):
    jobs = []
    for k in range(n):
        gen.vocab(r)
        steps, made = [["new", 1]], []
        for _ in range(length):
            mode = r.pick(modes)
            if mode in ("find", "ok") and made and r.chance(0.5 if mode == "find" else 0.15):
                t = wanted(r, r.pick(made), True)
            elif mode == "ok":
                q = gen.query(r, **kw)
                made.append(q)
                t = gen.text(r, q)
            elif mode == "mut":
                t = gen.text(r, gen.mutate(r, gen.query(r)))
            elif mode == "small":
                t = gen.text(r, gen.query(r, kinds=r.pick(["m", "f"]), npat=1, p=0.2))
            elif mode == "make":
                q = gen.query(r, kinds=r.pick(["m", "m", "mm"]), **kw)
                made.append(q)
                t = gen.text(r, q)
            elif mode == "find":
                t = gen.text(r, gen.query(r, kinds="f", **kw))
            else:
                t = gen.text(r, gen.break_query(r, mode if mode in gen.BREAKS else r.pick(gen.BREAKS)))
            steps.append(["q", 1, t])
            if r.chance(0.05):
                steps.append(["sess"])
            elif r.chance(0.08):
                steps.append(["use", r.pick([1, 2, 3])])
            elif r.chance(0.02):
                steps.append(["renew", 1])
        jobs.append({"id": f"{prefix}{k}", "steps": steps})
    return jobs


def shuffled(r, toks):
    """The same query with other words of the same length."""
    out, new = [], {}
    for t in toks:
        if t.replace("_", "a").isalnum() and t not in ("S", "W", "G", "make", "find", "report", "true", "false", "null") and not t.isdigit() \
                and not t[0].isdigit():
            c = list(t)
            r.shuffle(c)
            x = "".join(c)
            t = new.setdefault(t, x[:-1] + r.pick("ABXYZ") if t.isupper() or r.chance(0.5) else x[:-1] + r.pick("abxyz"))
            if t[0].isdigit():
                t = "A" + t[1:]
        out.append(t)
    return out


def reborn(r, n, prefix="n"):
    """A database that is deleted and made again under its name, with other databases beside it."""
    jobs = []
    for k in range(n):
        gen.vocab(r)
        steps = [["new", 1], ["new", 2]]
        for _ in range(4):
            q = gen.query(r, kinds=r.pick(["m", "m", "mm"]), p=0.3)
            d = r.pick([1, 1, 1, 2])
            for _ in range(r.pick([1, 1, 2, 3])):
                steps.append(["q", d, gen.text(r, q)])
                steps.append(["q", d, wanted(r, q, True)])
                if r.chance(0.3):
                    steps.append(["use", r.pick([1, 2])])
                q = shuffled(r, q)
                if r.chance(0.6):
                    steps.append(["renew", d])
                    if r.chance(0.3):
                        steps.append(["q", d, wanted(r, q)])
        jobs.append({"id": f"{prefix}{k}", "dbs": ["db1", "db2"], "steps": steps})
    return jobs


def many(r, n, prefix="z"):
    """Many labels and many names in one graph, each of them asked for."""
    jobs = []
    for k in range(n):
        gen.vocab(r)
        c = r.pick([5, 12, 30, 70])
        labels = list(dict.fromkeys(gen.word(r) for _ in range(c)))
        names = list(dict.fromkeys(gen.upper(r) for _ in range(c)))
        few = r.pick([labels[:1], labels[-2:], labels])
        steps, pats = [["new", 1]], []
        for j in range(max(len(labels), len(names))):
            lab = r.pick([few, [labels[j % len(labels)]]])
            p = gen.node(r, None, lab, 0.1) + gen.rel(r, None, [names[j % len(names)]], 0.1) + gen.node(r, None, lab, 0.1)
            pats.append(p if r.chance(0.8) else gen.node(r, None, [labels[j % len(labels)]], 0.1))
        while pats:
            m, q = r.pick([1, 3, 10]), ["make", "S"]
            now, pats = pats[:m], pats[m:]
            for j, p in enumerate(now):
                q += ([","] if j else []) + p
            steps.append(["q", 1, gen.text(r, q + [";"])])
            steps.append(["q", 1, gen.text(r, ["find", "S"] + r.pick(now) + [";"])])
        for j in r.sample(range(len(names)), min(len(names), 8)):
            steps.append(["q", 1, gen.text(r, ["find", "S"] + gen.node(r, None, labels[:1], 0) + gen.rel(r, None, [names[j]], 0)
                                          + gen.node(r, None, r.pick([labels, ["Nothing"]]), 0) + [";"])])
        for j in r.sample(range(len(labels)), min(len(labels), 8)):
            steps.append(["q", 1, gen.text(r, ["find", "S"] + gen.node(r, None, [labels[j]], 0) + [";"])])
        jobs.append({"id": f"{prefix}{k}", "steps": steps})
    return jobs


def long_histories(r, n, length=120, prefix="l"):
    """Many small queries: numbers with more and more digits."""
    jobs = []
    for k in range(n):
        gen.vocab(r)
        steps = [["new", 1]]
        for j in range(length):
            kinds = r.pick(["m", "m", "m", "f"])
            steps.append(["q", 1, gen.plain(gen.query(r, kinds=kinds, npat=1, p=0.1))])
            if r.chance(0.1):
                steps.append(["use", r.pick([1, 2, 3])])
        jobs.append({"id": f"{prefix}{k}", "steps": steps})
    return jobs


def large(r, n, prefix="g", queries=6):
    """Graphs of hundreds of nodes, numbers of four digits, and small queries on them."""
    jobs = []
    for k in range(n):
        gen.vocab(r)
        steps = [["new", 1]]
        for j in range(queries):
            big = gen.make(r, npat=r.pick([30, 60]), n=r.pick([None, 3]), p=0.03) if r.chance(0.85) else gen.make(r, npat=120, n=1, p=0)
            steps.append(["q", 1, gen.text(r, big)])
            if r.chance(0.3):
                steps.append(["use", r.pick([1, 2])])
            small = gen.query(r, kinds="m", npat=1)
            steps.append(["q", 1, gen.text(r, small)])
            steps.append(["q", 1, wanted(r, r.pick([small, big]), True)])
        steps.append(["q", 1, gen.text(r, gen.break_query(r, r.pick(gen.BREAKS)))])
        jobs.append({"id": f"{prefix}{k}", "steps": steps})
    return jobs


def wide(r, n, prefix="d", each=110, times=3):
    """Hundreds of labels and of names, then FINDs for some of them and for others."""
    jobs = []
    for k in range(n):
        gen.vocab(r)
        a, b = gen.word(r), gen.upper(r)
        steps, m = [["new", 1]], 0
        for _ in range(times):
            t = []
            for j in range(each):
                t += [",", "(", ":", f"{a}{m}", ")", "-", "[", ":", f"{b}{m}", "]", "-", ">", "(", ":", f"{a}_{m}", ")"]
                m += 1
            steps += [["q", 1, gen.plain(["make", "S"] + t[1:] + [";"])], ["q", 1, gen.text(r, gen.make(r, npat=1))]]
            for _ in range(8):
                j, i = r.randrange(m), r.randrange(m + m // 3)
                steps.append(["q", 1, r.pick([f"FIND (:{a}{j});", f"FIND (:{a}_{j});", f"FIND (:{a}{i});", f"FIND (:{a}{i})-[:{b}{i}]->(:{a}_{i});",
                                              f"FIND (:{a}{j})-[:{b}{j}]->(:{a}_{j});", f"FIND (:{a}_{j})<-[:{b}{j}]-(:{a}{j});", f"FIND (:{a}{j})-[:{b}{i}]->(:{a}_{j});"])])
        jobs.append({"id": f"{prefix}{k}", "steps": steps})
    return jobs


def big_queries(r, n, prefix="b"):
    """Queries with many patterns, many statements, many or long properties."""
    jobs = []
    for k in range(n):
        gen.vocab(r)
        steps = [["new", 1]]
        for _ in range(4):
            c = r.randrange(4)
            if c == 0:
                t = gen.make(r, npat=r.pick([12, 30, 60, 150]), p=0.1)
            elif c == 1:
                t = []
                for _ in range(r.pick([8, 15])):
                    t += gen.make(r, npat=r.pick([1, 2]), p=0.1)
            elif c == 2:
                names = [f"p{x}" for x in range(r.pick([15, 40]))]
                t = ["make", "S", "(", ":", "A", "{"]
                for j, nm in enumerate(names):
                    t += ([","] if j else []) + [nm, ":"] + gen.value(r)
                t += ["}", ")"] + gen.rel(r) + gen.node(r) + [";"]
            else:
                v = ["["]
                for j in range(r.pick([20, 80])):
                    v += ([","] if j else []) + [gen.scalar(r)]
                t = ["make", "S", "(", ":", "A", "{", "a", ":", "'" + "long text " * r.pick([30, 150]) + "'", ",", "b", ":"] + v + ["]", "}", ")", ";"]
            steps.append(["q", 1, gen.text(r, t)])
            steps.append(["q", 1, gen.text(r, gen.query(r))])
        jobs.append({"id": f"{prefix}{k}", "steps": steps})
    return jobs


def several(r, n, prefix="d", dbs=3, length=14):
    """Several databases, and sessions that stay alive side by side."""
    jobs = []
    for k in range(n):
        gen.vocab(r)
        names = r.pick([["db1", "db2", "db3"], ["a", "aa", "a_a"], ["x", "X", "x.json"], ["db", "database_db", "db.db"]])[:dbs]
        steps = [["new", d + 1] for d in range(dbs)]
        for _ in range(length):
            if r.chance(0.25):
                steps.append(["use", r.pick([1, 2, 3])])
            t = gen.query(r) if r.chance(0.8) else gen.break_query(r, r.pick(gen.BREAKS))
            steps.append(["q", r.randrange(dbs) + 1, gen.text(r, t)])
            if r.chance(0.06):
                steps.append(["renew", r.randrange(dbs) + 1])
        jobs.append({"id": f"{prefix}{k}", "dbs": names, "steps": steps})
    return jobs


def alternating(r, n, prefix="a", length=22):
    """A few queries, asked over and over by sessions that live side by side; the
    same on a second database, where every query has a session of its own."""
    jobs = []
    for k in range(n):
        gen.vocab(r)
        made = [gen.query(r, kinds=r.pick(["m", "m", "mm"]), npat=1) for _ in range(r.pick([2, 3, 4]))]
        pool = [gen.text(r, q) for q in made] + [wanted(r, q, r.chance(0.5)) for q in made]
        pool += [gen.text(r, gen.break_query(r, r.pick(gen.BREAKS))) for _ in range(r.pick([0, 1, 2]))]
        near = r.pick(made)
        pool += [gen.plain(near), gen.plain(similar(r, near)), gen.plain(similar(r, r.pick(made)))]
        pool += [gen.text(r, broken_twin(r, r.pick(made)))] + [gen.text(r, gen.query(r, kinds="f", p=0.1))]
        steps, ev, who = [["new", 1], ["new", 2]], 2, 0
        for _ in range(length):
            t = r.pick(pool)
            if r.chance(0.6):
                who = r.pick([1, 2, 3])
                steps.append(["use", who])
            steps += [["q", 1, t], ["sess"], ["q", 2, t], ["cmp", "C20", "the session", [1, 2], [ev + 1, ev + 2], True]]
            steps.append(["use", who or 1])
            ev += 3
        jobs.append({"id": f"{prefix}{k}", "dbs": ["db1", "db2"], "steps": steps + by_turns(r, k)})
    return jobs


def by_turns(r, k):
    """What one session looked for without success is made by another, and looked for again;
    what it found is made once more, on the database or on another with the same text."""
    steps = []
    for j in range(3):
        a, b = f"{gen.word(r)}{k}_{j}", f"{gen.upper(r)}{k}_{j}"
        seek = r.pick([f"FIND (:{a});", f"FIND (:{a})-[:{b}]->(:{a});", f"FIND (n:{a})<-[:{b}]-(:{a});"])
        make = r.pick([f"MAKE (:{a});MAKE (:{a})-[:{b}]->(:{a});", f"MAKE (:{a})<-[:{b}]-(:{a});", f"MAKE (:{a})-[:{b}]->(:{a}), (:{a});"])
        one, two = r.sample([1, 2, 3], 2)
        steps += [["use", one], ["q", 1, seek], ["q", 2, seek], ["use", two], ["q", 1, make], ["use", one], ["q", 1, seek], ["q", 2, seek],
                  ["use", two], ["q", 2, seek], ["q", 1, seek], ["q", 1, make], ["use", one], ["q", 1, seek]]
    return steps


def similar(r, toks):
    """Nearly the same query: a value, a word or what is in quotes is a little different."""
    at = [j for j, t in enumerate(toks) if t[0] in "'\"" or t.isdigit() or t in ("true", "false", "null")]
    at = at or [j for j, t in enumerate(toks) if t[0].isalpha() and t not in ("S", "W", "G", "make", "find", "report") and toks[j - 1] != "["]
    if not at:
        return toks
    j = r.pick(at)
    t = toks[j]
    if t[0] in "'\"":          # what is in quotes
        q, x = t[0], t[1:-1]
        new = [q + x.replace(" ", "  ") + q, q + x.replace(" ", "\t") + q, q + " ".join(x.split()) + q, q + " " + x + q, q + x + " " + q, q + x.swapcase() + q, q + x + x[-1:] + q]
        new = [y for y in new if y != t]
    elif t.isdigit():
        new = [t + ".0", "'" + t + "'", "0" + t, t + "0"]
    elif t in ("true", "false", "null"):
        new = ["'x" + t + "'", "true" if t != "true" else "false", "1", "0"]
    else:
        new = [t + "_", "_" + t, t + t[-1]]
    return toks[:j] + [r.pick(new)] + toks[j + 1:]


def many_statements(r, n, prefix="o"):
    """One query with very many statements, then the usual."""
    jobs = []
    for k in range(n):
        gen.vocab(r)
        t = []
        for j in range(r.pick([40, 70, 110])):
            t += gen.make(r, npat=1, n=1, p=0.02) if r.chance(0.9) else gen.make(r, npat=1, p=0)
        one = gen.text(r, gen.make(r, npat=1, n=1, p=0.1))
        jobs.append({"id": f"{prefix}{k}", "steps": [["new", 1], ["q", 1, gen.text(r, t)], ["q", 1, gen.text(r, gen.query(r))],
                                                    ["q", 1, one * r.pick([35, 70])], ["q", 1, gen.text(r, gen.query(r))]]})
    return jobs


def broken_twin(r, toks):
    """The same query, with a value that is not one."""
    at = [j for j, t in enumerate(toks) if t == "}"]
    if not at:
        at = [j for j, t in enumerate(toks) if t == ")"]
        j = r.pick(at)
        return toks[:j] + ["{", "c", ":", r.pick(["True", "Null", "[1 2]", "1 2"]), "}"] + toks[j:]
    j = r.pick(at)
    return toks[:j] + ([","] if toks[j - 1] != "{" else []) + ["c9", ":", r.pick(["True", "Null", "[1 2]", "1 2"])] + toks[j:]


# ---------------------------------------------------------- layouts (C10)
def relayout(r, n, prefix="y", copies=4):
    """One query in several layouts, each on a database of its own."""
    jobs = []
    for k in range(n):
        gen.vocab(r)
        steps = [["new", d + 1] for d in range(copies)]
        ev = copies
        for _ in range(4):
            toks = gen.query(r)
            here = []
            for d in range(copies):
                t = gen.plain(toks) if d == 0 else gen.layout(r, toks, r.pick([0.0, 0.05, 0.3, 0.7]))
                steps.append(["q", d + 1, t])
                ev += 1
                here.append(ev)
            steps.append(["cmp", "C10", "the layout of the query", list(range(1, copies + 1)), here, True])
            ev += 1
        jobs.append({"id": f"{prefix}{k}", "dbs": [f"db{d}" for d in range(copies)], "steps": steps})
    return jobs


# ---------------------------------------------------------- sessions (C20)
def routes(r, n, prefix="r"):
    """The same queries along different routes, then the same FINDs."""
    jobs = []
    for k in range(n):
        gen.vocab(r)
        qs = [gen.query(r, kinds=r.pick(["m", "m", "m", "mm"]), npat=r.pick([1, 1, 2])) for _ in range(r.pick([2, 3, 4, 6]))]
        txt = [gen.text(r, q) for q in qs]
        # db1 one process, db2 a process each, db3 with other things in between, db4 one query, db5 two processes in turn
        steps = [["new", d] for d in range(1, 7)]
        ev, evs = 6, []

        def q(d, t, mine=True):
            nonlocal ev
            steps.append(["q", d, t])
            ev += 1
            if mine:
                evs.append(ev)
            return ev

        def other(d):
            nonlocal ev
            c = r.randrange(7)
            if c == 0:
                q(d, gen.text(r, gen.query(r, kinds="f")), False)
            elif c == 1:
                q(d, gen.text(r, gen.break_query(r, r.pick(gen.BREAKS))), False)
            elif c == 2:
                q(6, gen.text(r, gen.query(r)), False)
            elif c == 3:
                q(d, r.pick(["FIND (:Nothing);", "FIND (:Absent)-[:NEVER]->(:Nowhere);", "MAKE (:A)-[:R]-(:B);", ""]), False)
            elif c == 6:
                steps.append(["renew", 6])
                ev += 1
            elif c == 4:
                q(6, gen.text(r, gen.break_query(r, r.pick(gen.BREAKS))), False)
            else:
                q(6, txt[r.randrange(len(txt))], False)
        first = []
        for t in txt:
            first.append(q(1, t))
        for j, t in enumerate(txt):
            steps.append(["sess"])
            q(2, t)
        steps.append(["use", 1])
        for t in txt:
            for _ in range(r.pick([0, 1, 2])):
                other(3)
            q(3, t)
        if r.chance(0.5):
            steps.append(["use", 2])
        q(4, gen.text(r, [x for y in qs for x in y]))
        for j, t in enumerate(txt):
            steps.append(["use", 1 + j % 3])
            q(5, t)
        steps.append(["cmp", "C20", "the session", [1, 2, 3, 4, 5], evs, False])
        ev += 1
        for _ in range(3):
            f = gen.text(r, gen.query(r, kinds="f", p=0.1))
            here = []
            for d in range(1, 6):
                steps.append(["use", r.pick([1, 2, 3])])
                here.append(q(d, f, False))
            steps.append(["cmp", "C20", "the session", [1, 2, 3, 4, 5], here, True])
            ev += 1
        # and once more, with what the FINDs may have left behind
        t = gen.text(r, gen.query(r, kinds="m"))
        here = []
        for d in range(1, 6):
            steps.append(["use", r.pick([1, 2, 3, 4])])
            here.append(q(d, t, False))
        steps.append(["cmp", "C20", "the session", [1, 2, 3, 4, 5], here, True])
        ev += 1
        jobs.append({"id": f"{prefix}{k}", "dbs": [f"db{d}" for d in range(1, 7)], "steps": steps})
    return jobs


# ------------------------------------------------------------- times (C19)
ZONES = [None, "UTC", "XXX-9", "XXX5", "XXX-5:30", "XXX12", "XXX-14", "EST5EDT,M3.2.0,M11.1.0"]


def timed(r, n, prefix="t"):
    jobs = []
    for k in range(n):
        gen.vocab(r)
        steps = [["new", 1], ["new", 2]]
        for j in range(7):
            c = r.randrange(6)
            if c == 0:
                steps.append(["sess", r.pick(ZONES)])
            elif c == 1:
                steps.append(["use", r.pick([1, 2, 3]), r.pick(ZONES)])
            if j:
                steps.append(["sleep", r.pick([20, 30, 60, 120])])
            steps.append(["q", r.pick([1, 1, 2]), gen.text(r, gen.query(r, kinds=r.pick(["m", "m", "mm", "f", "mf"])))])
        jobs.append({"id": f"{prefix}{k}", "tz": r.pick(ZONES), "dbs": ["db1", "db2"], "steps": steps})
    return jobs


# ---------------------------------------------------------- requests (C21)
def requests(r, n, prefix="p", per=10):
    jobs = []
    for k in range(n):
        gen.vocab(r)
        jobs.append({"id": f"{prefix}{k}", "steps": [["pre", gen.text(r, gen.query(r, kinds="f"))] for _ in range(per)]})
    return jobs


# ---------------------------------------------------------- criteria (C27)
def criterion(r, hs, names):
    def some():
        v = lambda: r.pick([0, 1, 2, -1, 2**70, 3.14, 0.0, True, False, None, "", "x", "null", "a 'b' \"c\"", [], [1, "x", None, 0.5], ["a;b"]])
        return {n: v() for n in r.sample(names, r.randrange(min(5, len(names))))}
    return [[h, some(), some()] for h in hs]


def criteria(r, n, prefix="k", per=10):
    jobs = []
    for k in range(n):
        gen.vocab(r)
        steps = []
        for _ in range(per):
            t = gen.text(r, gen.query(r, kinds=r.pick(["f", "f", "f", "fr", "mf"])))
            hs = sorted(set(re.findall(r"[(\[]\s*(\w+)\s*:", t)))
            near = [h + "1" for h in hs] + [h[:-1] for h in hs if len(h) > 1] + [h.swapcase() for h in hs] + ["zz"]
            names = sorted(set(re.findall(r"[{,]\s*(\w+)\s*:", t)) | {"p", "int"} | set(r.sample(gen.FIELDS, 3)))
            use = list(dict.fromkeys(r.sample(hs, r.randrange(len(hs) + 1)) + r.sample(near, r.pick([0, 0, 1]))))
            steps.append(["crit", t, criterion(r, r.sample(use, len(use)), names)])
            if r.chance(0.3):
                steps.append(["pre", t])
            if r.chance(0.3):   # the same FIND with other criteria
                steps.append(["crit", t, criterion(r, hs, names)])
        jobs.append({"id": f"{prefix}{k}", "steps": steps})
    return jobs


def criteria_jobs(prefix, cases, per=20):
    return [{"id": f"{prefix}{k}", "steps": [["crit", t, c] for t, c in cases[k:k + per]]} for k in range(0, len(cases), per)]


def request_texts(prefix, texts, per=20):
    return [{"id": f"{prefix}{k}", "steps": [["pre", t] for t in texts[k:k + per]]} for k in range(0, len(texts), per)]


# ----------------------------------------------------------- reading (C28)
def reading_texts(prefix, texts, per=20):
    """Each text is read, some once more after the others."""
    return [{"id": f"{prefix}{k}", "steps": [["read", t] for t in texts[k:k + per] + texts[k:k + per:6]]} for k in range(0, len(texts), per)]


def readings(r, n, prefix="r", per=10):
    jobs = []
    for k in range(n):
        gen.vocab(r)
        made = []
        for _ in range(per):
            c = r.randrange(8)
            q = gen.query(r) if c else gen.make(r, npat=r.pick([5, 20]), p=0.2)
            made.append(gen.text(r, gen.mutate(r, q) if c == 1 else gen.break_query(r, r.pick(gen.BREAKS)) if c == 2 else q))
            if r.chance(0.3):
                made.append(gen.text(r, similar(r, q)))
            if r.chance(0.4):
                made.append(r.pick(made))
        steps = [["read", t] for t in made]
        for _ in range(2):
            steps.insert(r.randrange(len(steps)), ["sess"])
        jobs.append({"id": f"{prefix}{k}", "steps": steps})
    return jobs


# ---------------------------------------------------------- reports (C13)
def reports(r, n, prefix="v"):
    jobs = []
    for k in range(n):
        gen.vocab(r)
        steps = [["new", 1]]
        for _ in range(12):
            c = r.randrange(6)
            if c == 0:
                t = gen.query(r, kinds=r.pick(["fr", "mfr", "frm", "rf", "fmr", "mmfr"]))
            elif c == 1:
                t = gen.break_query(r, r.pick(["twofinds", "tworeports", "lonereport", "reporthandle", "handles"]))
            else:
                # handles of all kinds, near each other
                hs = r.sample(["n", "n1", "n12", "N", "N1", "h", "hh", "h_", "_h", "rel", "re", "left", "left_node", "x1x", "1x"], 5)
                p = ["find", "S", "("] + r.pick([[], [hs[0]]]) + [":", r.pick(["A", hs[1], hs[3]])] + r.pick([[], ["{", hs[2], ":", "'" + hs[3] + "'", "}"]]) + [")"]
                have = [p[3]] if p[3] != ":" else []
                if r.chance(0.6):
                    x = r.pick([[], [hs[1]]])
                    have += x
                    p += ["G", "-", "G", "["] + x + [":", "R"] + ["]", "G", "-", "G", ">", "("] 
                    y = r.pick([[], [hs[2]], [hs[0]]])
                    have += y
                    p += y + [":", r.pick(["B", hs[4]]), ")"]
                if r.chance(0.35):       # another pattern
                    x = r.pick(hs)
                    p += [",", "(", x, ":", "A", ")"] if r.chance(0.5) else [",", "(", ":", "A", ")", "G", "-", "G", "[", x, ":", "R", "]", "G", "-", "G", ">", "(", ":", "B", ")"]
                    have.append(x)
                p += [";"]
                use = [r.pick(have + hs) if r.chance(0.5) else r.pick(have or hs) for _ in range(r.pick([1, 1, 2, 3]))]
                rep = ["report", "W"]
                for j, h in enumerate(use):
                    rep += ([","] if j else []) + [r.pick([h, h + "." + r.pick(hs), "wn(" + h + ")"])]
                if r.chance(0.15):
                    rep[2:2] = ["*", ","]
                rep += [";"]
                mk = r.pick([[], [], ["make", "S", "("] + [hs[4], ":", "A", ")", ";"]])
                t = r.pick([mk + p + rep, p + mk + rep, p + rep + mk, rep + p + mk, mk + rep + p])
            steps.append(["q", 1, gen.text(r, t)])
        jobs.append({"id": f"{prefix}{k}", "steps": steps})
    return jobs


# ------------------------------------------- interruptions (C14 and C15)
ENOSPC, EIO, EACCES, EMFILE, EDQUOT = 28, 5, 13, 24, 122
KILLS = [["kill", 0, 0, 0, 0], ["torn", 0, 0, 0, 0], ["torn", 0, 0, 1, 0], ["torn", 0, 0, 2, 0]]
FAILS = [["fail", 0, ENOSPC, 0, 1], ["fail", 0, EIO, 1, 0], ["failall", 0, ENOSPC, 0, 0], ["short", 0, ENOSPC, 1, 0], ["full", 0, ENOSPC, 1, 0]]


def interrupted(r, n, modes, prefix="i", small=True):
    """Each point of a query, each mode; and what follows."""
    jobs = []
    for k in range(n):
        gen.vocab(r)
        kw = {"npat": r.pick([1, 2]), "p": 0.3} if small else {}
        before = [gen.text(r, gen.query(r, kinds=r.pick(["m", "m", "mm"]), **kw)) for _ in range(r.pick([0, 1, 1, 2]))]
        hit = gen.query(r, kinds=r.pick(["m", "m", "m", "mm", "mf", "fm"]), **kw)
        target = gen.text(r, hit)
        finds = [gen.text(r, gen.query(r, kinds="f", p=0.05)) for _ in range(2)]
        after = gen.text(r, gen.query(r, kinds="m", **kw))
        kill = modes[0][0] in ("kill", "torn")
        follow = [["sess"]] if kill or r.chance(0.3) else []
        # what the interrupted query made, and what came before, must be found
        follow += [["q", wanted(r, hit)], ["q", finds[0]]]
        c = r.randrange(4)
        if c == 0:      # a second interruption
            follow += [["q", after, ["kill" if kill else "fail", r.pick([1, 2, 3, 5, 8, 12, 15]), ENOSPC, 0, 0]]]
            follow += [["sess"]] if kill else []
        follow += [["q", after], ["q", wanted(r, hit)], ["q", target], ["q", wanted(r, hit)]]
        steps = [["new", 1]] + [["q", 1, t] for t in before] + [["enum", 1, target, modes, follow]]
        jobs.append({"id": f"{prefix}{k}", "steps": steps})
    return jobs


# --------------------------------------------- at the same time (C23, C24)
def schedules(r, n, writers=1, prefix="s", kill=False):
    """A query stopped at each of its points, and what the others do meanwhile."""
    jobs = []
    for k in range(n):
        gen.vocab(r)
        kw = {"npat": r.pick([1, 1, 2]), "p": 0.3}
        old = [gen.query(r, kinds=r.pick(["m", "m", "mm"]), **kw) for _ in range(r.pick([0, 1, 2]))]
        made = [gen.query(r, kinds=r.pick(["m", "m", "mm", "mf"]), **kw) for _ in range(max(writers, 1))]
        other = gen.query(r, kinds="m", npat=1)
        looks = [["look", 1, wanted(r, r.pick(made), True)], ["look", 1, wanted(r, r.pick(old + made))],
                 ["look", 3, gen.text(r, gen.query(r, kinds="m", npat=1))], ["look", 2, wanted(r, other)],
                 ["look", 1, gen.text(r, gen.break_query(r, r.pick(gen.BREAKS)))],
                 ["look", 1, gen.text(r, gen.query(r, kinds="f", npat=1, p=0.1))]]
        looks = [looks[0]] + r.sample(looks[1:], 3)
        # what begins with a MAKE may wait for another, so it is asked of the third database
        looks = [["look", 3 if "make" in t.lower() else d, t] for _, d, t in looks]
        qs = [[1, gen.text(r, q)] for q in made]
        if writers == 1 and r.chance(0.6):
            # a FIND is stopped, and everything else happens meanwhile
            f = wanted(r, r.pick(old + made), True) if r.chance(0.7) else gen.text(r, gen.query(r, kinds="f", npat=1, p=0.1))
            qs = [[1, f], qs[0], [2, gen.text(r, other)]]
            acts = [["start", 1, 0, r.pick([0, 1, 3])], ["start", 2, 0, 0], ["start", 3, r.pick([0, 500]), 0]] + looks[:2] + [["go", 1], ["go", 2]]
        elif writers == 1:
            qs.append([2, gen.text(r, other)])
            acts = [["start", 1, 0, r.pick([0, 1, 3])], ["start", 2, r.pick([0, 300, 700]), 0]] + looks + [["kill" if kill else "go", 1]] + looks[:1]
        else:
            starts = [["start", j + 1, r.pick([0, 0, 100, 400, 700, 900]), r.pick([0, 2, 5])] for j in range(len(qs))]
            if len(starts) > 2 and k % 2:      # the first ends while the second is under way, then another comes
                starts = [starts[0][:3] + [0], starts[1][:2] + [r.pick([100, 300, 500, 700, 900]), 0], ["kill" if kill else "go", 1]] + starts[2:]
            acts = starts + looks[:1]
            gos = [["kill" if kill and j == 0 else "go", j + 1] for j in range(len(qs))]
            r.shuffle(gos)
            acts += gos + looks[:1]
        jobs.append({"id": f"{prefix}{k}", "kind": "sched", "dbs": ["db1", "db2", "db3"], "setup": [[1, gen.text(r, q)] for q in old] + [[2, gen.text(r, other)]],
                     "queries": qs, "acts": acts, "each": 1,
                     "follow": [[1, wanted(r, made[0], True)]] + [[1, gen.text(r, gen.query(r, kinds="m", npat=1))] for _ in range(2)] + [[1, wanted(r, made[-1])]]})
    return jobs


def without_props(r, toks, p):
    out, j = [], 0
    while j < len(toks):
        if toks[j] == "{":
            e = next(x for x in range(j, len(toks)) if toks[x] == "}")
            if r.chance(p):
                j = e + 1
                continue
            inner = toks[j + 1:e]
            out += ["{"] + inner + ["}"]
            j = e + 1
            continue
        out.append(toks[j])
        j += 1
    return out


def wanted(r, toks, loose=False):
    """A FIND for one pattern of what these tokens make."""
    pats, cur, on, depth, first = [], [], False, 0, True
    for t in toks:
        if first and t in ("make", "find", "report"):
            on, cur, first = t == "make", [], False
            continue
        depth += (t in ("(", "[", "{")) - (t in (")", "]", "}"))
        if depth == 0 and t in (",", ";"):
            if on:
                pats.append(cur)
            cur = []
            if t == ";":
                on, first = False, True
        elif t != "S" or cur:
            cur.append(t)
    if not pats:
        return "FIND (:A);"
    pat = r.pick(pats)
    if loose:               # ask for less than was made
        pat = without_props(r, pat, r.pick([0, 0.5, 1]))
        return gen.text(r, ["find", "S"] + pat + [";"])
    return gen.plain(["find", "S"] + pat + [";"])


# ------------------------- creating and deleting: interrupted, at once (C25, C26)
def after(r, name, made, brief=False):
    """What is tried on a database, or on what is left of one."""
    q = ["q", name, wanted(r, r.pick(made), True)] if made else ["q", name, "FIND (:A);"]
    mk = gen.query(r, kinds="m", npat=1)
    new = [["new", name], ["q", name, wanted(r, mk)], ["q", name, gen.text(r, mk)], ["q", name, wanted(r, mk)]]
    use = [["open", name], q, ["q", name, gen.text(r, mk)], ["q", name, wanted(r, mk, True)]]
    again = [["del", name]] + new
    return r.pick([use + again, use + again, [["new", name]] + use + again, [["list"]] + again, new + again, use + [["sess"]] + use[:2] + again])


def admins(r, n, modes, prefix="a"):
    """A creation or a deletion, interrupted at each of its points."""
    jobs = []
    for k in range(n):
        gen.vocab(r)
        name = r.pick(["a", "ab", "db1", "my_db", "A"])
        other = r.pick(["b", "abc", name + "_", "database", "a0"])
        old = [gen.query(r, kinds=r.pick(["m", "m", "mm"]), npat=r.pick([1, 2]), p=0.3) for _ in range(r.pick([1, 1, 2]))]
        new = k % 2
        empty = r.chance(0.2)
        lonely = new and r.chance(0.4)
        setup = [] if lonely else [["new", other]] + [["q", other, gen.text(r, q)] for q in old[:1]]
        if not new or r.chance(0.1):
            setup += [["new", name]] + ([] if empty else [["q", name, gen.text(r, q)] for q in old])
        if new and r.chance(0.3) and len(setup):
            setup += [["del", name]]
        follow = after(r, name, old)
        if not lonely:
            follow += [["q", other, wanted(r, old[0])], ["list"], ["open", other]]
        jobs.append({"id": f"{prefix}{k}", "kind": "admin", "folder": not (lonely and r.chance(0.5)), "setup": setup,
                     "hit": ["new" if new else "del", name], "modes": modes, "follow": follow})
    return jobs


def at_once(r, n, prefix="p", kill=False):
    """Sessions that create, delete and use the same databases at the same time."""
    jobs = []
    for k in range(n):
        gen.vocab(r)
        name = r.pick(["a", "ab", "db1", "my_db", "A"])
        other = r.pick(["b", "abc", name + "_", "database", "a0"])
        made = [gen.query(r, kinds=r.pick(["m", "m", "mm"]), npat=r.pick([1, 2]), p=0.3) for _ in range(4)]
        there = r.chance(0.6)
        setup = [["new", other], ["q", other, gen.text(r, made[0])]]
        if there:
            setup += [["new", name]] + [["q", name, gen.text(r, made[1])]] * r.pick([0, 1, 1])

        def op(j):
            c = r.pick(["new", "new", "del", "del", "make", "make", "find", "open", "list"])
            nm = name if r.chance(0.85) else other
            return (["list"] if c == "list" else ["q", nm, gen.text(r, made[2 + j % 2])] if c == "make"
                    else ["q", nm, wanted(r, made[r.pick([0, 1, 2])], True)] if c == "find" else [c, nm])
        first = r.pick([["del", name], ["del", name], ["q", name, gen.text(r, made[2])]] if there else [["new", name]])
        ops = [first] + [op(j) for j in range(r.pick([1, 2, 2, 3]))]
        if there and r.chance(0.4):       # deleted and made again while another waits
            ops = [r.pick([["q", name, gen.text(r, made[2])], ["del", name]]), ["del", name], ["new", name], op(1)][:r.pick([3, 4])]
        opened = [j + 1 for j, o in enumerate(ops) if o[0] == "q" and r.chance(0.3)] if there else []
        starts = [["start", 1, 0, r.pick([0, 0, 2])]] + [["start", j + 2, r.pick([0, 0, 0, 200, 500, 800]), r.pick([0, 2])] for j in range(len(ops) - 1)]
        gos = [["kill" if kill and r.chance(0.4) else "go", j + 1] for j in range(len(ops))]
        if r.chance(0.5):
            r.shuffle(gos)
        if r.chance(0.5):
            starts[2:2] = gos[:1]
        more = {}
        if k % 4 == 3:      # a MAKE that waited for a deletion goes on in the database made again, and another comes
            if not there:
                setup += [["new", name]]
            setup += [["q", name, gen.text(r, made[1])]]
            ops = [["del", name], ["q", name, gen.text(r, made[2])], ["new", name], ["q", name, gen.text(r, made[3])]]
            opened = [2] if r.chance(0.5) else []
            starts = [["start", 1, r.pick([100, 300, 500, 700, 900]), 0], ["start", 2, 0, r.pick([2, 4, 7, 10, 14, 18])], ["go", 1], ["start", 3, 0, 0],
                      ["go", 2], ["start", 4, r.pick([0, 0, 300, 600]), 0], ["go", 2]]
            gos, more = [], {"each": 2, "points": [1, 2, 3]}
        if k % 4 == 1:      # who looks is held up wherever it looks, while another deletes or creates all it looks at
            a, b = r.pick([(["list"], ["del", name]), (["list"], ["del", name]), (["open", name], ["del", name]), (["list"], ["new", name]), (["open", name], ["new", name])])
            if b[0] == "del" and not there:
                setup += [["new", name]]
            if b[0] == "new" and there:
                setup += [["del", name]]
            ops, opened = [a, b, ["list"]], []
            starts, gos = [["start", 1, 0, 0], ["start", 2, r.pick([0, 0, 400, 700, 900]), 0], ["go", 2], ["go", 1]], []
        follow = after(r, name, made[:3])
        jobs.append({"id": f"{prefix}{k}", "kind": "admin", "setup": setup, "ops": ops, "opened": opened,
                     "known": [name] if there and r.chance(0.5) else [], "acts": starts + gos, "each": 1,
                     "follow": follow + [["list"], ["q", other, wanted(r, made[0])]], **more})
    return jobs


def taking_turns(r, n, prefix="b"):
    """Sessions that stay alive take turns to create, delete and create again the same databases."""
    jobs = []
    for k in range(n):
        gen.vocab(r)
        names = r.sample(["a", "ab", "A", "a*", "my_db", "a b", "database_a", "10", "[a]"], 2)
        texts = [gen.text(r, gen.query(r, kinds=c, npat=1, p=0.3)) for c in ("m", "m", "f", "m")]
        there, steps, sess = set(), [], r.pick([2, 2, 3])
        for j in range(14):
            steps.append(["use", r.randrange(sess)])
            nm = names[0] if r.chance(0.7) else names[1]
            if nm not in there:
                steps += [r.pick([["open", nm], ["list"], ["del", nm], ["q", nm, texts[0]]])] if r.chance(0.25) else []
                steps += [["new", nm]] + ([["q", nm, r.pick(texts)]] if r.chance(0.5) else [])
                there.add(nm)
            else:
                c = r.randrange(8)
                steps += ([["open", nm]] if c == 0 else [["q", nm, r.pick(texts)]] if c == 1 else [["list"]] if c == 2
                          else [["new", nm]] if c == 3 else [["del", nm]])
                if c > 3:
                    there.discard(nm)
        jobs.append({"id": f"{prefix}{k}", "kind": "catalog", "steps": steps + [["list"]]})
    return jobs


def many_names(r, n, prefix="z"):
    """More databases than letters, chosen by letter and created under names that are asked for."""
    jobs = []
    for k in range(n):
        names = [r.pick(["db", "DB", "x_", "1", "ab"]) + str(j) for j in range(r.pick([25, 26, 27, 30]))]
        letter = lambda: r.pick(list("ABMYZ") + ["[", "a", "AA", "@", "", "z"])
        steps = [["new", x] for x in names] + [["list"], ["pick", ["Z"]], ["ask", [names[0], "new one"]]]
        for j in range(10):
            c = r.randrange(5)
            steps += ([["pick", [letter() for _ in range(3)]]] if c < 2 else [["del", r.pick(names)], ["pick", [letter(), "Y", "A"]]] if c == 2
                      else [["ask", r.sample(names, 2) + [r.pick(["", "..", "a/b"])] + r.pick([[], [r.pick(names) + "_"]])]] if c == 3
                      else [["drop", r.pick(sorted(names)[:5]), r.pick(["db", "idx", "num"])], ["pick", ["A", "B", "C", "D"]]])
        jobs.append({"id": f"{prefix}{k}", "kind": "catalog", "steps": steps + [["list"]]})
    return jobs


# -------------------------------------------------------------- shell (C18)
def typed(r, n, prefix="k", per=24):
    """Random queries typed into the shell, every kind of broken query."""
    jobs, kinds = [], []
    for k in range(n):
        gen.vocab(r)
        lines = ["n", "fresh"]
        for j in range(per):
            if not kinds:
                kinds = list(gen.BREAKS) + ["unread"] * 12
                r.shuffle(kinds)
            c = r.randrange(4)
            t = gen.query(r) if c == 0 else gen.mutate(r, gen.query(r)) if c == 2 else gen.break_query(r, kinds.pop())
            long = k % 3 == 0 and j == per // 2
            if long:
                t = gen.make(r, npat=r.pick([60, 80, 130]), p=0.1)
            x = " ".join(gen.text(r, t).replace("\r", " ").split("\n"))
            if long:
                x += " " * r.pick([0, 0, 2200]) + " ".join(gen.text(r, gen.make(r, npat=2, p=0.3)).replace("\r", " ").split("\n"))
            if x != "q" and r.chance(0.12):      # a file is not there for a moment
                lines += [["fail", r.pick(["num", "db", "idx"]), x]]
            lines += [x if x != "q" else "q "] * (1 if long else r.pick([1, 1, 1, 2]))
        jobs.append({"id": f"{prefix}{k}", "kind": "shell", "setup": [], "lines": [lines + ["q"], ["y", "A"] + lines[4:7] + ["q"]]})
    return jobs
