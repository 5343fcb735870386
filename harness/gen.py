"""Seeded workloads: query texts and scripts.

Nothing here decides anything: whether a text is a query, and what it must do,
is decided by spec/Wql.tla.  A text is made as a list of tokens and then laid
out; G marks a place where no white space is put in an ordinary layout and W
one where there has to be some.
"""
import random

LABELS = ["A", "B", "Person", "Node_1", "lower", "X9", "ThreeWords_A_b"]
NAMES = ["R", "KNOWS", "REL_2", "IS_A", "R2D2"]
PNAMES = ["a", "name", "int", "x_1", "Key", "none", "list", "node", "make", "find", "report", "label", "wn"]
HANDLES = ["h", "n1", "left_node", "H2", "rel", "z"]
STRS = ["text", "2", "2_4", "3 4", "a b  c", "true value", "nullable", "x.y@z.org", "it s", "007", "3.14",
        "Find me", "make", "A1", " lead", "trail ", "false_", "untrue", "not null", "True story"]


BASE = {"LABELS": LABELS, "NAMES": NAMES, "PNAMES": PNAMES, "HANDLES": HANDLES, "STRS": STRS}
KEYS = ["make", "find", "report", "true", "false", "null", "none", "criteria", "using", "adjust", "node", "rel", "help"]
# what the records and the models of the program call their parts
FIELDS = ["label", "name", "wn", "handle", "props", "type", "key", "value", "node_label", "rel_name", "relations", "properties",
          "node_handle", "relationships", "node_metadata", "wn_to_node", "left", "right", "created_at", "id"]
KEYS = KEYS + FIELDS[:12]


def word(r):
    """Any word: a label, a property name, a handle."""
    k = r.randrange(8)
    n = r.pick([1, 2, 3, 5, 8, 13, 30])
    if k == 0:
        return r.pick(KEYS)
    if k == 1:
        return r.pick(KEYS).capitalize()
    if k == 2:
        return r.pick(KEYS).upper()
    if k == 3:
        return r.pick(KEYS) + r.pick(["_", "1", "s", "x", "_1"])
    if k == 4:
        return r.pick("abcXYZ_") + r.pick(KEYS)
    cs = r.pick(["abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "abcXYZ_09", "aA_0", "0123456789a", "_ab"])
    return "".join(r.pick(cs) for _ in range(n))


def upper(r):
    while True:
        w = word(r).upper()
        if any("A" <= c <= "Z" for c in w):
            return w


def string(r):
    n = r.pick([1, 1, 2, 3, 5, 8, 20, 60])
    cs = r.pick(["abc xyz", "0123456789", "0123456789.", "true falsenul", "abcXYZ_09 .@", " a", "TFN rueal", "\t a\n", "@.", "_1"])
    return "".join(r.pick(cs) for _ in range(n))


def vocab(r):
    """The words of one script: the usual ones, or others."""
    global LABELS, NAMES, PNAMES, HANDLES, STRS
    LABELS, NAMES, PNAMES, HANDLES, STRS = (BASE[k] for k in ("LABELS", "NAMES", "PNAMES", "HANDLES", "STRS"))
    if r.chance(0.45):
        return
    if r.chance(0.15):          # words that differ in letter case, or hardly
        w = word(r)
        x = [w, w.lower(), w.upper(), w.capitalize(), w.swapcase(), w + "_", "_" + w, w + "1", w + w[-1]]
        LABELS, PNAMES, HANDLES = (list(dict.fromkeys(r.sample(x, len(x)))) for _ in range(3))
        PNAMES += ["q1", "q2", "q3"]
        HANDLES += ["k1", "k2", "k3"]
        u = upper(r)
        NAMES = list(dict.fromkeys([u, u + "_", "_" + u, u + "1", u + u[-1]]))
        return
    if r.chance(0.15):          # many words
        LABELS = list(dict.fromkeys(word(r) for _ in range(40)))
        NAMES = list(dict.fromkeys(upper(r) for _ in range(40)))
        return
    LABELS = LABELS[:r.pick([0, 2, 4])] + [word(r) for _ in range(5)]
    NAMES = NAMES[:r.pick([0, 2])] + [upper(r) for _ in range(4)]
    PNAMES = list(dict.fromkeys(PNAMES[:r.pick([0, 2, 4])] + [word(r) for _ in range(12)]))
    HANDLES = list(dict.fromkeys(HANDLES[:r.pick([0, 2])] + [word(r) for _ in range(12)]))
    STRS = STRS[:r.pick([0, 8])] + [string(r) for _ in range(8)]


class Rng(random.Random):
    def pick(self, xs):
        return xs[self.randrange(len(xs))]

    def chance(self, p):
        return self.random() < p


def quoted(r, s=None):
    if s is None:
        s = "" if r.chance(0.03) else r.pick(STRS)
    q = r.pick(["'", '"'])
    if r.chance(0.1):
        s = s + ("'" if q == '"' else '"') + "s"
    return q + s + q


def whole(r):
    c = r.randrange(4)
    if c == 0:
        return r.pick([0, 1, 7, 10, 42, 100, 2024, 999999999999])
    if c == 1:
        return r.pick([2**7, 2**8, 2**15, 2**16, 2**31, 2**32, 2**53, 2**63, 2**64, 10**9, 10**16, 10**18, 10**21]) + r.pick([-2, -1, 0, 1, 2, 3])
    return r.randrange(10 ** r.pick([1, 2, 3, 6, 9, 12, 17, 18, 20, 25, 40, 120]))


def decimal(r):
    """At most 15 digits, which a decimal keeps exactly."""
    n = r.pick([2, 3, 5, 7, 9, 12, 14, 15])
    a = r.randrange(1, n)
    if r.chance(0.15):
        return str(r.randrange(10 ** a)) + "." + "0" * (n - a)
    return str(r.randrange(10 ** r.randrange(0, a + 1))) + "." + "".join(r.pick("0123456789" if r.chance(0.7) else "00000000019") for _ in range(n - a))


def long_decimal(r):
    """More digits than a decimal keeps exactly."""
    n = r.randrange(16, 26)
    a = r.randrange(1, n)
    w = "".join(r.pick("0123456789" if r.chance(0.8) else "09") for _ in range(n))
    return (w[:a].lstrip("0") or "0") + "." + w[a:]


def scalar(r):
    k = r.randrange(9)
    if r.chance(0.03):
        return long_decimal(r)
    if k == 0:
        return str(whole(r))
    if k == 1:
        return r.pick(["3.14", "0.5", "2.0", "10.25", "0.0", "1.10", "100.001", decimal(r), decimal(r)])
    if k == 2:
        return r.pick(["true", "false"])
    if k == 3:
        return "null"
    return quoted(r)


def value(r):
    if r.chance(0.2):
        n = r.pick([1, 1, 2, 3, 5])
        out = ["["]
        for j in range(n):
            if j:
                out.append(",")
            out.append(scalar(r))
        return out + ["]"]
    return [scalar(r)]


def propset(r, n=None, p=0.5):
    if n is None:
        n = 0 if not r.chance(p) else r.pick([0, 1, 1, 1, 2, 2, 3, 4])
        if n == 0 and not r.chance(0.2):
            return []
    names = r.sample(PNAMES, min(n, len(PNAMES)))
    out = ["{"]
    for j, nm in enumerate(names):
        if j:
            out.append(",")
        out += [nm, ":"] + value(r)
    return out + ["}"]


def node(r, hs=None, labels=None, p=0.5):
    h = []
    if hs is not None and r.chance(0.5):
        left = [x for x in HANDLES if x not in hs]
        if left:
            h = [r.pick(left)]
            hs.append(h[0])
    return ["("] + h + [":", r.pick(labels or LABELS)] + propset(r, p=p) + [")"]


def dashes(r):
    return "-" * r.pick([1, 1, 2, 2, 3, 4, 5, 6, 9, 17])


def rel(r, hs=None, names=None, p=0.5):
    h = []
    if hs is not None and r.chance(0.3):
        left = [x for x in HANDLES if x not in hs]
        if left:
            h = [r.pick(left)]
            hs.append(h[0])
    n = [":", r.pick(names or NAMES)] if r.chance(0.75) else r.pick([[":"], []])
    a, b = (dashes(r), dashes(r)) if r.chance(0.3) else ("-", "-")
    body = ["G", "["] + h + n + propset(r, p=p) + ["]", "G"]
    return ["G", a] + body + [b, "G", ">"] if r.chance(0.5) else ["<", "G", a] + body + [b]


def pattern(r, n=None, hs=None, labels=None, names=None, p=0.5):
    n = n or r.pick([1, 1, 2, 2, 3, 3])
    hs = [] if hs is None else hs
    out = node(r, hs, labels, p)
    for _ in range(n - 1):
        out += rel(r, hs, names, p) + node(r, hs, labels, p)
    return out, hs


def make(r, npat=None, **kw):
    out = ["make", "S"]
    for j in range(npat or r.pick([1, 1, 1, 2, 2, 3])):
        if j:
            out.append(",")
        out += pattern(r, **kw)[0]
    return out + [";"]


def find(r, npat=1, **kw):
    out, hs = ["find", "S"], []
    for j in range(npat):
        if j:
            out.append(",")
        p, h = pattern(r, **kw)
        out += p
        hs += h
    return out + [";"], hs


def report(r, hs):
    hs = list(dict.fromkeys(hs))
    use = r.sample(hs, r.randrange(1, len(hs) + 1)) if hs else []
    if use and r.chance(0.12):
        use += [r.pick(use[:2]) for _ in range(r.pick([3, 4, 8]))]
    while use and r.chance(0.1):
        use.append(r.pick(use))
    out = ["report", "W"]
    for j, h in enumerate(use):
        if j:
            out.append(",")
        out.append(r.pick([h, h + "." + r.pick(PNAMES), h]))
    if not use:
        out.append("*")
    elif r.chance(0.08):
        out = ["report", "W", r.pick(["*", "wn(" + use[0] + ")"])]
    return out + [";"]


def query(r, kinds=None, **kw):
    """Tokens of a query: some MAKE, at most one FIND, a REPORT only with it."""
    k = kinds or r.pick(["m", "m", "m", "mm", "mmm", "f", "f", "mf", "fm", "fr", "mfr", "frm", "mfm"])
    out, hs = [], []
    for c in k:
        if c == "m":
            out += make(r, **kw)
        elif c == "f":
            f, hs = find(r, **{x: y for x, y in kw.items() if x != "npat"})
            out += f
        elif c == "r":
            out += report(r, hs)
    return out


SPACES = [" ", " ", "\n", "\t", "  ", "\n    ", " \n", "\r\n"]
KEYWORDS = {"make", "find", "report"}


def case(r, w):
    return r.pick([w.upper(), w.upper(), w, w.capitalize(), "".join(c.upper() if r.chance(0.5) else c for c in w)])


def plain(toks):
    """The usual layout."""
    out = ""
    first = True
    for t in toks:
        if t in ("G", "S", "W"):
            if t in ("S", "W"):
                out += " "
            continue
        if first and t in KEYWORDS:
            t = t.upper()
        first = t == ";"
        out += t
        if t in (",", ";"):
            out += " "
    return out.strip()


def layout(r, toks, dense=0.3):
    """Any layout: letter case of keywords, white space between tokens."""
    out, glue, first = "", True, True
    for t in toks:
        if t == "G":
            glue = True
            continue
        if t == "S":                     # optional, before a bracket
            out += r.pick(SPACES) if r.chance(0.8) else ""
            glue = True
            continue
        if t == "W":
            out += r.pick(SPACES)
            glue = True
            continue
        if first and t in KEYWORDS:
            t = case(r, t)
        if not glue and r.chance(dense):
            out += r.pick(SPACES)
        out += t
        first = t == ";"
        glue = False
    if r.chance(0.3):
        out = r.pick(SPACES) + out
    if r.chance(0.3):
        out += r.pick(SPACES)
    return out


def text(r, toks):
    return plain(toks) if r.chance(0.5) else layout(r, toks, r.pick([0.05, 0.3, 0.6]))


STRAY = list("()[]{}:;,.<>-'\"#%&*$@+!/\\=?_ \n\t") + ["1", "a", "Z", "MAKE", "FIND", "REPORT", "true", "True", "null", "NULL", "::", "->", "<-", "--", "[]", "()", "{}"]


def mutate(r, toks):
    """A text near a query."""
    ts = [t for t in toks]
    for _ in range(r.pick([1, 1, 1, 2])):
        real = [j for j, t in enumerate(ts) if t not in ("G", "S", "W")]
        if not real:
            break
        j = r.pick(real)
        k = r.randrange(8)
        if k == 0:
            del ts[j]
        elif k == 1:
            ts.insert(j, r.pick(STRAY))
        elif k == 2:
            ts[j] = r.pick(STRAY)
        elif k == 3:
            ts.insert(j, ts[j])
        elif k == 4:
            i = r.pick(real)
            ts[i], ts[j] = ts[j], ts[i]
        elif k == 5 and len(ts[j]) > 1:
            c = list(ts[j])
            x = r.randrange(len(c) - 1)
            c[x], c[x + 1] = c[x + 1], c[x]
            ts[j] = "".join(c)
        elif k == 6:
            i = r.randrange(len(ts[j]) + 1)
            ts[j] = ts[j][:i] + r.pick(STRAY) + ts[j][i:]
        else:
            i = r.randrange(len(ts[j]) or 1)
            ts[j] = ts[j][:i] + ts[j][i + 1:]
    return ts


def permuted(r, w):
    while True:
        c = list(w)
        r.shuffle(c)
        x = "".join(c)
        if x != w:
            return case(r, x)


# reports of what a FIND with the handle n1 found
REPORTS = [["report", "W"] + x + [";"] for x in ([["n1"]] * 3 + [["*"], ["n1", ".", "a"], ["wn", "(", "n1", ")"], ["n1", ",", "n1"], ["*", ",", "n1"]])]


# ---- texts that break one rule, wherever in the query ----------------------
def break_query(r, what):
    """Tokens of a query of several statements and patterns, one of which breaks `what`."""
    kinds = r.pick(["m", "mm", "f", "mf", "fm", "mfr", "mmf", "mmm", "mfm"])
    stm = []
    for c in kinds:
        if c == "m":
            stm.append(("m", [pattern(r) for _ in range(r.pick([1, 1, 2, 3]))]))
        elif c == "f":
            stm.append(("f", [pattern(r)]))
        else:
            hs = [h for k, ps in stm if k == "f" for p in ps for h in p[1]]
            stm.append(("r", report(r, hs)))
    targets = [(s, p) for s, (k, ps) in enumerate(stm) if k in "mf" for p in range(len(ps))]
    s, p = r.pick(targets)
    kws = ["make" if k == "m" else "find" for k, _ in stm]
    toks = list(stm[s][1][p][0])
    semi = [";"] * len(stm)

    def chain(n):
        return pattern(r, n=n)[0]

    if what == "nodir" or what == "bothdir" or what == "lower":
        toks = chain(r.pick([2, 3]))
        # the place of one relationship
        opens = [j for j, t in enumerate(toks) if t == "[" and toks[j - 1] == "G"]
        o = r.pick(opens)
        c = relclose(toks, o)
        if what == "lower":
            n = r.pick(["knows", "Knows", "kNOWS", "REL_a", "r", "R2d2", "iS_A"])
            toks = toks[:o + 1] + [":", n] + (propset(r)) + toks[c:]
        else:
            a = next(j for j in range(o, -1, -1) if toks[j] == ")")
            b = next(j for j in range(c, len(toks)) if toks[j] == "(")
            mid = toks[o:c + 1]
            if what == "nodir":
                toks = toks[:a + 1] + ["G", "-", "G"] + mid + ["G", "-"] + toks[b:]
            else:
                toks = toks[:a + 1] + ["<", "G", "-", "G"] + mid + ["G", "-", "G", ">"] + toks[b:]
    elif what == "four":
        toks = chain(r.pick([4, 5]))
    elif what == "handles":
        n = r.pick([1, 2, 3])
        while True:
            toks = pattern(r, n=max(2, n))[0]
            slots = [j + 1 for j, t in enumerate(toks) if t == "(" or t == "[" and toks[j - 1] == "G"]
            a, b = sorted(r.sample(slots, 2))
            h = r.pick(HANDLES)
            for x in (b, a):
                if toks[x] in HANDLES and toks[x + 1] in (":", "]", "{"):
                    toks[x] = h
                else:
                    toks.insert(x, h)
            break
    elif what in ("round", "square", "curly"):
        pair = {"round": "()", "square": "[]", "curly": "{}"}[what]
        if what == "curly":
            toks = node(r)[:-1] + ([")"] if False else [")"])
            toks = ["(", ":", r.pick(LABELS)] + propset(r, n=r.pick([1, 2])) + [")"]
        if what == "square":
            toks = chain(r.pick([2, 3]))
        at = [j for j, t in enumerate(toks) if t in pair]
        j = r.pick(at)
        if r.chance(0.5):
            del toks[j]
        else:
            toks.insert(j, r.pick(pair))
    elif what == "illegal":
        j = r.randrange(1, len(toks))
        c = r.pick("#%&*$")
        x = toks[j]
        if x in ("G", "S") or r.chance(0.5):
            toks.insert(j, c)
        else:
            i = r.randrange(len(x) + 1)
            toks[j] = x[:i] + c + x[i:]
    elif what in ("commacolon", "novalue", "capital", "unread", "twice"):
        ps = propset(r, n=r.pick([2, 2, 3, 3, 4, 6, 9]))
        if what == "commacolon":
            at = [j for j, t in enumerate(ps) if t in (",", ":")]
            j = r.pick(at)
            if r.chance(0.5):
                del ps[j]
            else:
                ps.insert(j, ps[j])
        elif what == "novalue":
            colons = [j for j, t in enumerate(ps) if t == ":" and j > 1]
            j = r.pick(colons)
            e, depth = j + 1, 0
            while depth or ps[e] not in (",", "}"):
                depth += (ps[e] == "[") - (ps[e] == "]")
                e += 1
            ps = ps[:j + 1] + (["W"] if r.chance(0.5) else []) + ps[e:]
        elif what == "capital":
            j = r.pick([j for j, t in enumerate(ps) if t == ":"])
            v = r.pick(["True", "False", "Null", "NULL", "TRUE", "FALSE", "tRue", "nULL", "faLse"])
            ps = ps[:j - 1] + ["c", ":", v] + (["}"] if ps[j - 2] in ("{", ",") and False else []) + tail(ps, j)
        elif what == "unread":
            j = r.pick([j for j, t in enumerate(ps) if t == ":"])
            v = r.pick(["12abc", "+5", "a=b", "1/2", "x!", "{}", "1 2", "[1", "[[1],2]", "'a' 'b'", "'a' b",
                        "3.", "1.2.3", "[1 2]", "[b]", "[1,b]", "[None]", "[True]", "['a' 1]", "[,]", "[1,,2]", "[a.b]", "['a]", "[[]]", "[-1]", "[.5]", "[nul]", "]", "[", "['a':1]",
                        "[1.2.3]", "[1 , 'a' b]", "[@]", "[lambda]", "[1_0]", "1_0", "0x1", "1e5", "-1", ".5", "''a''", "'a'b'c'", "\\n", "~", "1;", "|", "?"])
            ps = ps[:j - 1] + ["c", ":", v] + tail(ps, j)
        else:
            nm = ps[1]
            ps = ps[:-1] + [",", nm, ":"] + value(r) + ["}"]
        if r.chance(0.6):
            toks = ["(", ":", r.pick(LABELS)] + ps + [")"]
            if r.chance(0.5):
                toks = toks + rel(r) + node(r)
            elif r.chance(0.5):
                toks = node(r) + rel(r) + toks
        else:
            x = rel(r)
            j = x.index("[")
            toks = node(r) + x[:j + 1] + [":", r.pick(NAMES)] + ps + x[relclose(x, j):] + node(r)
    elif what == "semicolon":
        semi[r.pick([x for x in range(len(stm))])] = ""
    elif what == "keyword":
        k = [x for x, (a, _) in enumerate(stm)]
        x = r.pick(k)
        if stm[x][0] == "r":
            stm[x] = ("r", [permuted(r, "report")] + stm[x][1][1:])
        else:
            kws[x] = permuted(r, kws[x])
    elif what == "unknown":
        kws[s] = r.pick(["made", "mk", "seek", "create", "x", "makes", "finds", "match", "delete", "report2"])
    elif what == "stray":
        j = r.randrange(0, len(toks) + 1)
        w = r.pick(["x", "1", ":", ".", "@", "'s'", "?", "!", ">", "<", "-", "(", "[]", "{}", "()", "A B", "/"])
        toks = toks[:j] + [w] + toks[j:]
    elif what == "nolabel":
        n = [j for j, t in enumerate(toks) if t == ")"]
        j = r.pick(n)
        toks = toks[:j + 1] + r.pick([[","], rel(r)]) + r.pick([["(", ")"], ["(", "h9", ")"], ["(", ":", ")"], ["(", ":", "{", "}", ")"]])
    elif what == "twofinds":
        stm.append(("f", [pattern(r)]))
        kws.append("find")
        semi.append(";")
        if not any(k == "f" for k, _ in stm[:-1]):
            stm.insert(r.randrange(len(stm)), ("f", [pattern(r)]))
            kws = ["make" if k == "m" else "find" for k, _ in stm]
            semi.append(";")
        s = -1
    elif what == "tworeports":
        hs = ["n1"]
        stm = [x for x in stm if x[0] == "m"] + [("f", [(["(", "n1", ":", "A", ")"], hs)]), ("r", r.pick(REPORTS)), ("r", r.pick(REPORTS))]
        r.shuffle(stm)
        kws = ["make" if k == "m" else "find" for k, _ in stm]
        semi = [";"] * len(stm)
        s = -1
    elif what == "lonereport":
        stm = [x for x in stm if x[0] == "m"] or [("m", [pattern(r)])]
        stm.insert(r.randrange(len(stm) + 1), ("r", report(r, ["h"])))
        kws = ["make" if k == "m" else "find" for k, _ in stm]
        semi = [";"] * len(stm)
        s = -1
    elif what == "reporthandle":
        hs = ["n1", "z"]
        bad = r.pick(["nope", "n2", "N1", "n", "zz", "h"])
        mk = [("m", [(["(", bad, ":", "A", ")"], [bad])])] if r.chance(0.5) else []
        stm = mk + [("f", [(["(", "n1", ":", "A", ")", "G", "-", "G", "[", "z", ":", "R", "]", "G", "-", "G", ">", "(", ":", "B", ")"], hs)]),
                    ("r", ["report", "W"] + r.pick([["n1", ",", bad], [bad], [bad, ",", "n1"], [bad + ".name"], ["n1", ",", "z", ",", bad],
                                                           ["*", ",", bad], [bad, ",", "*"], ["wn", "(", bad, ")"], ["n1", ",", "*", ",", bad, ".", "n1"]]) + [";"])]
        kws = ["make" if k == "m" else "find" for k, _ in stm]
        semi = [";"] * len(stm)
        s = -1
    else:
        raise AssertionError(what)
    out = []
    for x, (k, ps) in enumerate(stm):
        if k == "r":
            out += [t for t in ps[:-1]] + [semi[x]]
            continue
        out += [kws[x], "S" if kws[x] else "W"]
        for y, (pt, _) in enumerate(ps):
            if y:
                out.append(",")
            out += toks if (x, y) == (s, p) else pt
        out.append(semi[x])
    return [t for t in out if t != ""]


def relclose(toks, o):
    """The end of the relationship that begins at o."""
    return next(j for j in range(o, len(toks)) if toks[j] == "]" and (toks[j + 1] == "G" or toks[j + 1][0] == "-"))


def tail(ps, j):
    """What follows the value after the colon at j."""
    e, depth = j + 1, 0
    while depth or ps[e] not in (",", "}"):
        depth += (ps[e] == "[") - (ps[e] == "]")
        e += 1
    return ps[e:]


BREAKS = ["nodir", "bothdir", "lower", "four", "handles", "round", "square", "curly", "illegal", "commacolon", "novalue",
          "capital", "unread", "twice", "semicolon", "keyword", "unknown", "stray", "nolabel", "twofinds", "tworeports",
          "lonereport", "reporthandle"]
