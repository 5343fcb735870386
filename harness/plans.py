"""Which models, families, generators and workloads decide which property."""
import gen
import scripts
import work
from gen import Rng

ASSUMPTIONS = [
    "TLC, Python's json and the recording driver are trusted; the stored state is read from the files, not through the code under test",
    "bounds: see DESIGN.md; verdicts hold for the behaviours explored",
    "one session at a time uses a database, except in C23, C24 and C26",
]

# model, configuration, has a flaw that must be shown
WG, WGT = ("MC", "MCquick", False), ("MC", "MCthorough", False)
MODELS = {p: ([WG], [WGT]) for p in ("C01", "C02", "C04", "C05", "C06", "C07", "C08", "C09", "C19")}
MODELS["C03"] = MODELS["C20"] = ([WG, ("MC", "MCcached", True)], [WGT, ("MC", "MCcached", True)])
MODELS["C14"] = MODELS["C15"] = ([WG, ("MC", "MCold", True), ("MC", "MCtorn", True)], [WGT, ("MC", "MCold", True), ("MC", "MCtorn", True)])
MODELS["C23"] = ([("MC", "MCconc", False), ("MC", "MColdread", True), ("MC", "MCtorn", True)], [("MC", "MCconcthorough", False), ("MC", "MColdread", True), ("MC", "MCtorn", True)])
MODELS["C24"] = ([("MC", "MCconc", False), ("MC", "MCnolock", True), ("MC", "MClate", True)], [("MC", "MCconcthorough", False), ("MC", "MCnolock", True), ("MC", "MClate", True)])
_cat = [("MCCatalog", "MCCatalogguard", True), ("MCCatalog", "MCCatalogprefix", True)]
MODELS["C16"] = ([("MCCatalog", "MCCatalogquick", False)] + _cat, [("MCCatalog", "MCCatalogthorough", False)] + _cat)
MODELS["C17"] = ([("MCCatalog", "MCCatalogquick", False)], [("MCCatalog", "MCCatalogthorough", False)])
_sh = [("MCShell", "MCShell" + x, True) for x in ("help", "errors", "letter")]
MODELS["C18"] = ([("MCShell", "MCShellquick", False)] + _sh, [("MCShell", "MCShellthorough", False)] + _sh)
_st = [("MCStore", "MCStore" + x, True) for x in ("inplace", "replace", "partial")]
MODELS["C22"] = ([("MCStore", "MCStorequick", False)] + _st, [("MCStore", "MCStorethorough", False)] + _st)

_adm = lambda c: [("MCAdmin", "MCAdmin" + x, True) for x in c]
MODELS["C25"] = ([("MCAdmin", "MCAdminquick", False)] + _adm(["touch"]), [("MCAdmin", "MCAdminthorough", False)] + _adm(["touch"]))
MODELS["C26"] = ([("MCAdmin", "MCAdminquick", False)] + _adm(["nolock", "stale"]), [("MCAdmin", "MCAdminthorough", False)] + _adm(["nolock", "stale"]))
_lang = lambda *c: ([("MCLang", "MCLangquick", False)] + [("MCLang", "MCLang" + x, True) for x in c],
                    [("MCLang", "MCLang" + x, False) for x in ("thorough", "places")] + [("MCLang", "MCLang" + x, True) for x in c])
MODELS["C10"] = _lang("squeeze", "greedy")
MODELS["C11"] = _lang("c11")
MODELS["C12"] = _lang("c12", "skip")
MODELS["C13"] = _lang("c13")
MODELS["C21"] = _lang("left", "single")
MODELS["C28"] = _lang("reorder", "greedy")
_req = lambda *c: [("MCRequest", "MCRequest" + x, True) for x in c]
MODELS["C27"] = ([("MCRequest", "MCRequestquick", False)] + _req("unset", "every"),
                 [("MCRequest", "MCRequestthorough", False)] + _req("replace", "keep", "unset", "every", "nodes", "no", "shared"))
MODELS["C08"] = ([WG] + _lang("skip")[0], [WGT] + _lang("skip")[1])


def models(prop, tier):
    return MODELS.get(prop, ([], []))[tier == "thorough"]


# families of texts, complete; p: as requests
FAMILIES = {
    "C01": ["shapes", "docs"], "C02": ["shapes", "layouts"], "C03": ["shapes"], "C04": ["finds", "shapes"], "C05": ["shapes"],
    "C06": ["near", "statements"], "C07": ["values", "docs"], "C08": ["near", "statements", "docs"], "C09": ["finds"],
    "C10": ["layouts", "statements"], "C11": ["directions"], "C12": ["near", "statements", "docs"], "C13": ["handles", "statements", "docs"],
    "C20": [], "C21": ["finds", "docs"], "C28": ["statements", "handles", "docs", "directions"],
}
# queries the writer of MCLang writes: how many
WRITTEN = {p: 800 for p in ("C01", "C02", "C06", "C07")}
WRITTEN.update({p: 1500 for p in ("C08", "C10", "C11", "C12", "C13", "C21", "C28")})
# thorough: all of them, for what is decided about any query
GENERAL = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C12", "C19"}
ALL = ["shapes", "layouts", "values", "near", "statements", "handles", "directions", "finds", "docs"]

# simulated scripts: generator, length, quick, thorough
GRAPH = ("Scripts", "Trace", scripts.graph_jobs)
CATALOG = ("ScriptsCatalog", "CatalogTrace", scripts.catalog_jobs)
STORE = ("ScriptsStore", "StoreTrace", scripts.store_jobs)
SCHED = ("ScriptsSched", "Trace", scripts.sched_jobs)
SHELL = ("ScriptsShell", "ShellTrace", scripts.shell_jobs)
ONCE = ("ScriptsAdmin", "AdminTrace", scripts.admin_once_jobs)
CUT = ("ScriptsAdmin", "AdminTrace", scripts.admin_cut_jobs)
SIMS = {p: [(GRAPH, 14, 120, 2500)] for p in
        ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C12", "C13", "C19", "C20")}
SIMS["C16"] = [(CATALOG, 30, 150, 2500), (GRAPH, 14, 80, 800)]
SIMS["C17"] = [(CATALOG, 30, 150, 2500), (GRAPH, 14, 80, 800)]
SIMS["C18"] = [(SHELL, 40, 90, 1500)]
SIMS["C23"] = SIMS["C24"] = [(SCHED, 18, 150, 3000), (GRAPH, 18, 80, 800)]
SIMS["C25"] = [(CUT, 27, 6, 150)]
SIMS["C26"] = [(ONCE, 27, 60, 1500)]
SIMS["C22"] = [(STORE, 40, 250, 6000)]

OK, MIX = ("ok",), ("ok", "mut", "brk", "brk", "small")
BAD = ("make", "mut", "brk", "brk", "brk", "make")


def H(modes, length=10, **kw):
    return lambda r, n, p: work.histories(r, n, p, modes, length, **kw)


def W(f, *a, **kw):
    return lambda r, n, p: f(r, n, *a, prefix=p, **kw)


INT_K, INT_F = W(work.interrupted, work.KILLS), W(work.interrupted, work.FAILS)
# random workloads: function, quick, thorough, with the shim
WORK = {
    "C01": [(W(work.large), 2, 40, 0), (W(work.many_statements), 2, 40, 0), (H(("ok", "make")), 120, 4000, 0), (W(work.big_queries), 12, 300, 0), (W(work.long_histories), 4, 60, 0)],
    "C02": [(W(work.large), 2, 40, 0), (H(("ok", "make")), 120, 4000, 0), (W(work.big_queries), 12, 300, 0)],
    "C03": [(W(work.alternating), 16, 200, 0), (W(work.large), 2, 40, 0), (H(MIX), 100, 3000, 0), (W(work.several), 40, 600, 0), (W(work.reborn), 20, 300, 0), (W(work.long_histories), 6, 80, 0), (W(work.big_queries), 8, 100, 0),
            (INT_K, 3, 60, 1), (INT_F, 3, 60, 1)],
    "C04": [(W(work.alternating), 16, 200, 0), (W(work.large), 2, 40, 0), (H(("make", "find", "find", "ok", "mut", "brk")), 150, 4000, 0), (W(work.several), 30, 600, 0), (INT_K, 2, 40, 1), (INT_F, 2, 40, 1)],
    "C05": [(W(work.wide), 1, 20, 0), (W(work.alternating), 16, 200, 0), (W(work.large), 2, 40, 0), (H(MIX), 120, 4000, 0), (W(work.many), 8, 150, 0), (W(work.several), 40, 600, 0), (W(work.long_histories), 4, 60, 0), (INT_K, 3, 60, 1), (INT_F, 3, 60, 1)],
    "C06": [(W(work.alternating), 10, 200, 0), (H(BAD), 200, 6000, 0), (W(work.reports), 20, 300, 0)],
    "C07": [(H(OK), 120, 5000, 0), (W(work.big_queries), 12, 300, 0)],
    "C08": [(H(MIX), 120, 6000, 0), (W(work.large), 2, 40, 0), (W(work.many_statements), 2, 40, 0), (W(work.big_queries), 8, 200, 0)],
    "C09": [(W(work.wide), 1, 20, 0), (W(work.alternating), 24, 400, 0), (H(("make", "find", "find", "small")), 200, 5000, 0), (H(("make", "find"), 40), 12, 300, 0), (W(work.reborn), 40, 800, 0), (W(work.many), 20, 300, 0), (INT_K, 3, 60, 1), (INT_F, 3, 60, 1)],
    "C10": [(W(work.relayout), 60, 1500, 0), (H(OK), 80, 2500, 0)],
    "C11": [(H(("ok", "nodir", "bothdir", "lower")), 200, 6000, 0)],
    "C12": [(W(work.alternating), 10, 200, 0), (H(("brk",)), 80, 2000, 0), (H(MIX), 150, 6000, 0), (W(work.big_queries), 8, 150, 0)],
    "C13": [(W(work.reports), 100, 2500, 0), (H(("ok", "handles", "twofinds", "tworeports", "lonereport", "reporthandle")), 60, 2000, 0)],
    "C14": [(INT_K, 14, 400, 1)],
    "C15": [(INT_F, 14, 400, 1)],
    "C16": [(W(work.several), 60, 1500, 0), (W(work.taking_turns), 40, 800, 0), (W(work.many_names), 8, 150, 0)],
    "C17": [(H(("ok", "small"), 3), 60, 1500, 0), (W(work.reborn), 60, 1500, 0), (W(work.taking_turns), 40, 800, 0), (W(work.many_names), 8, 150, 0)],
    "C18": [(W(work.typed), 14, 300, 0)],
    "C19": [(W(work.timed), 60, 800, 0), (H(MIX), 60, 2000, 0)],
    "C20": [(W(work.alternating), 30, 600, 0), (W(work.routes), 80, 2500, 0), (W(work.reborn), 30, 800, 0)],
    "C23": [(W(work.alternating), 24, 400, 0), (W(work.schedules), 24, 500, 1), (W(work.schedules, kill=True), 8, 150, 1)],
    "C24": [(W(work.alternating), 24, 400, 0), (W(work.schedules, 2), 10, 200, 1), (W(work.schedules, 3), 8, 100, 1), (W(work.schedules, 2, kill=True), 4, 80, 1)],
    "C21": [(W(work.requests), 150, 5000, 0)],
    "C27": [(W(work.criteria), 100, 3000, 0)],
    "C28": [(W(work.readings), 120, 4000, 0)],
    "C25": [(W(work.admins, work.KILLS), 10, 200, 1), (W(work.admins, work.FAILS), 10, 200, 1)],
    "C26": [(W(work.at_once), 64, 900, 1), (W(work.at_once, kill=True), 20, 300, 1)],
}


TEXTS = {"C21": work.request_texts, "C28": work.reading_texts}


def batches(prop, tier, seed, scratch):
    """[(trace module, jobs, with the shim)] and what to say about it."""
    deep = tier == "thorough"
    graph, other, shim, admin = [], {}, [], []
    cov = {"families": {}, "simulated_scripts": {}, "random_scripts": 0}
    fams = list(FAMILIES.get(prop, []))
    if deep and prop in GENERAL:
        fams += [f for f in ALL if f not in fams]
    for f in fams:
        texts = scripts.enumerate_texts(f, scratch)
        cov["families"][f] = len(texts)
        graph += TEXTS.get(prop, work.texts_jobs)(f"{f}_", texts)
    if prop in WRITTEN:
        most = WRITTEN[prop]
        texts = scripts.written(scratch, 600 if deep else 70, seed * 100 + int(prop[1:]), most * 8 if deep else most)
        if deep:
            texts = sorted(set(texts) | set(scripts.written(scratch, 0, seed, 10**6, True)))
        cov["families"]["written"] = len(texts)
        graph += TEXTS.get(prop, work.texts_jobs)("written_", texts)
    if prop == "C27":
        cases = scripts.with_criteria(scratch, seed, 10**6 if deep else 2000)
        cov["families"]["criteria"] = len(cases)
        graph += work.criteria_jobs("criteria_", cases)
    for k, ((genmod, trace, make), length, quick, thorough) in enumerate(SIMS.get(prop, [])):
        sc, states = scripts.simulate(genmod, length, thorough if deep else quick, seed * 1000 + int(prop[1:]), scratch)
        cov["simulated_scripts"][genmod] = len(sc)
        jobs = make(sc, f"{genmod}{k}_")
        if genmod == "ScriptsSched":
            shim += jobs
        elif genmod == "ScriptsAdmin":
            admin += jobs
        elif trace == "Trace":
            graph += jobs
        else:
            other.setdefault(trace, []).extend(jobs)
    for k, (fn, quick, thorough, needs_shim) in enumerate(WORK.get(prop, [])):
        r = Rng(f"{seed}/{prop}/{k}")
        jobs = fn(r, thorough if deep else quick, f"w{k}_")
        cov["random_scripts"] += len(jobs)
        for j in jobs:
            if j.get("kind") == "shell":
                other.setdefault("ShellTrace", []).append(j)
            elif j.get("kind") == "catalog":
                other.setdefault("CatalogTrace", []).append(j)
            elif j.get("kind") == "admin":
                admin.append(j)
            else:
                (shim if needs_shim else graph).append(j)
    out = []
    step = 3000 if deep else 10**9
    for mod, jobs, sh in [("Trace", graph, False), ("Trace", shim, True), ("AdminTrace", admin, True)] + [(m, j, False) for m, j in sorted(other.items())]:
        n = min(step, 100) if sh and deep else step
        for k in range(0, len(jobs), n):
            out.append((mod, jobs[k:k + n], sh))
    return out, cov
