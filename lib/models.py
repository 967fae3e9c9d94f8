"""Model checking of the specification itself: laws of it over all behaviours within bounds, and the scenarios that come
out of it, which are performed on the implementation. A law that does not hold means that the specification contradicts
itself (the check is then broken); it says nothing about the implementation yet."""
import itertools, json, os, random, re
from concurrent.futures import ThreadPoolExecutor
import core

COUNT = itertools.count()
EMITTED = re.compile(r'"@@OP (.*)"$')


def run(work, name, config, seed, heap="3g", workers=4, args=(), given=None, timeout=800):
    """Runs TLC on spec/name.tla; returns what it printed, decoded, and how much it explored."""
    d = core.tlc_dir(work)
    tag = "%s-run%d" % (name, next(COUNT))
    lines = []
    for k, v in config.get("constants", {}).items():
        lines.append("CONSTANT %s %s %s" % (k, "<-" if isinstance(v, tuple) else "=", v[0] if isinstance(v, tuple) else '"%s"' % v if isinstance(v, str) else
                                             ("TRUE" if v else "FALSE") if isinstance(v, bool) else v))
    lines.append("SPECIFICATION " + config.get("spec", "Spec"))
    for key, word in (("invariants", "INVARIANT"), ("properties", "PROPERTY"), ("constraints", "CONSTRAINT"), ("views", "VIEW"), ("symmetry", "SYMMETRY")):
        lines += [word + " " + x for x in config.get(key, ())]
    lines.append("CHECK_DEADLOCK FALSE")
    with open(os.path.join(d, tag + ".cfg"), "w") as f: f.write("\n".join(lines) + "\n")
    extra = {}
    if given is not None:
        extra["MC_IN"] = os.path.join(d, tag + ".json")
        with open(extra["MC_IN"], "w") as f: json.dump(core.norm(given), f, ensure_ascii=False)
    rc, text = core.tlc(work, name, config=tag + ".cfg", extra_env=extra, workers=workers, heap=heap, args=["-seed", str(seed)] + list(args), timeout=timeout)
    if rc != 0:
        at = text.find("Error:")
        raise core.Broken("the specification fails in the model %s (%s):\n%s" % (name, rc, text[at:at + 4000]))
    out = []
    for line in text.splitlines():
        m = EMITTED.match(line)
        if m: out.append(whole(json.loads(json.loads('"' + m.group(1) + '"'))))
    gen, distinct = core.stats_of(text)
    out.sort(key=lambda o: json.dumps(o, sort_keys=True))
    return out, {"name": name, "constants": {k: v for k, v in config.get("constants", {}).items() if not isinstance(v, tuple)}, "laws": list(config.get("invariants", ())) + list(config.get("properties", ())),
                 "generated": gen, "distinct": distinct}


def refuted(work, name, config, seed, **kw):
    """A mistake in the model that its laws have to notice: otherwise they say nothing."""
    try: run(work, name, config, seed, **kw)
    except core.Broken as e:
        m = re.search(r"(Invariant|Action property|Temporal propert\w+) ?(\w*)", str(e))
        if "is violated" in str(e) or "were violated" in str(e):
            return {"name": name, "constants": {k: v for k, v in config["constants"].items() if not isinstance(v, tuple)}, "laws": [], "noticed": m.group(2) if m else "", "generated": 0, "distinct": 0}
        raise
    raise core.Broken("no law of %s notices the mistake %s" % (name, config["constants"]["Fault"]))


def whole(x):
    """Empty objects as they are written everywhere else."""
    if isinstance(x, dict): return {k: whole(v) for k, v in x.items()}
    if isinstance(x, list): return ["m", {}] if x == ["m", []] else [whole(v) for v in x]
    return x


def reset(docs, ft=None, st=None, **kw):
    return {"op": "reset", "ft": ft or {}, "st": st or {}, "docs": docs, "delay": 20, "name": "m", "ints": False, **kw}


def doc_of(v):
    return {"root": v, "arr": False}


def filters():
    cur, lit = lambda *n: ["@", list(n)], lambda n: ["k", ["n", n], ""]
    ts = [["is", cur("a")], ["cmp", ">", cur("a"), lit(3)], ["cmp", "==", cur(), lit(2)], ["type", cur("b"), "object"], ["not", ["is", cur("b")]],
          ["and", ["is", cur("a")], ["not", ["is", cur("b")]]], ["or", ["is", cur("a")], ["cmp", "<=", cur(), lit(4)]], ["cmp", "!==", cur("a"), ["$", "$.a", ""]], ["is", cur("a", "b")]]
    from gen import filter_text
    return {filter_text(t): t for t in ts}


# ------------------------------------------------------------------- paths
FOCUS = {"C01": ["plain", "other"], "C02": ["lookups"], "C03": ["slices"], "C04": ["filters"], "C05": ["other"], "C06": ["other", "lookups"], "C07": ["other"], "C08": ["other", "plain"], "C09": ["plain"], "C10": ["plain", "lookups"], "C11": ["other"],
         "C12": ["plain", "slices"], "C13": ["plain", "slices"], "C37": ["other"]}
SELECT_LAWS = ["Selection", "NodePaths", "RoundTrip", "Narrowing", "Union"]
UPDATE_LAWS = ["Setting1", "Deleting1", "NullDeletes", "Readback", "Twice", "Overwritten", "PushPop", "Appending", "PushMany", "PopMany"]


def paths_model(name, laws):
    def model(prop, work, tier, seed):
        r = random.Random(seed)
        found, stats = [], []
        for i, focus in enumerate(FOCUS.get(prop.id, ["other"])):
            heavy = focus in ("filters", "other", "slices")
            size = (10 if heavy else 25) if tier == "quick" else (150 if heavy else 400)
            consts = {"NDocs": size, "NEmit": 4 if tier == "quick" else 40, "MaxLen": 3, "Depth": 4, "Widest": 3, "Focus": focus}
            out, s = run(work, name, {"constants": consts, "invariants": laws + ["Emitted"]}, seed * 31 + i)
            found += out
            stats.append(s)
            if tier == "thorough":       # longer paths over fewer documents
                out, s = run(work, name, {"constants": dict(consts, NDocs=8 if heavy else 40, NEmit=2, MaxLen=4), "invariants": laws + ["Emitted"]}, seed * 31 + i + 1000)
                found += out
                stats.append(s)
        r.shuffle(found)
        found = found[:1500 if tier == "quick" else 12000]
        return (selects if name == "MC_Select" else updates)(prop, found, r, tier), stats
    return model


def selects(prop, found, r, tier):
    ft = filters()
    byDoc = {}
    for o in found: byDoc.setdefault(json.dumps(o["doc"], sort_keys=True), []).append(o["path"])
    groups = []
    for d, paths in byDoc.items():
        g = [reset({"d": doc_of(json.loads(d))}, ft)]
        for p in paths:
            if prop.id == "C06": g.append({"op": "resolve", "h": "d", "path": p, "must": False})
            elif prop.id == "C37": g += [{"op": "get", "h": "d", "path": p, "must": m} for m in (True, False)]
            else: g += [{"op": "get", "h": "d", "path": p, "must": r.random() < .2}] * (2 if prop.id == "C05" else 1)
        groups.append(g)
    return groups


def updates(prop, found, r, tier):
    ft = filters()
    groups = []
    kinds = {"C08": ["set"], "C10": ["del"], "C12": ["push"], "C13": ["pop"]}.get(prop.id, ["set", "del", "push", "pop"])
    values = [["n", 999], ["m", {"a": ["n", 998], "w": ["a", [["n", 997], ["m", {}]]]}], ["a", [["n", 996], ["n", 995]]], ["z", ""], ["s", "x"]]
    for o in found[:500 if tier == "quick" else 6000]:
        op = r.choice(kinds)
        e = {"op": op, "h": "d", "path": o["path"], "must": op in ("push", "pop") or r.random() < .2}
        if op in ("set", "push"): e["val"] = r.choice(values)
        if op in ("push", "pop"): e["idx"] = r.choice([[], [0], [1], [2], [0, 1], [1, 0], [0, 2], [2, 0, 1], [1, 1], [3], [0, 3]])
        if prop.id == "C37" and op in ("set", "del"): groups.append([reset({h: doc_of(o["doc"]) for h in "de"}, ft)] + [dict(e, h=h, must=h == "d") for h in "de"])
        else: groups.append([reset({"d": doc_of(o["doc"])}, ft), e, {"op": "get", "h": "d", "path": o["path"], "must": False}])
    return groups


# --------------------------------------------------------------- documents
DOC_LAWS = ["Searching", "StripTwice", "RunsNothing", "RunTwice", "Texts", "Evals", "Marking", "Cloning"]
# which operations are of interest (the others are there too, but rarer)
OPS = {"C14": ["get", "resolve", "find", "marshal", "string"], "C15": ["clone", "set", "push", "poke"], "C16": ["find"], "C17": ["set", "del", "push", "strip", "marshal"],
       "C18": ["load"], "C19": ["load", "marshal", "string"], "C25": ["strip"], "C26": ["markup"]}


def universe(prop, seed):
    """A small world for the documents: what there is to load, set, follow and run."""
    from scripts import Scripts
    import scenarios
    g = Scripts(seed)
    g.start()
    r = g.r
    arrays = .7 if prop.id == "C17" else .25
    docs = {}
    for h in "de":
        docs[h] = g.sdoc("js", ("set", "del", "count", "scope"), depth=2, p=.5, most=2, width=2, arrays=arrays, odd=.05) if r.random() < .6 else g.doc(depth=2, width=2, arrays=arrays)
    inner = ["m", {"v": g.distinct()}]
    inner[1][r.choice(["s", "a", "k-2"])] = g.js_script([["set", "w", g.distinct()], ["scope", "at"]])
    values = [g.distinct(), r.choice([["a", [g.distinct(), g.distinct()]], ["a", []], ["m", {}], ["z", ""]]), inner, ["m", {"a": g.value(1)}], ["a", [g.value(1), inner]]]
    if r.random() < .4: values.append(["s", r.choice(["#//!py\nx", "#//!js", "#//!jsx", "#//!"])])
    both = [docs["d"], docs["e"]]
    paths = {g.path(r.choice(both), "SSSIIWMDRLF", g.ft, maxlen=3, wrong=.05) for _ in range(5)} | {"$." + r.choice(["a", "new", "k"])}
    if any(d["arr"] for d in both): paths |= {"$.array", r.choice(["$.array[0]", "$.array[*]", "$.array[0].a"])}
    sources = []
    for ops in ([["set", "done", g.distinct()]], [["count", "n"], ["del", "a"]]):
        sources.append(g.js_script(ops)[1][len("#//!js\n"):])
    g.st.setdefault("#//!js", {"id": "", "ops": []})
    for d in both:
        if any(k == "f" for k in str(d)) and has_callback(d["root"]): return universe(prop, seed + 1)
    return {"docs": docs, "values": values, "paths": sorted(paths), "ft": g.ft, "st": g.st, "sources": sources, "focus": OPS[prop.id]}


def has_callback(v):
    return v[0] == "f" or v[0] == "m" and any(map(has_callback, v[1].values())) or v[0] == "a" and any(map(has_callback, v[1]))


def size(v):
    return 1 + (sum(map(size, v[1].values())) if v[0] == "m" else sum(map(size, v[1])) if v[0] == "a" else 0)


def doc_model(prop, work, tier, seed):
    from gen import text_of
    r = random.Random(seed * 17 + 5)
    groups, stats = [], []
    quick = tier == "quick"
    given = {k: (k + "_",) for k in ()}
    consts = {"Handles": ("G_Handles",), "Values": ("G_Values",), "Paths": ("G_Paths",), "FilterTable": ("G_Filters",), "ScriptTable": ("G_Scripts",)}

    def one(i):
        u = universe(prop, seed * 1000 + i)
        base = dict(consts, Largest=max(size(d["root"]) for d in u["docs"].values()) + 6)
        out, s1 = run(work, "MC_Doc", {"spec": "MCSpec", "constants": dict(base, Emit=False, Length=0, Choice=40 if quick else 0 if i % 2 else 70, Depth=2 if i % 2 and not quick else 3), "invariants": DOC_LAWS, "properties": ["Apart", "RootKind"],
                                       "constraints": ["Bounded"], "views": ["NoLast"]}, seed, given=u, workers=2, timeout=600)
        n = 9
        hists, s2 = run(work, "MC_Doc", {"spec": "MCSpec", "constants": dict(base, Emit=True, Choice=0, Length=n, Depth=100, Largest=base["Largest"] + 40), "constraints": ["Bounded"]},
                        seed, given=u, workers=1, args=["-simulate", "num=%d" % (25 if quick else 150), "-depth", str(n + 2)])
        gs = []
        for h in hists:
            g = [reset(u["docs"], u["ft"], u["st"])]
            for o in h:
                if o["op"] == "load": o["text"] = text_of(o["val"], r)
                g.append(o)
            gs.append(g)
        return gs, [s1, s2]
    with ThreadPoolExecutor(2) as ex:
        for gs, ss in ex.map(one, range(2 if quick else 6)):
            groups += gs
            stats += ss
    return groups, stats


# ----------------------------------------------------------------- scripts
SCRIPT_LAWS = ["Confluent", "FailsAlike", "Doomed", "Complete", "NoneIsOne", "AnyLanguage"]
# what the scripts in the pool do
POOLS = {"C20": [["set", "count", "scope"], ["set", "replace", "setscript", "delany"]], "C21": [["set", "count", "copy", "scope"], ["set", "setscript", "count"]],
         "C22": [["set", "pset", "pget", "count", "trail"], ["set", "pdel", "copy", "scope"]], "C23": [["setscript", "replace", "delany", "trail"], ["setscript", "pset", "del"]],
         "C28": [["set", "del", "pset", "pdel", "count", "copy", "scope", "trail"]], "C29": [["log", "set", "scope"], ["log", "setscript"]], "C31": [["set", "throw"], ["set", "pset", "setscript"]]}
BAD_CODES = [-2, -3, -5, -6, -8, 0]


def script_world(prop, seed, i):
    from scripts import Scripts
    import copy
    g = Scripts(seed)
    g.start()
    r = g.r
    kinds = POOLS[prop.id][i % len(POOLS[prop.id])]
    tame = set(kinds) <= {"set", "count", "scope", "log"}
    # three or four scopes, some within others
    v = lambda: g.distinct()
    shapes = [lambda: (["m", {"a": ["m", {"b": ["m", {"x": v()}]}], "x": v()}], [[], [["S", "a"]], [["S", "a"], ["S", "b"]]]),
              lambda: (["m", {"l": ["a", [["m", {"x": v()}], v(), ["m", {}]]], "x": v()}], [[], [["S", "l"], ["I", 0]], [["S", "l"], ["I", 2]]]),
              lambda: (["m", {"l": ["a", [["a", [["m", {"x": v()}]]]]], "o": ["m", {"x": v()}]}], [[], [["S", "l"], ["I", 0], ["I", 0]], [["S", "o"]]]),
              lambda: (["m", {"a": ["m", {"x": v()}], "é": ["m", {"a": ["m", {}], "x": v()}]}], [[["S", "a"]], [["S", "é"]], [["S", "é"], ["S", "a"]]])]
    root, scopes = r.choice(shapes)()
    keys = r.sample(["s", "B", "a9", "a10", "_z", "é"], 2)
    like = ["m", {"x": v(), "a": ["m", {"x": v()}], "k": v()}]
    pool, twins = [], {}
    while len(pool) < (3 if r.random() < .6 else 4):
        lang = r.choice(["js", "js", "go"]) if prop.id not in ("C29",) else "js"
        if prop.id == "C28": lang = "js"
        scope = copy.deepcopy(like)
        for k in keys + ["l", "é"]: scope[1].setdefault(k, v()) if not tame else None
        ops = g.ops(scope, lang, kinds, r.randint(1, 3))
        if tame: ops = [[o[0], "t%d" % r.randint(1, 4)] + o[2:] if o[0] in ("set", "scope", "count") else o for o in ops]
        if lang == "go" and any(o[0] in ("expr", "log") for o in ops): continue
        s = g.js_script(ops) if lang == "js" else g.go_script(ops)
        pool.append(s)
        if prop.id == "C28":
            t = g.go_script(ops)
            twins[s[1]] = t
    if prop.id == "C31" and r.random() < .6:
        pool.append(r.choice([["s", "#//!py\nx"], ["s", "#//!go\npackage main"]]))
        g.st.setdefault("#//!go\npackage main", {"id": "", "ops": []})
        tame = False
    if len(set(map(str, pool))) > 1 and any(p[0] == "f" for p in pool): tame = False        # a script next to a callback cannot run
    if any(o[0] in ("throw", "pset", "pdel") for p in pool for o in g.st.get(p[1] if p[0] == "s" else "f:" + p[1], {"ops": []})["ops"]): tame = False
    return {"root": root, "scopes": scopes, "keys": keys, "pool": pool, "twins": twins, "twinned": prop.id == "C28", "tame": tame, "ft": g.ft, "st": g.st}


def script_model(prop, work, tier, seed):
    groups, stats = [], []
    quick = tier == "quick"

    def one(i):
        u = script_world(prop, seed * 1000 + i, i)
        n = 60 if quick else 600
        out, s = run(work, "MC_Scripts", {"constants": {"NDocs": n, "NEmit": 30 if quick else 300}, "invariants": SCRIPT_LAWS + ["Emitted"], "properties": ["Once", "OuterFirst", "ByName", "Apart", "Ends"]}, seed + i, given=u, workers=2, timeout=800)
        gs = []
        for o in out:
            docs = {"d": doc_of(o["doc"])}
            if u["twinned"]: docs["e"] = doc_of(o["twin"])
            g = [reset(docs, u["ft"], u["st"])] + [{"op": "run", "h": h} for h in docs]
            if not has_callback(o["doc"]):
                from gen import plain
                g.append({"op": "eval", "val": o["doc"], "text": json.dumps(plain(o["doc"]), ensure_ascii=False), "must": False, "codes": [], "h": "d"})
            gs.append(g)
        return gs, s
    with ThreadPoolExecutor(2) as ex:
        for gs, s in ex.map(one, range(2 if quick else 6)):
            groups += gs
            stats.append(s)
    return groups, stats


# ------------------------------------------------------------------- parsing
PARSE_LAWS = ["Accepted", "Unclosed", "Understood", "GivenUp", "RoundTrip", "Prefixed"]
# an alphabet, texts to start from, how many characters to add: quick, thorough
TEXTS = [("$.[]*a:,-1 ", ["$"], 6, 8), ("[]:-,10a\n", ["$[", "$.a[0", "$[1, 2"], 5, 7), ("$.*[]:,-?()@'\"aZ_1 09\t", ["$", "", "$..", "$[?(@", "$.a["], 3, 4), ("()[]'\"\\@a\n", ["$[?(", "$.a[?(@['"], 4, 5),
         (".aZ-_$9", ["$.", "$..", "$.a"], 5, 7)]


def parse_model(prop, work, tier, seed):
    quick = tier == "quick"
    groups, stats = [], []

    def one(i):
        alpha, prefixes, few, many = TEXTS[i]
        n = few if quick else many
        out, s = run(work, "MC_Parse", {"constants": {"Longest": n, "Sample": 25 if quick else 40, "Salt": seed * 7 + i},
                                        "invariants": PARSE_LAWS + ["Emitted"]}, seed, given={"alphabet": alpha, "prefixes": prefixes}, workers=3)
        return [{"op": "parse", "path": o["path"], "h": "d", "must": False} for o in out], s

    def adding(i):
        out, s = run(work, "MC_Adding", {"constants": {"MostKeys": 2 if i == 0 else 3, "Most": 3 if quick else 4, "Chosen": 12 if quick else 16, "Sample": 3 if quick else 25}, "invariants": ["CrossProduct", "SameLength", "Emitted"], "properties": ["Grows"]}, seed + i, workers=1)
        return [{"op": "addall", "h": "d", "adds": o["adds"], "must": False} for o in out], s
    todo = [(adding, i) for i in range(2)] if prop.id == "C09" else [(one, i) for i in range(len(TEXTS))]
    with ThreadPoolExecutor(3) as ex:
        for ops, s in ex.map(lambda t: t[0](t[1]), todo):
            random.Random(seed).shuffle(ops)
            ops = ops[:2500 if quick else 30000]
            groups += [[reset({"d": doc_of(["m", {}])})] + ops[k:k + 40] for k in range(0, len(ops), 40)]
            stats.append(s)
    return groups, stats


# ------------------------------------------------------------------ shebangs
SHEBANG_LAWS = ["Recognised", "Searched", "Cleaned", "Untouched", "Ran"]


def shebang_model(prop, work, tier, seed):
    quick = tier == "quick"
    r = random.Random(seed)
    given = {"alphabet": "#/!jsgoJ \n" if quick else "#/!jsgopyJS1-\"' \n\r\t{", "seeds": ["#//!js\n", "#//!go\n", "#//!py\n"]}
    out, s = run(work, "MC_Shebang", {"spec": "MCSpec", "constants": {"Edits": 2, "Sample": 60, "Salt": seed, "Handles": ("Seeds",), "Values": ("Seeds",), "Paths": ("Seeds",), "FilterTable": ("NoKeys",), "ScriptTable": ("NoKeys",)},
                                      "invariants": SHEBANG_LAWS + ["Emitted"], "views": ["View"]}, seed, given=given, workers=6)
    texts = sorted({o["text"] for o in out})
    r.shuffle(texts)
    groups = []
    S, N = lambda t: ["s", t], lambda n: ["n", n]
    for t in texts[:700 if quick else 8000]:
        kind = r.choice([0, 0, 1, 1, 2, 2, 3, 4])
        x = {"x": N(1)}
        root = [{**x, "k": S(t)}, {**x, "l": ["a", [N(1), ["m", {**x, "k": S(t)}]]]}, {**x, "o": ["m", {"p": ["m", {**x, "k": S(t)}]}]}, {**x, "l": ["a", [S(t), ["a", [S(t)]]]]}, {**x, t: N(2)}][kind]
        st = {t: {"id": "", "ops": []}} if re.fullmatch(r"#//!js(\n\s*)?", t) else {}
        g = [reset({"d": doc_of(["m", root])}, st=st), {"op": "find", "h": "d", "must": True}]
        known = t[:6] not in ("#//!js", "#//!go") or t[6:7] not in ("", "\n") or st
        for op in r.choice([["strip", "find"], ["run"] if known else ["strip"], ["run", "find"] if known else ["find", "strip"]]): g.append({"op": op, "h": "d", "must": True})
        groups.append(g)
    return groups, [s]


# -------------------------------------------------------------------- bridge
BRIDGE_LAWS = ["JsonOnly", "Stable", "Shape", "SameWay", "Deeper", "Back"]


def bridge_model(prop, work, tier, seed):
    from scripts import Scripts, EXPRS, UNDEFS, S, N, NULL
    import scenarios
    quick = tier == "quick"
    r = random.Random(seed)
    atoms = [[t, v] for v, t in EXPRS if v[0] not in "am" and str(v).isascii()] + [["[]", ["a", []]], ["{}", ["m", {}]], ["Math", ["m", {}]]] + [[u, ["u", ""]] for u in UNDEFS]
    # what JSON values are made of, so that every one of them can be written down again
    have = [v for _, v in atoms]
    atoms += [[json.dumps(v[1]), v] for v in (N(1), N(2), S("x"), ["b", True]) if v not in have]
    atoms = [a + [a[0] == "new Date(0)" or a[0].startswith("{toJSON")] for a in atoms]
    out, s = run(work, "MC_Bridge", {"constants": {"Depth": 2 if quick else 3, "Chosen": 2 if quick else 4, "Sample": 3 if quick else 25}, "invariants": BRIDGE_LAWS + ["Emitted"]}, seed, given={"atoms": atoms, "names": ["k", "a-b", "0", "toString"]}, workers=1)
    r.shuffle(out)
    out = out[:600 if quick else 8000]
    g = Scripts(seed)
    groups = []
    for i in range(0, len(out), 4):
        g.start()
        doc = ["m", {"a": N(1), "o": ["m", {"x": N(1)}], "l": ["a", [N(1), N(2), N(3), N(4)]]}]
        ops = []
        for n, o in enumerate(out[i:i + 4]):
            gone = o["val"] == ["u", ""]
            v = NULL if gone else o["val"]
            k = "v%d" % n
            way = r.randint(0, 4)
            if way == 0 or way == 4 and v == NULL: ops.append(["undef", k, o["js"]] if gone else ["expr", k, v, o["js"]])
            elif way == 1: ops.append(["psetx", "$." + k, v, o["js"]])
            elif way == 2: ops.append(["psetx", r.choice(["$.l[0]", "$.o.x", "$.l[*]", "$.o.y", "$.l[1:]"]), v, o["js"]])
            elif way == 3: ops.append(["psetx", "$.o." + k, v, o["js"]])
            else: ops += [["expr", k, v, o["js"]], ["pget", "$." + k, "g" + k], ["copy", k, "c" + k]]
        doc[1]["script"] = g.js_script(ops)
        doc[1]["z"] = g.js_script([["pget", "$.*", "all"]] if r.random() < .5 else [["count", "n"]])
        groups.append([reset({"d": doc_of(doc)}, {}, g.st), {"op": "run", "h": "d"}])
    return groups, [s]


# -------------------------------------------------------------- command line
CLI_LAWS = ["SameEnd", "ExitCodes", "OneEach", "NoneBefore", "AllOrCode", "Reported", "Kinds", "Composed", "Stops", "FilesFirst", "TwoSteps", "StripFirst", "InOrder"]


def cli_model(prop, work, tier, seed):
    from scripts import Scripts, N, NULL
    import scenarios
    quick = tier == "quick"
    groups, stats = [], []
    for i in range(2 if quick else 10):
        g = Scripts(seed * 100 + i)
        g.start()
        r = g.r
        markup = prop.id == "C35"
        docs = [["ok", scenarios.cli_doc(g, ["set", "count", "scope"], .15)] for _ in range(4)] + [["ok", ["m", {"a": N(1), "o": ["m", {"a": N(2), "l": ["a", [N(3), ["m", {}]]]}]}]], ["ok", ["a", [["m", {"a": N(1)}], N(2)]]]]
        marks = [[]]
        sources = {"json.trail.done = 1;": [["set", "done", N(1)]], "json.trail.n = Object.keys(json.trail).length;": [["count", "n"]], "throw 1;": [["throw"]], "": [], "// No script specified": []}
        for t, ops in sources.items(): g.st["#//!js\n" + t] = {"id": "cli", "ops": ops}
        def pair(p):
            t = r.choice(list(sources))
            return [p, t, t == "// No script specified"]
        if markup:
            some = ["$.m1", "$.a", "$.o", "$.o.m2", "$.*", "$.o.*", "$..a", "$.a.b", "$.l[0]", "$.new", "$.o.l[1].s", "$.array[0].a", "$.m1.x", "$"]
            marks += [[pair(r.choice(some)) for _ in range(n)] for n in (1, 1, 1, 1, 2, 2, 2, 3)] + ([[["$[", "x", False]]] if r.random() < .5 else [])
        world = {"inputs": docs + [r.choice([["bad", NULL], ["missing", NULL]])], "texts": [["none", NULL], ["none", NULL], docs[0], docs[-1], ["bad", NULL]], "marks": marks, "ft": g.ft, "st": g.st,
                 "subs": ["markup"] * 12 + ["eval", ""] if markup else ["eval"] * 14 + ["run", ""], "langs": ["js"] * 6 + ["go", "py"] if markup else ["js"]}
        out, s = run(work, "MC_Cli", {"spec": "MCSpec", "constants": {"MostFiles": 3, "NCalls": 300 if quick else 3000, "NEmit": 40 if quick else 300, "Handles": ("Ins",), "Values": ("Ins",), "Paths": ("Ins",), "FilterTable": ("FT",), "ScriptTable": ("ST",)},
                                     "invariants": CLI_LAWS + ["Emitted"], "properties": ["Prints", "Ending"]}, seed + i, given=world, workers=4)
        for o in out:
            o.update(op="cli", h="", must=False, verbose=False, style=r.randint(0, 3), seed=r.randint(0, 10 ** 6))
            groups.append([reset({}, g.ft, g.st), o])
        stats.append(s)
    return groups, stats


# -------------------------------------------------------------- halting delay
HALTING_LAWS = ["NotEarly", "Soon", "InTime", "AllOf", "NoWatch", "NoLeak", "Stopped"]
# mistakes that the laws have to notice
HALTING_FAULTS = {"C30": ["early", "one delay for all", "unwatched"], "C33": ["unbuffered", "one place", "not stopped"], "C36": ["early", "one delay for all", "unwatched", "not stopped"]}


def halting_model(prop, work, tier, seed):
    from scripts import Scripts, N
    quick = tier == "quick"
    langs = {"C30": '{"js", "go"}', "C33": '{"js", "go", "filter"}', "C36": '{"filter"}'}[prop.id]
    consts = {"Delay": 3, "MostOps": 2, "MostParts": 3, "NHist": 2500 if quick else 40000, "Langs": ("Langs_",), "Fault": "none"}
    stats = []
    for f in HALTING_FAULTS[prop.id]:
        stats.append(refuted(work, "MC_Halting", {"constants": dict(consts, Fault=f, NHist=400), "invariants": HALTING_LAWS}, seed, given={"langs": json.loads(langs.replace("{", "[").replace("}", "]"))}))
    out, s = run(work, "MC_Halting", {"constants": consts, "invariants": HALTING_LAWS + ["Emitted"], "properties": ["Answers"]}, seed, given={"langs": json.loads(langs.replace("{", "[").replace("}", "]"))})
    stats.append(s)
    r = random.Random(seed)
    r.shuffle(out)
    g = Scripts(seed)
    groups, ends = [], set()
    # histories that differ in what becomes of their parts, as far as there are any
    out.sort(key=lambda o: o["hist"] == [])
    chosen = []
    for o in out:
        k = str([[l, [d > 3 for d in ds]] for l, ds in o["hist"]])
        if k not in ends or len(chosen) > 10 ** 6:
            ends.add(k)
            chosen.append(o)
    chosen = chosen[:16 if quick else 140]
    unit = 1.0 if prop.id in ("C33", "C36") else 2.0        # the halting delay in seconds
    if prop.id == "C36": unit = 1.0
    for o in chosen:
        g.start()
        docs, ops = {}, []
        for i, (lang, durs) in enumerate(o["hist"]):
            h = "de"[i]
            if lang == "filter":
                kinds = [0 if d == 0 else 1 if d < 3 else 2 if d < 100 else 3 for d in durs]
                text = "(function (n%d) { var t = Date.now(), d = n%d == 1 ? 450 : n%d == 2 ? 1700 : 0; while (n%d == 3 || Date.now() - t < d) { ; } return true; })(@)" % (i, i, i, i)
                g.ft[text] = ["raw", text, "h" if max(kinds) > 1 else "t"]
                nodes = ["a", [N(k) for k in kinds]] if r.random() < .6 else ["m", {"abc"[j]: N(k) for j, k in enumerate(kinds)}]
                docs[h] = doc_of(["m", {"o": nodes, "x": g.distinct()}])
                kind = r.choice(["get", "get", "set", "del"])
                ops.append({"op": kind, "h": h, "path": "$.o[?(%s)]" % text, "must": False, **({"val": g.distinct()} if kind == "set" else {})})
                continue
            mk = g.js_script if lang == "js" else g.go_script
            scripts = []
            for d in durs:
                op = [] if d == 0 else [["sleep", int(unit * 550)]] if d < 3 else [["long", int(unit * 1550)]] if d < 100 else [["loop"]]
                scripts.append(mk([["set", "x", g.distinct()]] + op + ([["set", "y", g.distinct()]] if d < 3 else [])))
            nested = r.random() < .5
            if nested:          # one within the other, the last innermost
                root = ["m", {"v": N(1)}]
                for j, s in enumerate(reversed(scripts)):
                    root[1]["s"] = s
                    if j < len(scripts) - 1: root = ["m", {"v": N(1), "in": root if r.random() < .6 else ["a", [N(2), root]]}]
            else: root = ["m", {"abc"[j]: s for j, s in enumerate(scripts)}]
            docs[h] = doc_of(root)
            ops.append({"op": "run", "h": h})
        lines = [reset(docs, g.ft, g.st, delay=int(unit))] + ops
        if prop.id == "C33": lines.append({"op": "quiet", "h": "d", "wait": 5000, "must": False, "never": o["never"]})
        groups.append(lines)
    return groups, stats


# ----------------------------------------------------- goroutines and fan-out
FANOUT_LAWS = ["AsAlone", "Unread", "Repeatable"]


def fanout_world(prop, seed, name):
    from scripts import Scripts
    import scenarios
    g = Scripts(seed)
    g.start()
    r = g.r
    docs, pools, fts, sts = [], [], [], []
    own = 2
    ft, st = {}, {}
    for w in range(own + 1):
        g.start()
        g.prefix = "%sg%d." % (name, w)
        scripted = w < own and prop.id == "C32"
        d = g.sdoc(r.choice(["js", "js", "go"]), ["set", "count", "pset", "pget", "scope"], depth=2, p=.5, most=2, width=3) if scripted else g.doc(depth=3, width=3)
        pool = []
        for _ in range(7):
            p = g.path(d, "SSIMMMWRRDLF", g.ft, wrong=.08, must_have=None if r.random() < .4 else "MR")
            pool.append(["get", p] if w == own or prop.id == "C05" or r.random() < .5 else ["set", p, g.value(1)])
        if scripted: pool += [["run"], ["run"]]
        docs.append(d)
        pools.append(pool)
        ft.update(g.ft)
        st.update(g.st)
    return {"docs": docs, "pools": pools, "ft": ft, "st": st}, own


def few_paths(world, most=5):
    """Without the paths that stand for very many."""
    import re as _re
    for pool in world["pools"]: pool[:] = [o for o in pool if o[0] == "run" or o[1].count(",") <= 2] or [["get", "$.a"]]


def fanout_model(prop, work, tier, seed):
    quick = tier == "quick"
    r = random.Random(seed)
    groups, stats = [], []
    base = {"Own": 2, "Readers": 1, "Length": 2, "NProgs": 4 if quick else 60, "NEmit": 5 if quick else 20, "Fault": "none",
            **{k: ("NoKeys",) for k in ("Handles", "Values", "Paths", "FilterTable", "ScriptTable")}}

    def one(i):
        name = "w%d" % i
        u, own = fanout_world(prop, seed * 1000 + i, name)
        few_paths(u)
        out, s = run(work, "MC_Fanout", {"spec": "FSpec", "constants": base, "invariants": FANOUT_LAWS + ["Emitted"]}, seed + i, given=u, workers=2)
        ss = [s]
        if i == 0:
            ss.append(run(work, "MC_Fanout", {"spec": "FSpec", "constants": dict(base, NProgs=2), "invariants": FANOUT_LAWS + ["NotStuck"]}, seed, given=faulty(), workers=2)[1])
            for f in ["as they come", "one place"] + (["one document"] if prop.id == "C32" else []):
                ss.append(refuted(work, "MC_Fanout", {"spec": "FSpec", "constants": dict(base, Fault=f, NProgs=1, Length=1), "invariants": FANOUT_LAWS}, seed, given=faulty(), workers=2))
        return u, own, name, out, ss
    with ThreadPoolExecutor(3) as ex: worlds = list(ex.map(one, range(3 if quick else 24)))
    op = lambda o, h: {"op": "run", "h": h} if o[0] == "run" else {"op": o[0], "h": h, "path": o[1], "must": False, **({"val": o[2]} if o[0] == "set" else {})}
    for u, own, name, out, ss in worlds:
        stats += ss
        if prop.id == "C05":
            for o in out:
                for w, ops in enumerate(o["prog"]):
                    groups.append([reset({"d": u["docs"][min(w, own)]}, u["ft"], u["st"])] + [op(x, "d") for x in ops] * 2)
    if prop.id == "C05": return groups, stats
    # rounds: one choice of programs out of each world, all at once
    for k in range(base["NEmit"]):
        for ws in [worlds[i:i + 3] for i in range(0, len(worlds), 3)]:
            rnd = []
            for u, own, name, out, ss in ws:
                if k >= len(out): continue
                prog = out[k]["prog"]
                for w in range(own):
                    rnd.append([reset({"d": u["docs"][w]}, u["ft"], u["st"], name="%sg%d" % (name, w))] + [op(x, "d") for x in prog[w]])
                rnd.append([reset({"d": u["docs"][own]}, u["ft"], u["st"], name="%sg%d" % (name, own), shared=True)] + [op(x, "d") for ops in prog[own:] for x in ops] * 4)
            if rnd: groups.append(rnd)
    return groups, stats


def faulty():
    """A world in which mistakes show."""
    N = lambda n: ["n", n]
    d = lambda k: doc_of(["m", {"a": N(k), "b": ["a", [N(k + 1), N(k + 2)]], "c": N(k + 3)}])
    return {"docs": [d(10), d(20), d(30)], "pools": [[["get", "$.b[0, 1]"]], [["set", "$.b[0, 1]", N(99)]], [["get", "$.b[1, 0]"]]], "ft": {}, "st": {}}


MODELS = {"MC_Fanout": fanout_model, "MC_Halting": halting_model, "MC_Cli": cli_model, "MC_Bridge": bridge_model, "MC_Shebang": shebang_model, "MC_Parse": parse_model, "MC_Scripts": script_model, "MC_Doc": doc_model, "MC_Select": paths_model("MC_Select", SELECT_LAWS), "MC_Update": paths_model("MC_Update", UPDATE_LAWS)}


def check(prop, work, tier, seed):
    """The groups of operations that the models of a property yield, and what was explored."""
    groups, stats = [], []
    with ThreadPoolExecutor(2) as ex:
        todo = [ex.submit(MODELS[m], prop, work, tier, seed) for m in prop.models if m in MODELS]
        for t in todo:
            g, s = t.result()
            groups += g
            stats += s
    return groups, stats
