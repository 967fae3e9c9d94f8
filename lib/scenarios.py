"""The random scenarios of each property. Each function returns a list of groups of operations for the driver; what the
operations should do is decided by the specification alone."""
import copy, json
from core import groups_of
from gen import BADTEXTS, STRS, DECS, Gen, S, N, NULL, NAMES, TYPED, filter_text, text_of, plain
from scripts import Scripts, LOOPS, THROWS, NOSHEBANG, BADSHEBANG, EXPRS, UNDEFS, js_op, jq

ALL = "SSSSIIWWMDRLF"


def maybe(g, p): return g.r.random() < p


def reads(seed, n, kinds, must_have=None, depth=(2, 3, 4), per=8, wrong=.06, big=.0, resolve=0.0, getabs=0.1, maxlen=4, must=.25, twice=0.0, raw=0.0, dollar=.15):
    """Reads of random documents."""
    g = Gen(seed)
    g.dollar = dollar
    lines = []
    for i in range(n):
        ft = {}
        if maybe(g, big):
            d = g.doc(depth=2, width=g.r.randint(12, 40), odd=.05) if maybe(g, .5) else g.nested(g.r.randint(8, 40))
        else:
            d = suited(g, depth, must_have)
        lines.append(g.reset({"d": d}, ft))
        for _ in range(per):
            p = g.path(d, kinds, ft, maxlen=g.r.choice([1, 2, 3, maxlen]), wrong=wrong, must_have=must_have)
            e = {"op": "get", "h": "d", "path": p, "must": maybe(g, must)}
            if maybe(g, resolve): e = {"op": "resolve", "h": "d", "path": p, "must": False}
            lines.append(e)
            if maybe(g, twice):
                for _ in range(3): lines.append(dict(e))
        if maybe(g, getabs):
            lines.append({"op": "getabs", "h": "d", "paths": abs_paths(g, d, ft), "must": False})
    return groups_of(lines)


def suited(g, depth, must_have):
    """A document in which paths with slices or sets of indices lead somewhere."""
    for _ in range(6):
        d = g.doc(depth=g.r.choice(depth))
        if not must_have or not set(must_have) & set("LMI") or any(len(a[1]) > 1 for a in lists(d["root"])): break
    return d


def lists(v):
    es = list(v[1].values()) if v[0] == "m" else v[1] if v[0] == "a" else []
    return ([v] if v[0] == "a" else []) + [a for e in es for a in lists(e)]


def abs_paths(g, d, ft, n=None, wrong=.05):
    """Absolute paths as sequences of keys (names of any kind included)."""
    out = []
    for _ in range(n or g.r.randint(1, 5)):
        v, path = d["root"], []
        for _ in range(g.r.randint(1, 4)):
            r = g.r
            if v is None: break
            opts = []
            if v[0] == "m" and v[1]: opts += [["S", r.choice(sorted(v[1]))]] * 4 + [["W", ""]]
            if v[0] == "a" and v[1]: opts += [["I", r.randrange(len(v[1]))]] * 3 + [["W", ""], g.slice(len(v[1]))]
            if v[0] in "ma" and v[1]:
                ks = sorted(g.names_in(v))
                if ks: opts.append(["R", r.choice(ks)])
            if v[0] == "m" and v[1]: opts.append(["D", ""])
            if maybe(g, wrong): opts = [["S", "nope"], ["I", 77], ["I", -1], ["E", ""]]
            if not opts: break
            k = r.choice(opts)
            path.append(k)
            v = g.follow(v, k)
        if path: out.append(path)
    return out or [[["S", "a"]]]


def writes(seed, n, kinds, ops=("set",), must_have=None, depth=(2, 3), per=3, wrong=.06, readback=True, abs_=.1, must=.25, idx=None, maxlen=4, values=None, both=False, dollar=.15):
    g = Gen(seed)
    g.dollar = dollar
    lines = []
    for i in range(n):
        ft = {}
        d = suited(g, depth, must_have)
        lines.append(g.reset({"d": d}, ft))
        grown = False
        for _ in range(per):
            p = g.path(d, kinds, ft, maxlen=g.r.choice([1, 2, 3, maxlen]), wrong=wrong, must_have=must_have)
            if grown and ".." in p: continue
            if maybe(g, .2): p = new_key(g, d, p)
            op = g.r.choice(ops)
            e = {"op": op, "h": "d", "path": p, "must": maybe(g, must) or op in ("push", "pop")}
            if op in ("set", "push"): e["val"] = (values or (lambda g: g.value(g.r.choice([0, 1, 2]))))(g)
            if op in ("push", "pop"): e["idx"] = (idx or indices)(g, op)
            if op in ("set", "del") and maybe(g, abs_):
                e = {"op": op + "abs", "h": "d", "paths": abs_paths(g, d, ft), "must": False}
                if op == "set": e["val"] = g.value(1)
            lines.append(e)
            if readback and "path" in e: lines.append({"op": "get", "h": "d", "path": e["path"], "must": False})
            if op in ("push", "pop") and (".." in p or any(c in p for c in "*:,?") and (grown or maybe(g, .6))): break       # or all of it would grow and grow
            grown = grown or op == "push" and any(c in p for c in "*:,?")
    return groups_of(lines)


def new_key(g, d, p):
    """The path of a key that does not exist yet."""
    return p + "." + g.r.choice(["new", "n_1", "fresh"])


def indices(g, op):
    r = g.r
    c = r.random()
    if c < .25: return []
    if c < .5: return [r.choice([0, 1, 2, 3])]
    if c < .85: return [r.choice([0, 1, 2, 3, 4, 6]) for _ in range(r.randint(2, 4))]
    if op == "pop" and c < .95: return [r.choice([-1, 0, -3, 2, 1]) for _ in range(r.randint(1, 3))]
    return [r.choice([9, 12, 5])]


# ------------------------------------------------------------------ documents

def multi(seed, n):
    """Operations over several paths, some of which fail."""
    g = Gen(seed)
    lines = []
    for i in range(n):
        ft = {}
        d = g.doc(depth=3)
        lines.append(g.reset({"d": d, "e": g.doc(depth=2)}, ft))
        for _ in range(3):
            op = g.r.choice(["setabs", "delabs", "getabs", "set", "del"])
            e = {"op": op, "h": "d", "must": False}
            if op.endswith("abs"): e["paths"] = abs_paths(g, d, ft, g.r.randint(2, 6), wrong=.12)
            else: e["path"] = g.path(d, "SSIMMML", ft, must_have="M", wrong=.15)
            if op.startswith("set"): e["val"] = g.value(1)
            lines.append(e)
    return groups_of(lines)


def musts(seed, n):
    """Each operation in both its forms, on the same document."""
    g = Gen(seed)
    lines = []
    for i in range(n):
        ft = {}
        d = g.doc(depth=g.r.choice([2, 3]))
        if maybe(g, .12): d = {"root": ["m", {}], "arr": False}
        lines.append(g.reset({"d": d, "e": copy.deepcopy(d)}, ft))
        for _ in range(5):
            p = g.path(d, ALL, ft, wrong=.15)
            if maybe(g, .1): p = g.r.choice(["$.a.b", "$.a[0]", "$...", "$.a.*", "$.*", "$..a", "$[0]", "$.a..b"])
            op = g.r.choice(["get", "get", "set", "del", "push", "pop"])
            if op in ("push", "pop"):
                lines.append({"op": op, "h": "d", "path": p, "must": True, "idx": indices(g, op), **({"val": g.value(1)} if op == "push" else {})})
                continue
            v = {"val": g.value(1)} if op == "set" else {}
            for h, m in (("d", True), ("e", False)):
                lines.append({"op": op, "h": h, "path": p, "must": m, **v})
    return groups_of(lines)


def pure(seed, n):
    """Everything that only reads, on documents which hold scripts too, with the results changed afterwards."""
    g = Scripts(seed)
    lines = []
    for i in range(n):
        g.start()
        if maybe(g, .4): d = g.sdoc(g.r.choice(["js", "js", "go"]), depth=2, p=.4)
        else: d = g.doc(depth=g.r.choice([2, 3]))
        lines.append(g.reset({"d": d, "e": g.doc(depth=2)}, g.ft, st=g.st))
        for _ in range(5):
            p = g.path(d, ALL, g.ft, wrong=.1)
            lines.append(g.r.choice([{"op": "get", "h": "d", "path": p, "must": maybe(g, .4)}, {"op": "resolve", "h": "d", "path": p, "must": False},
                                     {"op": "getabs", "h": "d", "paths": abs_paths(g, d, g.ft), "must": False},
                                     {"op": "find", "h": "d", "must": True}, {"op": "marshal", "h": "d", "must": False},
                                     {"op": "string", "h": "d", "must": True}] if not has_fn(d["root"]) else
                                    [{"op": "get", "h": "d", "path": p, "must": maybe(g, .4)}, {"op": "find", "h": "d", "must": True}]))
    return groups_of(lines)


def has_fn(v):
    return v[0] == "f" or v[0] == "m" and any(has_fn(e) for e in v[1].values()) or v[0] == "a" and any(has_fn(e) for e in v[1])


def independent(seed, n):
    """Copies: clones, and values that are set at several places, pushed or popped, and changed afterwards."""
    g = Gen(seed)
    lines = []
    box = lambda: g.r.choice([["m", {"q": g.distinct(), "w": ["a", [g.distinct()]]}], ["a", [["m", {"q": g.distinct()}], g.distinct()]], ["m", {"q": ["m", {"deep": ["a", [N(1), ["m", {}]]]}]}]])
    for i in range(n):
        ft = {}
        d = g.doc(depth=3)
        lines.append(g.reset({"d": d, "e": g.doc(depth=2)}, ft))
        for _ in range(g.r.randint(3, 7)):
            c = g.r.random()
            h = g.r.choice(["d", "e", "f"]) if any(l["op"] == "clone" and l["h"] == "f" for l in lines[-8:]) and "f" in made(lines) else g.r.choice(["d", "e"])
            if c < .3:
                lines.append({"op": "clone", "h": g.r.choice(["e", "f", "d"]), "from": h, "clear": maybe(g, .1), "must": False})
            elif c < .55:
                lines.append({"op": "set", "h": h, "path": g.path(d, "SSWWMRL", ft, maxlen=3), "val": box(), "must": False})
                if maybe(g, .7): lines.append({"op": "poke", "h": h, "must": False})
                tail = g.r.choice([".q", ".w", "[0]", ".q.deep", ".w[0]"])
                lines.append({"op": "set", "h": h, "path": g.path(d, "SIM", ft, maxlen=2, wrong=0) + tail, "val": g.value(1), "must": False})
            elif c < .75:
                op = g.r.choice(["push", "pop"])
                lines.append({"op": op, "h": h, "path": g.path(d, "SSIWMRL", ft, maxlen=3), "idx": indices(g, op), "must": True, **({"val": box()} if op == "push" else {})})
                if op == "push" and maybe(g, .7): lines.append({"op": "poke", "h": h, "must": False})
            else:
                lines.append({"op": g.r.choice(["set", "del"]), "h": h, "path": g.path(d, "SSIIWMRL", ft), "val": g.value(2), "must": False})
    return groups_of(lines)


def made(lines):
    out = set()
    for l in reversed(lines):
        if l["op"] == "clone": out.add(l["h"])
        if l["op"] == "reset": break
    return out


def loads(seed, n, bad=.25):
    """Unmarshalling into the same document again and again."""
    g = Gen(seed)
    lines = []
    for i in range(n):
        lines.append(g.reset({"d": g.doc(depth=2, arrays=.3), "e": {"root": ["m", {}], "arr": False}}, {}))
        for _ in range(g.r.randint(2, 5)):
            h = g.r.choice(["d", "d", "e"])
            if maybe(g, bad): lines.append({"op": "badload", "h": h, "text": g.r.choice(BADTEXTS), "must": False})
            else:
                v = g.value(g.r.choice([2, 3]), odd=.15, unique=.2)
                if v[0] not in "ma": v = g.root(2)
                if maybe(g, .15): v = ["m", {"array": g.r.choice([v, ["a", []], ["a", [N(1), ["m", {}]]], NULL, S("x")]), **({"b": N(2)} if maybe(g, .3) else {})}]
                if maybe(g, .06):
                    lines.append({"op": "load", "h": h, "val": ["m", {}], "text": g.r.choice(["", "# nothing", "{}", "\n"]), "must": False})
                    continue
                lines.append({"op": "load", "h": h, "val": v, "text": text_of(v, g.r), "must": False})
            c = g.r.random()
            if c < .3: lines.append({"op": "marshal", "h": h, "must": False})
            elif c < .5: lines.append({"op": "set", "h": h, "path": "$." + g.r.choice(["array", "a", "b"]), "val": g.value(1), "must": False})
            elif c < .6: lines.append({"op": "string", "h": h, "must": True})
    return groups_of(lines)


def texts(seed, n):
    """Documents to text and back."""
    g = Scripts(seed)
    lines = []
    for i in range(n):
        g.start()
        c = g.r.random()
        if c < .15: d = g.sdoc("go", depth=2, p=.4)
        elif c < .3: d = g.sdoc("js", depth=2, p=.4)
        else: d = g.doc(depth=g.r.choice([1, 2, 3, 4]), unique=.2, odd=.25, arrays=.3)
        lines.append(g.reset({"d": d}, {}, st=g.st))
        lines.append({"op": "marshal", "h": "d", "must": False})
        if not has_fn(d["root"]):
            lines.append({"op": "string", "h": "d", "must": True})
            v = d["root"][1]["array"] if d["arr"] else d["root"]
            lines.append({"op": "load", "h": "d", "val": v, "text": text_of(v, g.r), "must": False})
            lines.append({"op": "marshal", "h": "d", "must": False})
    return groups_of(lines)


def carriage_returns(seed, n):
    """Strings in which the Hjson library loses carriage returns."""
    return [[Gen(seed).reset({"d": {"root": ["m", {"k": S(t)}], "arr": False}}, {}), {"op": "string", "h": "d", "must": True}, {"op": "marshal", "h": "d", "must": False}] for t in ["a\rb", "a\r"]]


def arrays(seed, n):
    """Documents with an array at the root through every operation."""
    g = Scripts(seed)
    lines = []
    for i in range(n):
        g.start()
        d = g.sdoc("js", ["set", "count", "scope"], depth=3, p=.4, arrays=1) if maybe(g, .5) else g.doc(depth=3, arrays=1)
        if maybe(g, .15): d["arr"] = False
        hs = {"d": d, "e": g.doc(depth=2, arrays=.3)}
        lines.append(g.reset(hs, g.ft, st=g.st))
        for _ in range(5):
            c = g.r.choice(["load", "marshal", "string", "clone", "clear", "run", "strip", "get", "set", "eval", "load"])
            if c == "load":
                v = g.r.choice([["a", [g.value(1) for _ in range(g.r.randint(0, 3))]], g.root(2), ["m", {"array": g.r.choice([["a", [N(1), N(2)]], ["a", []], g.value(1), NULL])}]])
                lines.append({"op": "load", "h": "d", "val": v, "text": text_of(v, g.r), "must": False})
            elif c == "clone": lines.append({"op": "clone", "h": "e", "from": "d", "clear": False, "must": False})
            elif c == "clear": lines.append({"op": "clone", "h": "e", "from": g.r.choice("de"), "clear": True, "must": False})
            elif c == "run": lines.append({"op": "run", "h": "d", "must": True})
            elif c == "eval":
                v = d["root"][1]["array"] if d["arr"] and "array" in d["root"][1] else d["root"]
                lines.append({"op": "eval", "h": "d", "val": v, "text": json.dumps(plain(v)), "codes": [], "must": False})
            elif c in ("get", "set"):
                lines.append({"op": c, "h": g.r.choice("de"), "path": g.path(d, ALL if c == "get" else "SSIWM", g.ft), "val": g.value(1), "must": False})
            else: lines.append({"op": c, "h": g.r.choice("de"), "must": c != "marshal"})
    return groups_of(lines)


PLAIN = [NULL, ["b", False], ["b", True], N(0), N(-1), N(7), ["d", "0.5"], S(""), S("x"), S("null"), ["a", []], ["m", {}], ["a", [NULL]], ["a", [["a", []]]], ["a", [["m", {}]]], ["m", {"": NULL}], ["a", [N(0)]],
         ["a", [S("")]], ["a", [NULL, NULL]], ["a", [["a", [N(1), N(2)]]]], ["m", {"a": NULL}], ["m", {"a": ["a", []]}], ["a", [["m", {"a": N(1)}], NULL, ["m", {"a": NULL}]]], ["m", {"array": ["a", [N(3)]]}]]
SPOTS = [(lambda v: {"a": v}, ["$.a", "$.*", "$[*]", "$..a", "$.a[0]", "$.a.*", "$.a.a", "$.a[-1:]", "$.a[:1]", "$.a[0, 0]"]),
         (lambda v: {"a": v, "b": N(5)}, ["$.a", "$.*", "$..a", "$...*", "$.a[1:]", "$...a"]),
         (lambda v: {"l": ["a", [v]]}, ["$.l", "$.l[0]", "$.l[*]", "$.l[0:1]", "$.l[-1:]", "$.l[0, 0]", "$.l.*", "$.l.a", "$..l", "$...[0]", "$.l[0][0]", "$.l[*][*]"]),
         (lambda v: {"l": ["a", [N(4), v, N(6)]]}, ["$.l[1]", "$.l[1:2]", "$.l[1, 1]", "$.l[0, 1]", "$.l[1:]", "$.l[*]", "$.l.a", "$.l[-2:]", "$.l[:-1]"]),
         (lambda v: {"o": ["m", {"a": v}], "p": ["m", {"a": N(9)}]}, ["$.o.a", "$.o.*", "$.*.a", "$..a", "$...a", "$.*.*", "$....a", "$.o..a"]),
         (lambda v: {"l": ["a", [["m", {"a": v}], ["m", {"b": N(2)}]]]}, ["$.l.a", "$.l[*].a", "$.l[0].a", "$.l[0:1].a", "$..a", "$.l[0, 0].a", "$.l[0].*"])]


def kinds_of_values(seed, n, ops=("get", "set", "del", "push", "pop"), both=False):
    """Values of every kind, the empty ones among them, in many spots, through many paths, with values of every kind."""
    g = Gen(seed)
    r = g.r
    todo = [(v, spot, p, op) for v in PLAIN for spot, paths in SPOTS for p in paths for op in ops]
    lines = []
    for v, spot, p, op in r.sample(todo, min(n, len(todo))):
        d = {"root": ["m", copy.deepcopy(spot(v))], "arr": False}
        if "array" not in p and r.random() < .1 and "l" in d["root"][1]:
            d, p = {"root": ["m", {"array": d["root"][1]["l"]}], "arr": True}, p.replace(".l", ".array").replace("..array", "..l" if "..l" in p else "..array")
        lines.append(g.reset({"d": d, "e": copy.deepcopy(d)} if both else {"d": d}, {}))
        o = {"op": op, "path": p}
        if op in ("set", "push"): o["val"] = copy.deepcopy(r.choice(PLAIN))
        if op in ("push", "pop"): o["idx"] = r.choice([[], [], [0], [1], [0, 1], [2]])
        if op in ("push", "pop"): lines.append(dict(o, h="d", must=True))
        elif both: lines += [dict(o, h="d", must=True), dict(o, h="e", must=False)]
        else: lines.append(dict(o, h="d", must=maybe(g, .5)))
        if op != "get": lines.append({"op": "get", "h": "d", "path": p, "must": maybe(g, .5)})
    return groups_of(lines)


def positions(seed, n, ops=("get", "set", "del")):
    """Every slice and many sets of indices of arrays of every length up to 6."""
    g = Gen(seed)
    r = g.r
    bounds = [["n", i] for i in range(-7, 8)]
    E = ["e", ""]
    keys = [["L", E, b] for b in bounds] + [["L", b, E] for b in bounds] + [["L", a, b] for a in bounds for b in bounds if a[1] >= 0 and b[1] >= 0]
    sets = ["[%d]" % a for a in range(-7, 8)] + ["[%d, %d]" % (a, b) for a in range(6) for b in range(6)] + ["[%d,%d,%d]" % (a, b, c) for a in range(5) for b in range(5) for c in range(5)]
    todo = [(size, k, op) for size in range(7) for k in keys for op in ops] + [(size, k, op) for size in range(1, 6) for k in r.sample(sets, min(len(sets), 60)) for op in ops]
    r.shuffle(todo)
    # those with something before, within and after first, as these tell the most
    lines = []
    bound = lambda b: "" if b == E else ("-" if b[1] < 0 else "") + r.choice(["", "", "", "", "0"]) + str(abs(b[1]))
    for size, k, op in todo[:n]:
        token = k if isinstance(k, str) else "[%s:%s]" % (bound(k[1]), bound(k[2]))
        deep = r.random() < .25
        elems = [["m", {"v": N(10 + i), "w": ["a", [N(i)]]}] if deep else N(10 + i) for i in range(size)]
        tail = r.choice([".v", ".w[0]", ".v"]) if deep and r.random() < .6 else ""
        c = r.random()
        if c < .2: d, at = {"root": ["m", {"array": ["a", elems]}], "arr": True}, "$.array"
        elif c < .4: d, at = {"root": ["m", {"o": ["a", [N(0), ["a", elems]]], "k": N(1)}], "arr": False}, "$.o[1]"
        else: d, at = {"root": ["m", {"l": ["a", elems], "k": N(1)}], "arr": False}, "$.l"
        lines.append(g.reset({"d": d}, {}))
        o = {"op": op, "h": "d", "path": at + token + tail, "must": maybe(g, .2)}
        if op in ("set", "push"): o["val"] = r.choice([N(99), ["a", [N(98)]], ["m", {"n": N(97)}]])
        if op == "pop" or op == "push": o["idx"] = r.choice([[], [0], [1, 0]])
        lines.append(o)
        lines.append({"op": "get", "h": "d", "path": at + token + tail, "must": False})
    return groups_of(lines)


def insertions(seed, n, op="push"):
    """Pushes and pops at every position, every two positions and many threes of arrays of every length up to 5."""
    g = Gen(seed)
    r = g.r
    todo = []
    for size in range(6):
        todo.append((size, []))
        near = range(-2 if op == "pop" else 0, size + 3)
        todo += [(size, [a]) for a in near for _ in range(3)] + [(size, [a, b]) for a in near for b in near] + [(size, [r.choice(near) for _ in range(r.choice([3, 3, 4, 6]))]) for _ in range(40)]
    todo += [(size, [r.randint(0, max(0, size - 1)) for _ in range(k)]) for size in range(1, 7) for k in (2, 3, 4) for _ in range(12)]
    r.shuffle(todo)
    lines = []
    for size, idx in todo[:n]:
        fresh = lambda i: r.choice([N(10 + i), N(10 + i), N(10 + i), NULL, ["a", [N(10 + i)]], S("e%d" % i), ["m", {"v": N(10 + i)}]])
        elems = [fresh(i) for i in range(size)]
        c = r.random()
        if c < .2: d, at = {"root": ["m", {"array": ["a", elems]}], "arr": True}, r.choice(["$.array", "$.*"])
        elif c < .4: d, at = {"root": ["m", {"o": ["a", [N(0), ["a", elems]]], "k": N(1)}], "arr": False}, "$.o[1]"
        elif c < .55: d, at = {"root": ["m", {"o": ["a", [["a", elems], ["a", [fresh(i) for i in range(r.randint(0, size))]]]]}], "arr": False}, r.choice(["$.o[*]", "$.o[0,1]", "$.o[:2]", "$.o.*"])
        else: d, at = {"root": ["m", {"l": ["a", elems], "k": N(1)}], "arr": False}, r.choice(["$.l", "$.l", "$..l"])
        lines.append(g.reset({"d": d}, {}))
        for _ in range(r.choice([1, 1, 2])):
            o = {"op": op, "h": "d", "path": at, "idx": idx, "must": True}
            if op == "push": o["val"] = r.choice([N(99), ["a", [N(98)]], ["m", {"n": N(97)}], NULL])
            lines.append(o)
    return groups_of(lines)


# ---------------------------------------------------------------- path texts

ALPHA = list("$.*[]:,-?()@'\"ab1 0") + ["..", "...", "[*]", "[0]", "[-1]", "[1:2]", ".a", "[?(", ")]", ".*", "é", "\n", "b-c", "_x", "[:2]", "[1:]", "[0, 1]", "..a", "[?(@.a)]", "[?(@ == 'x')]", "\t", "....", "[ 0]", "[0 ]", "[0,1,2]", "[0 ,1]"]
ALPHA2 = ["[010]", "[00]", "[0,010]", "[007, 08]", "[08:]", "[:010]", "[-010]", "[-0]", "[-0:]", "[:-0]", "[010:011]", "[1,\t02]", "[0x1]", "[0,0x1]", "[0b1]", "[0, 0b1]", "[0o7]", "[1_0]", "[0, 1_0]", "[+1]", "[1, +2]", "[1e1]", "[1.0]",
          "[0,]", "[,0]", "[0,,1]", "[1:2:3]", "[-1,0]", "[0,-1]", "[1:-1]", "[-2:-1]", "[-1:2]", "[--1]", "[0;1]", "[]", "[-]", "[:]", "['a']", "[\"a\"]", "[a]", "[**]", "[*,0]", "[0\n,1]", "[0,\n 1]", "[0,\u00a01]", "[\u0661]"]


def parses(seed, n):
    """Texts which are JSON paths, and texts which are nearly JSON paths."""
    g = Gen(seed)
    lines = [g.reset({"d": {"root": ["m", {}], "arr": False}}, {})]
    for i in range(n):
        c = g.r.random()
        if c < .1:
            t = "$" + "".join(g.r.choice([".a", "", "..b"]) + g.r.choice(ALPHA2) for _ in range(g.r.choice([1, 1, 2])))
        elif c < .35:
            t = "$" + "".join(g.r.choice(ALPHA) for _ in range(g.r.randint(0, 5)))
            if maybe(g, .08): t = t[1:]
        else:
            d = g.doc(depth=3)
            t = g.path(d, ALL, {}, maxlen=g.r.choice([2, 4, 8]), wrong=.2)
            if c < .6:       # one mistake
                i = g.r.randrange(len(t) + 1)
                k = g.r.random()
                t = t[:i] + t[i + 1:] if k < .3 else t[:i] + g.r.choice(ALPHA) + t[i:] if k < .7 else t[:i] + g.r.choice(ALPHA) + t[i + 1:]
        if any(len(x) > 9 for x in __import__("re").findall(r"\d+", t)): continue
        lines.append({"op": "parse", "path": t, "h": "d", "must": False})
        if i % 40 == 39: lines.append(g.reset({"d": {"root": ["m", {}], "arr": False}}, {}))
    return groups_of(lines)


def addalls(seed, n):
    g = Gen(seed)
    lines = [g.reset({"d": {"root": ["m", {}], "arr": False}}, {})]
    for i in range(n):
        r = g.r
        key = lambda: r.choice([["S", r.choice(NAMES)], ["I", r.randint(0, 12)], ["W", ""], ["D", ""], ["R", "a"], ["F", "@.a"], g.slice(4)])
        adds = []
        for _ in range(r.randint(1, 4)):
            adds.append([key() for _ in range(r.choice([1, 1, 1, 2, 3, 0]))])
        if maybe(g, .3):         # paths that come from a text, which means the same again afterwards
            t = "$" + "".join(r.choice([".a", "[0]", ".*", "..b", "[1, 2]", "[0:2]"]) for _ in range(r.randint(1, 2)))
            lines.append({"op": "addall", "h": "d", "path": t, "adds": adds, "must": False})
            lines.append({"op": "parse", "h": "d", "path": t, "must": False})
        elif maybe(g, .3):       # paths that are parts of one, in the same memory
            base = [key() for _ in range(r.randint(1, 5))]
            lines.append({"op": "addall", "h": "d", "base": base, "lens": [r.randint(0, len(base)) for _ in range(r.randint(1, 4))], "adds": adds, "must": False})
        else: lines.append({"op": "addall", "h": "d", "adds": adds, "must": False})
    return groups_of(lines)


# -------------------------------------------------------------------- scripts

def runs(seed, n, kinds=None, langs=("js", "js", "go"), depth=(1, 2, 3), p=(.3, .6, .9), most=(3, 6), fail=0.0, again=.2, noise=.1, arrays=.2, strips=0.0, evals=0.0, codes=None, odd=.05):
    g = Scripts(seed)
    lines = []
    for i in range(n):
        g.start()
        lang = g.r.choice(langs)
        K = g.r.choice(kinds or [["set", "del", "count", "scope"], ["set", "pset", "pget", "pdel", "push", "copy", "scope"], ["set", "setscript", "replace", "delany", "trail"]])
        d = g.sdoc(lang, K, depth=g.r.choice(depth), p=g.r.choice(p), most=g.r.choice(most), fail=fail, noise=noise, arrays=arrays, odd=odd)
        lines.append(g.reset({"d": d, "e": g.doc(depth=1)}, g.ft, st=g.st, ints=False))
        if lang == "js" and maybe(g, evals):
            v = d["root"][1]["array"] if d["arr"] else d["root"]
            lines.append({"op": "eval", "h": "d", "val": v, "text": text_of(v, g.r) if maybe(g, .3) else json.dumps(plain(v), ensure_ascii=False), "codes": codes or [], "must": False})
            continue
        if maybe(g, strips): lines.append({"op": "find", "h": "d", "must": True})
        lines.append({"op": "run", "h": "d"})
        if maybe(g, again): lines.append({"op": "run", "h": "d"})
    return groups_of(lines)


def equivalents(seed, n):
    """The same operations as JavaScript and as Go callbacks."""
    g = Scripts(seed)
    lines = []
    for i in range(n):
        g.start()
        K = g.r.choice([["set", "del", "count", "scope"], ["set", "pset", "pget", "pdel", "push", "copy", "scope"], ["set", "replace", "delany", "trail", "pset"]])
        # callbacks cannot be counted among the values that a path reaches in JavaScript, so the scopes hold one kind only
        d = g.sdoc("go", K, depth=g.r.choice([1, 2, 3]), p=g.r.choice([.3, .7]), noise=0)
        twin = swap(g, d["root"])
        lines.append(g.reset({"d": d, "e": {"root": twin, "arr": d["arr"]}}, g.ft, st=g.st, ints=False))
        lines.append({"op": "run", "h": "d"})
        lines.append({"op": "run", "h": "e"})
    return groups_of(lines)


def swap(g, v):
    """The callbacks in v as JavaScript."""
    if v[0] == "f": return g.js_script(swap(g, g.st["f:" + v[1]]["ops"]) if False else g.st["f:" + v[1]]["ops"])
    if v[0] == "m": return ["m", {k: swap(g, e) for k, e in v[1].items()}]
    if v[0] == "a": return ["a", [swap(g, e) for e in v[1]]]
    return v


def deep_scopes(seed, n):
    """Scripts at the bottom of many objects and arrays with names of all kinds."""
    g = Scripts(seed)
    lines = []
    for i in range(n):
        g.start()
        lang = g.r.choice(["js", "js", "go"])
        v = ["m", {"v": g.distinct()}]
        v[1][g.skey()] = g.a_script(v, lang, ["scope", "set", "count", "log"], g.r.randint(0, 2))
        for _ in range(g.r.randint(2, 7)):
            if maybe(g, .3): v = ["a", [g.distinct()] * g.r.choice([0, 1, 2, 2, 9, 10, 11, 12, 23]) + [v] + [g.distinct()] * g.r.randint(0, 1)]
            else:
                v = ["m", {g.key(.6): v, **({g.key(0): g.distinct()} if maybe(g, .3) else {})}]
                if maybe(g, .15): v[1][g.skey()] = g.a_script(v, lang, ["scope", "count", "log"], 1)
        if v[0] != "m": v = ["m", {g.key(.6): v}]
        lines.append(g.reset({"d": {"root": v, "arr": False}}, g.ft, st=g.st, ints=False))
        lines.append({"op": "run", "h": "d"})
    return groups_of(lines)


def callbacks(seed, n):
    """Callbacks which use all of the interface of the document that they are given."""
    return runs(seed, n, kinds=[["gpush", "gpop", "set"], ["gfind", "gmark", "set"], ["gstrip", "gfind", "setscript"], ["gload", "set"], ["gmark", "gfind", "pset"],
                                ["gpush", "gpop", "gfind", "gstrip", "gmark", "scope", "pget", "del"], ["set", "set", "set", "throw"]], langs=("go",), most=(2, 4), arrays=0)


def mixed(seed, n):
    """JavaScript and Go callbacks in the same document."""
    g = Scripts(seed)
    lines = []
    for i in range(n):
        g.start()
        K = ["set", "del", "count", "scope", "copy"]
        parts = {}
        for k in g.r.sample(NAMES, 3):
            v = g.value(2)
            if v[0] != "m": v = ["m", {"v": v}]
            parts[k] = g.scripted(v, g.r.choice(["js", "go"]), K, top=True)
        root = ["m", parts]
        if maybe(g, .7):      # callbacks that run first, then JavaScript
            if maybe(g, .5): root[1]["A0"] = g.go_script(g.ops(root, "go", K))
            else:
                only = {k: v for k, v in parts.items() if not has_fn(v)}
                root = ["m", only]
                root[1]["A0"] = g.go_script(g.ops(root, "go", K))
                root[1]["zzz"] = g.js_script(g.ops(root, "js", K))
        lines.append(g.reset({"d": {"root": root, "arr": False}}, g.ft, st=g.st, ints=False))
        lines.append({"op": "run", "h": "d"})
    return groups_of(lines)


def shebangs(seed, n):
    """Strings which are scripts, which are not, and which ask for an unsupported language."""
    g = Scripts(seed)
    lines = []
    for i in range(n):
        g.start()
        d = g.sdoc("js", ["set", "count"], depth=2, p=.3, noise=.5)
        boxes = objects(d["root"])
        for _ in range(g.r.randint(1, 3)):
            o = g.r.choice(boxes)
            c = g.r.random()
            body = g.r.choice(["", "\n", "\njson.trail.broken = 1;", "\n\n#//!js\n", "\n// #//!js"])
            if c < .6: o[1][g.skey()] = S(g.r.choice(NOSHEBANG) + body)
            elif c < .7: o[1][g.skey()] = S(g.r.choice(BADSHEBANG) + body)
            elif c < .8: o[1][g.skey()] = S("#//!go" + body)
            elif c < .9: o[1][g.skey()] = g.raw_script("#//!js" + g.r.choice(["", "\n", "\n\n", "\n  ", "\n;", "\n// #//!go", "\n/* é */"]))
            else: o[1][g.skey()] = ["a", [S("#//!" + g.r.choice(["js", "py"]) + body), S("x")]]
        lines.append(g.reset({"d": d}, {}, st=g.st, ints=False))
        for op in g.r.choice([["find", "run"], ["find", "strip"], ["strip", "find"], ["run", "find"], ["find", "find", "run"], ["strip"]]):
            lines.append({"op": op, "h": "d", "must": True})
    return groups_of(lines)


def objects(v, top=True):
    """The objects of a document (or of an array at the root, if there are any)."""
    out = [v] if v[0] == "m" else []
    for e in (v[1].values() if v[0] == "m" else v[1] if v[0] == "a" else []): out += objects(e, False)
    return out if out or not top else [["m", {}]]


def strips(seed, n):
    g = Scripts(seed)
    lines = []
    for i in range(n):
        g.start()
        d = g.sdoc(g.r.choice(["js", "js", "go"]), ["set"], depth=g.r.choice([1, 2, 3, 4]), p=g.r.choice([.2, .6, .9]), noise=.2, most=g.r.choice([3, 6]))
        if maybe(g, .12): g.r.choice(objects(d["root"]))[1][g.skey()] = S(g.r.choice(BADSHEBANG) + "\nx")
        lines.append(g.reset({"d": d, "e": g.doc(depth=2)}, {}, st=g.st))
        for op in g.r.choice([["strip"], ["strip", "strip"], ["find", "strip", "find"], ["strip", "marshal", "run"], ["strip", "markup", "strip"], ["clone", "strip"]]):
            e = {"op": op, "h": "d", "must": True}
            if op == "markup": e.update(path="$." + g.r.choice(NAMES), lang="js", src="1;", must=False)
            if op == "marshal": e["must"] = False
            if op == "clone": e.update(h="e", clear=False, must=False); e["from"] = "d"
            lines.append(e)
    return groups_of(lines)


def markups(seed, n):
    g = Scripts(seed)
    lines = []
    for i in range(n):
        g.start()
        d = g.doc(depth=g.r.choice([2, 3]))
        lines.append(g.reset({"d": d, "e": g.doc(depth=1)}, g.ft, st=g.st))
        for _ in range(g.r.randint(1, 3)):
            lang = g.r.choice(["js"] * 12 + ["go", "py", "", "JS", "javascript"])
            src = g.r.choice(["json.trail.marked%d = 1;" % i, "", "a\nb", "// é", "#//!js", "x", "json.trail.m = 7 % 4; // %d 100%", "%", "%s%v%!", " \n ", "'\\n'"])
            if maybe(g, .12): src = g.r.choice(["#//!js\n1", "#//!%s\n1" % lang, "#//!%s\n" % lang, "#//!%s" % lang, "\r\n", "a\r\nb\r\n", "\n#//!js\n2", "#//!js\n#//!js\n1", "\ufeff1"])
            elif lang == "js" and maybe(g, .7):
                s = g.js_script(g.ops(d["root"] if d["root"][1] else ["m", {"k": N(1)}], "js", ["set", "count", "scope"]))
                src = s[1][len("#//!js\n"):]
            p = g.path(d, "SSSIWMRLD", g.ft, maxlen=3)
            if maybe(g, .5): p = new_key(g, d, p)
            lines.append({"op": "markup", "h": "d", "path": p, "lang": lang, "src": src, "must": False})
            if lang == "js" and (src in ("", "// é") or src.endswith("= 1;") and "\n" not in src):
                g.st["#//!js\n" + src] = {"id": "", "ops": [["set", "marked%d" % i, N(1)]] if "marked" in src else []}
        lines.append({"op": g.r.choice(["find", "strip", "run", "marshal", "string"]), "h": "d", "must": True})
        if lines[-1]["op"] == "marshal": lines[-1]["must"] = False
    return groups_of(lines)


def bridge(seed, n):
    """Values into and out of JavaScript."""
    g = Scripts(seed)
    lines = []
    for i in range(n):
        g.start()
        g.unique = .1
        d = g.doc(depth=g.r.choice([2, 3]), unique=.1, odd=.15)
        if d["arr"]: d = {"root": ["m", {"o": d["root"][1]["array"]}], "arr": False}
        ops = g.ops(d["root"], "js", g.r.choice([["expr"], ["expr", "undef"], ["pget", "pset"], ["copy", "push", "set"], ["pset"], ["pget", "copy"], ["expr", "copy", "pget"], ["nodes"], ["nodes", "set"], ["try", "copy"], ["pset", "expr", "trail"], ["push", "count", "del", "nodes"], ["kind", "kinds", "pset", "copy"], ["kind", "kinds", "set", "expr"]]), g.r.randint(1, 5))
        d["root"][1]["script"] = g.js_script(ops)
        if maybe(g, .3): d["root"][1]["script2"] = g.js_script(g.ops(d["root"], "js", ["copy", "pget", "count", "leak"], 2))
        lines.append(g.reset({"d": d}, g.ft, st=g.st, ints=False))
        lines.append({"op": "run", "h": "d"})
    return groups_of(lines)


def bridge_matrix(seed, n):
    """Each of many values on every way into and out of a script."""
    g = Scripts(seed)
    lines = []
    values = [(S(t), jq(t).replace("\u2028", "\\u2028")) for t in STRS] + [(["d", t], t) for t in DECS] + [(N(i), str(i)) for i in (0, 1, -1, 65536, 1999999999, -1999999999)] + EXPRS + [(NULL, u) for u in UNDEFS]
    g.r.shuffle(values)
    for v, text in values[:n]:
        g.start()
        gone = text in UNDEFS
        doc = ["m", {"a": N(1), "o": ["m", {"x": N(1)}], "l": ["a", [N(1), v, N(2)]], "in": v, "m": ["m", {"deep": ["a", [["m", {"v": v}]]]}]}]
        ops = [["copy", "in", "in2"], ["pget", "$.in", "got"], ["pget", "$.l", "got2"], ["pget", "$..v", "got3"], ["pget", "$.m.deep[0]", "got4"]]
        kinds = [["kind", k, "kind" + k] for k in ("in", "l", "o", "m")] + [["kinds", p, "kinds%d" % i] for i, p in enumerate(("$.in", "$.l", "$..v", "$.*"))]
        ops = g.r.sample(kinds, 3) + ops
        ops += [["undef", "a", text]] if gone else [["expr", "a", v, text]]
        writes = [["psetx", p, v, text] for p in ("$.l[0]", "$.o.x", "$.new", "$.m.deep[0].w", "$.m.deep[*].v")]
        if not gone: writes += [["psetx", "$.box", ["a", [v, ["m", {"k": v}]]], "[%s, {k: %s}]" % (text, text)], ["expr", "box2", ["m", {"k": ["a", [v]]}], "{k: [%s]}" % text]]
        g.r.shuffle(writes)
        if v[0] in "snbd" and not gone and g.r.random() < .5 and not (v[0] == "d" and "e" in v[1]): writes.append(["log", "out", [v, v]])
        doc[1]["script"] = g.js_script(ops + writes + [["pget", "$.*", "all"]])
        lines.append(g.reset({"d": {"root": doc, "arr": False}}, g.ft, st=g.st, ints=False))
        lines.append({"op": "run", "h": "d"})
    return groups_of(lines)


def logs(seed, n):
    return runs(seed, n, kinds=[["log"], ["log", "set"], ["log", "log", "throw"], ["log", "rescope", "log", "scope"], ["log", "try", "nodes"]], langs=("js",), most=(3, 5), again=.1, odd=.2)


def failures(seed, n):
    """Scripts which fail, through Eval and through Run."""
    g = Scripts(seed)
    lines = []
    for i in range(n):
        g.start()
        d = g.sdoc("js", g.r.choice([["set", "throw", "pset", "log"], ["set", "set", "pset", "throw"], ["set", "set", "badtrail", "count"], ["nodes", "try", "throw"], ["set", "log", "rescope"]]), depth=g.r.choice([1, 2, 3]), p=.5, fail=.1)
        boxes = objects(d["root"])
        codes = [-5, 0] if any(o[0] == "badtrail" for s in g.st.values() for o in s["ops"]) else [-5]
        if any(o[0] == "rescope" for s in g.st.values() for o in s["ops"]): codes = [-4, -5]
        c = g.r.random()
        if c < .1:
            g.r.choice(boxes)[1][g.skey()] = S(g.r.choice(BADSHEBANG) + "\nx")
            codes = [-2] + codes
        elif c < .25:
            bad = g.r.choice(["#//!js\nthis is not (", "#//!js\n}", "#//!js\nvar 1x;", "#//!js\n\n'"])
            g.st[bad] = {"id": "bad", "ops": [["throw"]]}
            g.r.choice(boxes)[1][g.skey()] = S(bad)
        elif c < .35:
            bad = "#//!js\n(function f() { return f() + 1; })(); // %d" % i
            g.st[bad] = {"id": "deep", "ops": [["throw"]]}
            g.r.choice(boxes)[1][g.skey()] = S(bad)
        elif c < .4:
            g.r.choice(boxes)[1][g.skey()] = S("#//!go\nx")
        lines.append(g.reset({"d": d, "e": g.doc(depth=2)}, g.ft, st=g.st, ints=False))
        v = d["root"][1]["array"] if d["arr"] else d["root"]
        quiet = c < .1 or c >= .4
        if quiet and maybe(g, .4): lines.append({"op": "run", "h": "d"})
        else: lines.append({"op": "eval", "h": "d", "val": v, "text": json.dumps(plain(v), ensure_ascii=False), "codes": codes, "must": False})
        lines.append({"op": "get", "h": "e", "path": g.path(lines[-2]["docs"]["e"], "S", {}, maxlen=2), "must": False})
    return groups_of(lines)


SYNTAX = ["this is not (", "}", "var 1x;", "\n'", "if (", "var = 3;", "return 1", "json.trail.x = ;", "/* open", "a b", "'a\nb'", "({a: 1", "break;", "(function f() { return f() + 1; })();", "(function f() { try { f(); } catch (e) { throw e; } })();",
          "function a() { return b(); } function b() { return a(); } a();", "var o = {}; Object.defineProperty(o, 'x', {get: function () { return o.x; }}); o.x;", "var o = {toString: function () { return '' + o; }}; '' + o;",
          "function f() { json.trail.l.forEach(f); } json.trail.l = [1]; f();", "json.trail.constructor.constructor('return function f() { return f() + 1; }')()();",
          "json.jsonPathSelector('$').getValues().map.constructor('return function f(n) { return [n].map(f); }')()();"]


def failure_matrix(seed, n):
    """Every way to fail, in some scope or other."""
    g = Scripts(seed)
    lines = []
    for text in THROWS + SYNTAX:
        g.start()
        d = g.doc(depth=g.r.choice([1, 2, 3]), arrays=.2)
        boxes = objects(d["root"])
        if d["arr"]:
            d["root"][1]["array"][1].append(["m", {}])
            boxes = objects(d["root"][1]["array"])
        bad = "#//!js\n" + text
        g.st[bad] = {"id": "bad", "ops": [["throw"]]}
        g.r.choice(boxes)[1][g.skey()] = S(bad)
        for b in boxes:
            if maybe(g, .3): b[1].setdefault(g.skey(), g.a_script(b, "js", ["log"]))
        lines.append(g.reset({"d": d}, g.ft, st=g.st, ints=False))
        v = d["root"][1]["array"] if d["arr"] else d["root"]
        lines.append({"op": "eval", "h": "d", "val": v, "text": json.dumps(plain(v), ensure_ascii=False), "codes": [-5], "must": False})
    return groups_of(lines)


def bad_evals(seed, n):
    """Texts that are not documents."""
    g = Gen(seed)
    lines = []
    for i in range(n):
        lines.append(g.reset({"d": g.doc(depth=1)}, {}))
        t = g.r.choice(BADTEXTS)
        lines.append({"op": "eval", "h": "d", "val": ["x", ""], "text": t, "codes": [], "must": False})
    return groups_of(lines)


def wide(seed, n):
    """Objects with many properties, read repeatedly and through equal documents."""
    g = Gen(seed)
    lines = []
    for i in range(n):
        ft = {}
        m = {}
        for k in g.r.sample(["%s%d" % (c, q) for c in "abcXYZ_" for q in range(12)], g.r.randint(12, 30)):
            m[k] = g.r.choice([g.distinct(), ["m", {"x": g.distinct(), "y": g.distinct()}], ["a", [["m", {"x": g.distinct()}], g.distinct()]]])
        d = {"root": ["m", {"o": ["m", m], "x": g.distinct()}], "arr": False}
        keys = list(m)
        g.r.shuffle(keys)
        e = {"root": ["m", {"x": d["root"][1]["x"], "o": ["m", {k: copy.deepcopy(m[k]) for k in keys}]}], "arr": False}
        lines.append(g.reset({"d": d, "e": e}, ft))
        for p in g.r.sample(["$.o.*", "$.o[*]", "$..x", "$.o..x", "$.o[*].x", "$...", "$.o...", "$.o...x", "$.*", "$.o[*][0]", "$.o[?(@)]", "$.o[?(@.x)]", "$.o[?(@.x > 0)].x", "$.o..y"], 3):
            for f, t in (("[?(@)]", ["is", ["@", []]]), ("[?(@.x)]", ["is", ["@", ["x"]]]), ("[?(@.x > 0)]", ["cmp", ">", ["@", ["x"]], ["k", N(0), ""]])):
                if f in p: ft[f[3:-2]] = t
            for _ in range(3):
                for h in "de": lines.append({"op": "get", "h": h, "path": p, "must": maybe(g, .5)})
    return groups_of(lines)


def finds(seed, n):
    g = Scripts(seed)
    lines = []
    for i in range(n):
        g.start()
        c = g.r.random()
        d = g.doc(depth=g.r.choice([1, 2, 3, 4]))
        g.noise(d["root"], .1)
        if c < .75:      # a single script somewhere
            o = g.r.choice(objects(d["root"]))
            if d["arr"] and o is d["root"] and maybe(g, .7): pass
            else: o[1][g.skey()] = g.a_script(o, g.r.choice(["js", "js", "go"]), ["set"], 1)
            if c < .1: g.r.choice(objects(d["root"]))[1][g.skey()] = S(g.r.choice(BADSHEBANG) + "\nx")
        elif c < .85: d["root"][1]["arr"] = ["a", [S("#//!js\n1;"), ["a", [S("#//!js\n2;")]]]]
        lines.append(g.reset({"d": d, "e": g.doc(depth=2)}, {}, st=g.st))
        for op in g.r.choice([["find", "find"], ["find", "run", "find"], ["find", "strip", "find"], ["load", "find"], ["find", "load", "find"], ["find", "clone", "find"]]):
            e = {"op": op, "h": "d", "must": op in ("find", "run", "strip")}
            if op == "load":
                v = g.sdoc("js", ["set"], depth=2, arrays=0)["root"] if maybe(g, .5) else g.root(2)
                e.update(val=v, text=json.dumps(plain(v), ensure_ascii=False))
            if op == "clone": e.update(h="e", clear=maybe(g, .2)); e["from"] = "d"
            lines.append(e)
        lines.append({"op": "find", "h": "e", "must": True})
    return groups_of(lines)


def halting(seed, n):
    """Scripts which end and which do not end, around the halting delay."""
    g = Scripts(seed)
    groups = [empty_loop(g)]
    for i in range(n * 12):
        g.start()
        lang = g.r.choice(["js", "go"]) if i >= 8 else ["js", "go"][i % 2]
        kind = ["loop", "long", "sleep", "many", "after", "nested", "loop", "many"][(i // 2) % 8]
        mk = (lambda ops: g.js_script(ops)) if lang == "js" else g.go_script
        m = ["m", {"v": g.distinct()}]
        delay = 1
        if kind == "loop": m[1][g.skey()] = mk([["set", "x", N(1)], ["loop"]])
        elif kind == "long": m[1][g.skey()] = mk([["long", 2600]])
        elif kind == "sleep":
            delay = 2
            m[1][g.skey()] = mk([["set", "x", N(1)], ["sleep", 900]])
        elif kind == "many":
            delay = 2
            for k in ["a", "b", "c"]: m[1][k] = mk([["sleep", 800], ["set", k + "x", N(1)]])
        elif kind in ("after", "nested"):
            m[1]["a"] = mk([["sleep", 300], ["set", "x", N(2)]])
            m[1]["in"] = ["a", [["m", {"q": mk([["sleep", 100], ["loop"]])}]]] if kind == "nested" else ["m", {"q": mk([["set", "y", N(1)]])}]
        lines = [g.reset({"d": {"root": m, "arr": False}, "e": {"root": ["m", {"w": N(1)}], "arr": False}}, {}, st=g.st, ints=False, delay=delay)]
        ok = ["m", {"s": mk([["sleep", 700 * delay], ["set", "done", N(1)]])}]
        lines[0]["docs"]["e"]["root"] = ok
        lines.append({"op": "run", "h": "d", "limit": 20})
        lines.append({"op": "run", "h": "e"})      # a later run has all of the delay
        groups.append(lines)
    for text in LOOPS:
        g.start()
        d = {"root": ["m", {"v": N(1), g.skey(): g.js_script([["set", "x", N(1)], ["loop", text]])}], "arr": False}
        e = {"op": "eval", "h": "d", "val": d["root"], "text": json.dumps(plain(d["root"]), ensure_ascii=False), "codes": [-1], "must": False}
        groups.append([g.reset({"d": d}, {}, st=g.st, ints=False, delay=1), e if maybe(g, .4) else {"op": "run", "h": "d", "limit": 20}])
    return groups


def empty_loop(g):
    """A loop whose body is empty is never interrupted by the JavaScript engine: a finding."""
    g.start()
    g.st["#//!js\nfor (;;) {}"] = {"id": "", "ops": [["loop"]]}
    return [g.reset({"d": {"root": ["m", {"k": S("#//!js\nfor (;;) {}")}], "arr": False}}, {}, st=g.st, ints=False, delay=1), {"op": "run", "h": "d", "limit": 5}]


FILTERLOOPS = ["(function () { while (true) { ; } })()", "(function () { for (;;) { var q = 1; } })() || @", "(function f(n) { return n ? f(n - 1) + f(n - 1) : @; })(60)",
               "[1, 2].some(function () { while (1) { ; } })", "(function () { try { for (;;) { ; } } catch (e) { return true; } })()"]


def filter_halting(seed, n):
    g = Gen(seed)
    text = "(function () { while (true) {} })()"
    groups = [[g.reset({"d": {"root": ["m", {"k": ["a", [N(1)]]}], "arr": False}}, {text: ["raw", text, "h"]}, delay=1), {"op": "get", "h": "d", "path": "$.k[?(%s)]" % text, "must": False, "limit": 5}]]
    for t in FILTERLOOPS:
        groups.append([g.reset({"d": {"root": ["m", {"k": ["a", [N(1)]]}], "arr": False}}, {t: ["raw", t, "h"]}, delay=1), {"op": "get", "h": "d", "path": "$.k[?(%s)]" % t, "must": False, "limit": 20}])
    for i in range(n * 8):
        ft = {}
        kind = ["loop", "some", "slow", "deep", "set", "del", "two", "after"][i % 8]
        v = {"root": ["m", {"o": ["a", [N(1), N(2), N(3)]], "k": g.distinct()}], "arr": False}
        if maybe(g, .4): v["root"][1]["o"] = ["m", {"a": N(1), "b": N(2), "c": N(3)}]

        def raw(text, outcome):
            ft[text] = ["raw", text, outcome]
            return "[?(" + text + ")]"
        lines = [g.reset({"d": v}, ft, delay=g.r.choice([1, 4]))]
        slow = raw("(function () { var t = Date.now(); while (Date.now() - t < 450) {} return true; })()", "t")
        loop = raw(g.r.choice(FILTERLOOPS), "h")
        some = raw("@ == 2 ? (function () { do { ; } while (1); })() : true", "h")
        deep = raw("(function f() { return f() + 1; })()", "e")
        get = lambda p: lines.append({"op": "get", "h": "d", "path": p, "must": maybe(g, .3)})
        if kind == "loop": get("$.o" + loop)
        if kind == "some": get("$.o" + some)
        if kind == "slow": get("$.o" + slow); get("$.o" + slow)
        if kind == "deep": get("$.o" + deep)
        if kind == "set": lines.append({"op": "set", "h": "d", "path": "$.o" + g.r.choice([loop, some]), "val": N(9), "must": False}); get("$.o")
        if kind == "del": lines.append({"op": "del", "h": "d", "path": "$.o" + g.r.choice([loop, some]), "must": maybe(g, .5)}); get("$.o")
        if kind == "two": get("$.o" + slow + "[?(@)]"); ft["@"] = ["is", ["@", []]]; get("$.o" + slow)
        if kind == "after": get("$.o" + loop); get("$.o" + slow); get("$.o" + raw("true", "t"))
        groups.append(lines)
    return groups


def concurrent(seed, n):
    """Rounds of groups which are performed all at once: [[group, ...], ...]"""
    rounds = []
    for i in range(n):
        g = Scripts(seed * 1000 + i)
        groups = []
        if i % 4 == 3:      # reads of a shared document
            g.start()
            d = g.doc(depth=3)
            lines = [g.reset({"d": d}, g.ft, st=g.st, name="r%d" % i, shared=True)]
            for _ in range(24):
                p = g.path(d, ALL, g.ft, wrong=.1)
                lines.append(g.r.choice([{"op": "get", "h": "d", "path": p, "must": maybe(g, .3)}, {"op": "resolve", "h": "d", "path": p, "must": False}, {"op": "marshal", "h": "d", "must": False}, {"op": "string", "h": "d", "must": True},
                                         {"op": "parse", "h": "d", "path": p, "must": False}]))
            groups.append(lines)
            rounds.append(groups)
            continue
        for j in range(8):
            name = "r%dg%d" % (i, j)
            g.prefix = name + "."
            g.start()
            K = g.r.choice([["set", "count", "scope"], ["pset", "pget", "pdel", "set"], ["set", "log"], ["pset", "pget"]])
            d = g.sdoc(g.r.choice(["js", "js", "js", "go"]), [k for k in K if k != "log"], depth=2, p=.5)
            lines = [g.reset({"d": d, "e": g.doc(depth=2)}, g.ft, st=g.st, ints=False, name=name, delay=20)]
            for _ in range(4):
                p = g.path(d, ALL, g.ft, wrong=.15)
                lines.append(g.r.choice([{"op": "get", "h": "e", "path": p, "must": False}, {"op": "parse", "h": "e", "path": p, "must": False},
                                         {"op": "set", "h": "e", "path": p, "val": g.value(1), "must": False}, {"op": "marshal", "h": "e", "must": False}, {"op": "find", "h": "e", "must": True},
                                         {"op": "clone", "h": "f", "from": "e", "clear": False, "must": False}, {"op": "string", "h": "e", "must": True}]))
            lines.insert(g.r.randint(1, len(lines)), {"op": "run", "h": "d"})
            groups.append(lines)
        rounds.append(groups)
    return rounds


def leaks(seed, n):
    g = Scripts(seed)
    groups = []
    for i in range(n):
        g.start()
        lines = []
        d = g.sdoc(["js", "go"][i % 2], ["set", "count", "pset", "pget"], depth=3, p=.7)
        if i % 4 == 3 and objects(d["root"]): g.r.choice(objects(d["root"]))[1]["zzz"] = g.js_script([["throw"]]) if i % 8 == 7 else g.go_script([["throw"]])
        if i % 8 == 5: d["root"][1]["A"] = g.go_script([["long", 1600]])
        lines.append(g.reset({"d": d, "e": g.doc(depth=3)}, g.ft, st=g.st, ints=False, delay=1))
        lines.append({"op": "run", "h": "d"})
        for _ in range(12):
            p = g.path({"root": lines[0]["docs"]["e"]["root"]}, ALL, g.ft, wrong=.15)
            lines.append(g.r.choice([{"op": "get", "h": "e", "path": p, "must": maybe(g, .5)}, {"op": "set", "h": "e", "path": p, "val": g.value(1), "must": False},
                                     {"op": "del", "h": "e", "path": p, "must": maybe(g, .5)}, {"op": "marshal", "h": "e", "must": False}, {"op": "find", "h": "e", "must": True},
                                     {"op": "push", "h": "e", "path": p, "val": g.value(1), "idx": [], "must": True}]))
        lines.append({"op": "quiet", "h": "e", "wait": 5000, "must": False})
        groups.append(lines)
    return groups


# --------------------------------------------------------------- command line

def cli_doc(g, lang_kinds, fail=0.0, strip_bad=.1):
    g2 = g
    d = g2.sdoc("js", lang_kinds, depth=g.r.choice([1, 2]), p=.4, noise=.1, arrays=.2, width=3) if maybe(g, .7) else g2.doc(depth=2, odd=.1, arrays=.2)
    quiet = {}
    # nothing may print to the console of the command
    def hush(v):
        if v[0] == "m": return ["m", {k: hush(e) for k, e in v[1].items()}]
        if v[0] == "a": return ["a", [hush(e) for e in v[1]]]
        if v[0] == "s" and v[1] in g.st:
            t = "\n".join(l for l in v[1].split("\n") if not l.startswith("console."))
            quiet[t] = g.st[v[1]]
            return S(t)
        if v[0] == "s": return S(v[1].replace("\r", " "))      # see carriage_returns
        return v
    root = hush(d["root"])
    g.st.update(quiet)
    if maybe(g, fail):
        o = g.r.choice(objects(root))
        c = g.r.random()
        if c < strip_bad * 3: o[1][g.skey()] = S(g.r.choice(BADSHEBANG) + "\nx")
        else:
            t = g.r.choice(["#//!js\nthrow 1;", "#//!js\n((", "#//!js\nnope();"])
            g.st[t] = {"id": "bad", "ops": [["throw"]]}
            o[1][g.skey()] = S(t)
    return root[1]["array"] if d["arr"] else root


def grown(g, v):
    """The same document with a little more in it."""
    v = copy.deepcopy(v)
    if v[0] == "m": v[1].setdefault(g.key(0), g.distinct())
    else: v[1].append(g.distinct())
    return v


def cli_inputs(g, e, kinds, fail, alike=False):
    e["files"], e["input"] = [], ["none", NULL]
    same = cli_doc(g, kinds, fail) if alike and maybe(g, .7) else None      # the same paths lead somewhere in all of them
    for _ in range(g.r.choice([0, 1, 1, 2, 3, 5])):
        c = g.r.random()
        if c < .04: e["files"].append(["missing", NULL])
        elif c < .08: e["files"].append(["bad", NULL])
        else:
            v = grown(g, same) if same else cli_doc(g, kinds, fail)
            if maybe(g, .06):       # a long one
                v = copy.deepcopy(v)
                t = g.r.choice([S("x" * 70000), S("a b " * 20000), ["a", [N(j) for j in range(1500)]], S("é" * 33000)])
                if v[0] == "m": v[1]["long"] = t
                else: v[1].append(t)
            e["files"].append(["ok", v])
    if not e["files"] or maybe(g, .1):
        c = g.r.random()
        if c < .12: e["input"] = ["none", NULL]
        elif c < .2: e["input"] = ["bad", NULL]
        else: e["input"] = ["ok", cli_doc(g, kinds, fail)]


def cli_eval(seed, n):
    g = Scripts(seed)
    groups = []
    for i in range(n):
        g.start()
        e = {"op": "cli", "h": "", "must": False, "sub": "eval", "verbose": maybe(g, .2), "pairs": [], "lang": "js", "eval": False, "strip": False, "style": g.r.randint(0, 3), "seed": g.r.randint(0, 10 ** 6), "junk": maybe(g, .02)}
        if maybe(g, .04): e["sub"] = g.r.choice(["", "run", "evaluate"])
        cli_inputs(g, e, ["set", "count", "scope", "pset"], .1)
        groups.append([g.reset({}, g.ft, st=g.st, ints=False), e])
    return groups


def cli_markup(seed, n):
    g = Scripts(seed)
    groups = []
    for i in range(n):
        g.start()
        e = {"op": "cli", "h": "", "must": False, "sub": "markup", "verbose": maybe(g, .15), "pairs": [], "lang": g.r.choice(["js"] * 9 + ["go", "py"]), "eval": maybe(g, .4), "strip": maybe(g, .4), "style": g.r.randint(0, 3), "seed": g.r.randint(0, 10 ** 6), "junk": maybe(g, .02)}
        cli_inputs(g, e, ["set", "count", "scope"], .05, True)
        docs = [v for k, v in e["files"] if k == "ok"] + ([e["input"][1]] if e["input"][0] == "ok" else [])
        root = (docs[0] if docs[0][0] == "m" else ["m", {"array": docs[0]}]) if docs else ["m", {"a": N(1)}]
        names = g.r.sample(["m1", "m2", "m3", "new"], g.r.choice([0, 1, 1, 1, 2, 3]) if maybe(g, .3) else 1)
        if names and maybe(g, .2): names += [g.r.choice(names) for _ in range(g.r.randint(1, 2))]
        last = {}
        over = maybe(g, .12)
        if over:                # paths that lead to the same places, one of them twice
            names = ["m1", "m1", "m1"]
            last = {"m1": g.r.choice(["$.m1", "$.m1", "$." + g.r.choice([k for k in root[1] if g.writable(k)] or ["m1"])])}
        for k in names:
            p = "$." + k
            if over: p = g.r.choice(["$.*", "$.m1", "$..m1"]) if len(e["pairs"]) == 1 else last[k]
            elif k in last and maybe(g, .8): p = last[k]
            elif maybe(g, .6):
                p = g.path({"root": root}, "SSSSIWRD", {}, maxlen=3, wrong=.05)
                if maybe(g, .5): p += "." + k
            if "," in p or ":" in p: p = "$." + k
            if not over: last[k] = p
            g.n += 1
            s = g.r.choice(["json.trail.done = 1;", ""] * 3 + ["json.trail.n = Object.keys(json.trail).length;"] * 3 + ["throw 1;"] + ([None] if maybe(g, .1) else []))
            ops = {"json.trail.done = 1;": [["set", "done", N(1)]], "json.trail.n = Object.keys(json.trail).length;": [["count", "n"]], "throw 1;": [["throw"]]}.get(s, [])
            e["pairs"].append([p, s if s is not None else "// No script specified", s is None])
            g.st["#//!js\n" + e["pairs"][-1][1]] = {"id": "cli", "ops": ops}
        if maybe(g, .05): e["pairs"] = [[g.r.choice(["a.b", "$[", "$.a b", ""]), "x", False]]
        groups.append([g.reset({}, g.ft, st=g.st, ints=False), e])
    return groups


# ------------------------------------------------------------------- sizes

SIZES = [9, 17, 33, 65, 129, 257, 300, 420]


def sizes(seed, n, ops=("get",), both=False):
    """Long arrays and texts, objects with many properties, and deep documents."""
    g = Gen(seed)
    r = g.r
    lines = []
    for i in range(n):
        k = r.choice(SIZES)
        ft = {}
        shape = r.choice(["list", "list", "object", "deep", "rows", "text", "rows", "dotted"])
        if shape == "list":
            v = {"l": ["a", [N(100 + j) for j in range(k)]], "z": N(1)}
            some = r.sample(range(k), min(k, r.choice([2, 5, 9, 20])))
            paths = ["$.l", "$.l[*]", "$.l[%d]" % (k - 1), "$.l[%d]" % k, "$.l[-3:]", "$.l[:%d]" % (k - 1), "$.l[%d:%d]" % (k // 3, k // 2), "$.l[%s]" % ", ".join(map(str, some)), "$..l", "$.l[-%d:]" % k, "$.*"]
        elif shape == "object":
            v = {"o": ["m", {"k%d" % j: N(100 + j) for j in range(k)}], "z": ["m", {"k5": N(1)}]}
            paths = ["$.o.*", "$.o", "$..k5", "$.o.k%d" % (k - 1), "$.*.k7", "$.o.k%d" % k, "$...*", "$.o[?(@ > %d)]" % (100 + k // 2)]
            ft["@ > %d" % (100 + k // 2)] = ["cmp", ">", ["@", []], ["k", N(100 + k // 2), ""]]
        elif shape == "rows":
            f = "@.x >= %d" % (k // 2)
            ft[f] = ["cmp", ">=", ["@", ["x"]], ["k", N(k // 2), ""]]
            v = {"l": ["a", [["m", {"x": N(j), "y": ["a", [N(j % 3)]]} if j % 5 else {"y": ["a", []]}] for j in range(k)]]}
            paths = ["$.l.x", "$.l[*].x", "$..x", "$..x", "$..y", "$.l..x", "$.l.y", "$.l[*].y[0]", "$.l[%d].x" % (k - 1), "$.l[?(%s)]" % f, "$.l[?(%s)].x" % f, "$.l[%d:].x" % (k - 4), "$.l[?(%s)].nope" % f]
        elif shape in ("deep", "dotted"):
            k = min(k, 50)      # Gson nests 255 deep
            names = [r.choice("abc") for _ in range(k)] if shape == "dotted" else ["a"] * k
            inner = ["m", {"leaf": N(7), "l": ["a", [N(1), N(2)]]}]
            for nm in reversed(names): inner = ["m", {nm: inner} if r.random() < .9 else {nm: inner, "n": N(5)}] if shape == "dotted" or r.random() < .8 else ["m", {nm: ["a", [inner]]}]
            v = inner[1]
            paths = ["$..leaf", "$..l", "$..l[0]", "$..a", "$..%s.leaf" % names[-1]] + ["$." + ".".join(names) + t for t in (".leaf", ".l", ".l[1]", ".*", ".new")] + ["$" + ".." + "." * len(names) + t for t in ("leaf", "l")]
        else:
            t = r.choice(["x" * 5000, "é" * 3000, "line\n" * 700, "y" * 70000, "'\"\\" * 1500, "a b " * 2000, "\t" * 4100, "z" * 4096, "w" * 65536])
            v = {"t": S(t), "l": ["a", [S(t[:5000]), N(1), S("q" + t[:4100])]], "u": N(3)}
            paths = ["$.t", "$.*", "$..t", "$.l", "$.l[0]", "$.l[*]"]
        d = {"root": ["m", v], "arr": False}
        if "l" in v and len(v) == 1 and maybe(g, .3):
            d = {"root": ["m", {"array": v["l"]}], "arr": True}
            paths = [p.replace(".l", ".array") for p in paths]
        lines.append(g.reset({"d": d, "e": copy.deepcopy(d)} if both else {"d": d}, ft, ints=False))
        for p in r.sample(paths, min(len(paths), 3)):
            op = r.choice(ops)
            o = {"op": op, "h": "d", "must": op in ("push", "pop") or maybe(g, .3)}
            if op in ("get", "set", "del", "push", "pop", "resolve"): o["path"] = p
            if op in ("push", "pop") and (p not in ("$.l", "$.l[*]", "$..l", "$.array", "$.o", "$.t") and not p.endswith(".l") or shape == "deep"): continue      # the others put all of it at each of the places
            if op in ("push", "pop"): o["idx"] = r.choice([[], [0], [k], [k - 1], [0, k // 2], [k // 2, 3, 3], [1, 2, 5, 11, 40], [k + 20]])
            if op in ("set", "push"): o["val"] = r.choice([N(5), S("v" * 5000), ["a", [N(j) for j in range(40)]], ["m", {"q": N(1)}]]) if not (shape in ("rows", "object") and op == "set") else N(5)
            if op == "markup":
                if "[?" in p: continue
                o.update(path=p, lang="js", src=r.choice(["// " + "x" * 5000, "json.trail.q = 1;\n" * 300, "1", "// %s" * 1500, "// " + "w" * 66000]), must=False)
            if op == "load": o.update(val=d["root"][1]["array"] if d["arr"] else d["root"])
            if op == "load": o["text"] = text_of(o["val"], r)
            if op == "clone": o.update({"h": "c", "from": "d", "clear": False})
            if op in ("marshal", "load", "clone"): o["must"] = False
            if op in ("find", "strip", "run", "string"): o["must"] = True
            if op == "resolve": o["must"] = False
            lines.append(o)
            if both and op in ("get", "set", "del"): lines.append(dict(o, h="e", must=not o["must"]))
            if op in ("push", "pop", "set", "del"): lines.append({"op": "get", "h": "d", "path": p, "must": False})
    return groups_of(lines)


def large_runs(seed, n, kinds=("set", "count", "scope"), langs=("js", "js", "go"), op="run"):
    """Many scripts in a scope, many scopes, deep scopes, and long values and scripts."""
    g = Scripts(seed)
    r = g.r
    lines = []
    for i in range(n):
        g.start()
        lang = r.choice(langs)
        small = lambda scope, m=1: g.a_script(scope, lang, list(kinds), r.randint(0, m))
        shape = r.choice(["many", "list", "list", "deep", "long", "wide"])
        arr = False
        if shape == "many":
            scope = ["m", {"v": g.distinct()}]
            names = ["s%d" % j for j in range(r.choice([13, 20, 40]))] + r.sample(NAMES, 4)
            r.shuffle(names)
            for k in names: scope[1][k] = N(0)
            for k in names: scope[1][k] = small(scope)
            root = scope if maybe(g, .5) else ["m", {"in": scope}]
        elif shape in ("list", "wide"):
            items = [["m", {"v": N(j)}] for j in range(r.choice([14, 33, 66]))]
            for o in items:
                if maybe(g, .7): o[1][g.skey()] = small(o)
            if shape == "list":
                for _ in range(r.choice([0, 1, 1, 4])): items.insert(r.choice([0, 0, 1, r.randint(0, len(items))]), r.choice([NULL, NULL, ["a", []], ["m", {}], N(7), S("x"), ["b", True], ["a", [NULL]], ["a", [["m", {}]]]]))
                if maybe(g, .4): items[:] = items[:r.randint(1, 6)]
            root = ["m", {"l": ["a", items]}] if shape == "list" else ["m", {"k%d" % j: o for j, o in enumerate(items)}]
            if shape == "list" and maybe(g, .4): root, arr = ["m", {"array": root[1]["l"]}], True
        elif shape == "deep":
            root = ["m", {"v": N(0)}]
            for j in range(r.choice([12, 25, 40])):
                root[1]["s"] = small(root)
                root = ["m", {r.choice("abc"): root}] if maybe(g, .7) else ["m", {"l": ["a", [N(j), root]]}]
        else:
            t = r.choice(["x" * 5000, "é" * 3000, "line\n" * 700, "y" * 70000, "a b " * 2000, "w" * 65536, "%d" * 4000])
            root = ["m", {"t": S(t), "l": ["a", [S(t[:4100]), ["m", {"u": S(t[:3000])}]]]}]
            lang = r.choice(["js", "go"])
            root[1]["s"] = small(root, 3)
            root[1]["a"] = g.js_script([["copy", "t", "t2"]] + g.ops(root, "js", list(kinds), 1), pre="// " + "comment " * r.choice([10, 9000]) + "\n") if lang == "js" else g.go_script([["copy", "t", "t2"]])
        if op != "run" and maybe(g, .5): r.choice(objects(root))[1]["zz1"] = S(r.choice(BADSHEBANG) + "\nx")
        lines.append(g.reset({"d": {"root": root, "arr": arr}, "e": g.doc(depth=1)}, g.ft, st=g.st, ints=False))
        lines.append({"op": op, "h": "d", "must": True})
    return groups_of(lines)
