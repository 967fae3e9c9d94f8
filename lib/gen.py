"""Random scenarios for the driver. Nothing here decides anything: the operations are judged by the specification."""
import json, random

# Texts which are no documents (neither JSON nor Hjson, or not with an object or array as their root)
BADTEXTS = ["{", "[", "{\"a\": }", "[1, 2", "{\"a\": 1", "{a: 'x", "]", "{\"a\":[1}", "[1,", "{\"a\":", "[}", "{\"a\" 1}", "{\"a\":1}}", "[1]]", "{a:1,,b:2}",
            "{\"a\":\"\\q\"}", "{\"a\":\"x}", "5", "\"a\"", "true", "null", "}", "nul"]
NAMES = ["a", "b", "c", "k", "B", "Z", "aa", "a1", "a10", "a9", "A_b", "k-2", "name", "list", "_x", "zz", "b2"]
ODD = ["", "é", "a b", "中", "1x", "$", "@", "a.b", "ñ", "x'y", "q\"r", "[0]", "50%", "%s", "a%d%n", "{", "a:b", "#k", "%!", " x", "x ", "a,b", "0", "10", "9", "true", "null", "__proto__", "constructor", "toString", "length"]
TYPED = {"x": "n", "y": "n", "s": "s", "t": "s", "v": "b"}
STRS = ["", "x", "foo", "Foo", "a@b", "$.a", "it's", "say \"hi\"", "é", "中文", "line\nbreak", "12", "true", " lead", "tab\there", "[0]", ")]", "a,b:c", "{}", "#hash", "//c", "\\", "b\\n",
        "x \ny", "t\t\n", " \n ", "trail ", "\n", "\n\nz", "100%", "%d%s", "null", "1e5", "-1", "0x10", "01", "1.50", "'''", ",'a'", '"b"', "a'''b\nc", "\u2028", "k: v", "[", "}", "a\n  b\n\tc", "False", "/*x*/", "x # y", "&<>", "y" * 200, "\u0001", "\u007f\u00a0", "</script>", "\\u0041"]
RAWS = [("'a\\')]' !== ''", "t"), ('"\\"" !== \')]\'', "t"), ("'\\\\' !== ')]'", "t"), ("'\\'@)]' === ''", "f"), ('"x\\"@)]" !== "@"', "t"), ("'\"' === '\\x22'", "t"), ("')]'.length === 2", "t"),
        ("'\\u0040' === '@'", "t"), ("'[?(@)]' === '[?(@)]'", "t"), ("'\\\\\\')]@'.length === 5", "t"), ('"\'" === "\\\'"', "t"), ("[')]'][0] === '@'", "f"), ("'$.a' === '$.a'", "t"), ("'é@' === 'é\\x40'", "t")]
INHERITED = {"__proto__", "constructor", "toString", "hasOwnProperty", "valueOf", "length"}
DECS = ["1.5", "-0.25", "3.14159", "1e+30", "2.5e-07", "1e+300", "9.3e+18", "1.8446744073709552e+19", "-1e+25", "1.7976931348623157e+308", "4.294967296e+09", "-2.147483649e+09",
        "9.007199254740992e+15", "1e+21", "1e-07", "0.1", "1.23456789012e+11", "5e-324", "9.223372036854776e+18"]


def S(s): return ["s", s]
def N(n): return ["n", n]
NULL = ["z", ""]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.count = 0
        self.dollar = .15      # how often filters compare with another path

    # ------------------------------------------------------------- values
    def scalar(self, deep=False):
        r = self.r
        c = r.random()
        if c < .4: return N(r.choice([0, 1, 2, 3, 7, 10, 42, -1, -5, 100, 65536, 2000000000 - 1]))
        if c < .7: return S(r.choice(STRS))
        if c < .8: return ["b", r.random() < .5]
        if c < .9: return NULL
        return ["d", r.choice(DECS)]

    def distinct(self):
        """A value that occurs nowhere else."""
        self.count += 1
        return N(1000 + self.count)

    def key(self, odd=.1):
        r = self.r
        if r.random() < odd: return r.choice(ODD)
        if r.random() < .3: return r.choice(list(TYPED))
        return r.choice(NAMES)

    def value(self, depth, odd=.1, width=4, unique=.5):
        r = self.r
        c = r.random()
        if depth <= 0 or c < .25:
            return self.distinct() if r.random() < unique else self.scalar()
        if c < .65:
            m = {}
            for _ in range(r.randint(0 if r.random() < .2 else 1, width)):
                k = self.key(odd)
                t = TYPED.get(k)
                m[k] = (N(r.randint(-3, 12)) if t == "n" else S(r.choice(["foo", "bar", "", "é", "a@b"])) if t == "s"
                        else ["b", r.random() < .5] if t == "b" else self.value(depth - 1, odd, width, unique))
            return ["m", m]
        n = r.randint(0 if r.random() < .2 else 1, width)
        if r.random() < .1: n = r.randint(10, 14)
        if r.random() < .5:      # elements which are alike
            keys = r.sample(NAMES, 2) + list(TYPED)
            out = []
            for _ in range(n):
                m = {}
                for k in keys:
                    if r.random() < .6:
                        t = TYPED.get(k)
                        m[k] = (NULL if r.random() < .07 else N(r.randint(-3, 12)) if t == "n" else S(r.choice(["foo", "bar", "", "é"])) if t == "s"
                                else ["b", r.random() < .5] if t == "b" else self.value(min(depth - 2, 1), odd, 2, unique))
                out.append(["m", m])
            return ["a", out]
        return ["a", [self.value(depth - 1, odd, width, unique) for _ in range(n)]]

    def root(self, depth=3, odd=.1, width=4, unique=.5):
        r = self.r
        m = {}
        for _ in range(r.randint(1, width + 1)):
            m[self.key(odd)] = self.value(depth - 1, odd, width, unique)
        if r.random() < .5: m["z"] = r.choice([N(r.randint(-2, 8)), S("foo"), S("bar"), ["b", True]])
        return ["m", m]

    def doc(self, depth=3, arrays=.15, **kw):
        if self.r.random() < arrays:
            return {"root": ["m", {"array": ["a", [self.value(depth - 1, **kw) for _ in range(self.r.randint(0, 4))]]}], "arr": True}
        return {"root": self.root(depth, **kw), "arr": False}

    def nested(self, n):
        """A deep document."""
        v = self.distinct()
        for _ in range(n):
            v = ["m", {self.r.choice(NAMES): v}] if self.r.random() < .7 else ["a", [self.distinct()] * self.r.randint(0, 1) + [v]]
        return {"root": v if v[0] == "m" else ["m", {"a": v}], "arr": False}

    # -------------------------------------------------------------- paths
    def writable(self, k):
        return len(k) > 0 and (k[0].isascii() and (k[0].isalpha() or k[0] == "_")) and all(c.isascii() and (c.isalnum() or c in "_-") for c in k)

    def names_in(self, v, out=None):
        out = set() if out is None else out
        if v[0] == "m":
            for k, e in v[1].items():
                if self.writable(k): out.add(k)
                self.names_in(e, out)
        elif v[0] == "a":
            for e in v[1]: self.names_in(e, out)
        return out

    def named(self, v, k):
        out = []
        if v[0] == "m":
            for q in sorted(v[1]):
                if q == k: out.append(v[1][q])
                out += self.named(v[1][q], k)
        elif v[0] == "a":
            for e in v[1]: out += self.named(e, k)
        return out

    def follow(self, v, key):
        """Roughly where a key leads (only used to find keys which make sense next)."""
        try:
            t = key[0]
            if v[0] == "m":
                if t == "S": return v[1].get(key[1])
                if t in "WF": return ["a", [v[1][k] for k in sorted(v[1])]]
                if t == "D":
                    for k in sorted(v[1]):
                        if v[1][k][0] in "ma": return v[1][k]
                    return None
            if v[0] == "a":
                if t == "S": return ["a", [e[1][key[1]] for e in v[1] if e[0] == "m" and key[1] in e[1]]]
                if t == "I": return v[1][key[1]] if 0 <= key[1] < len(v[1]) else None
                if t in "WF": return v
                if t == "L":
                    lo = 0 if key[1][0] == "e" else key[1][1]
                    hi = len(v[1]) if key[2][0] == "e" else key[2][1]
                    if lo < 0: lo += len(v[1])
                    if hi < 0: hi += len(v[1])
                    return ["a", v[1][lo:hi]] if 0 <= lo <= hi <= len(v[1]) else None
            if t == "R" and v[0] in "ma":
                out = []
                for e in self.named(v, key[1]): out += e[1] if e[0] == "a" else [e]
                return ["a", out]
        except (KeyError, IndexError, TypeError):
            pass
        return None

    def slice(self, n):
        r = self.r
        E, B = ["e", ""], lambda x: ["n", x]
        form = r.randint(0, 4)
        near = lambda: r.choice([0, 1, n - 1, n, n + 1, n // 2, r.randint(0, max(1, n))])
        pos = lambda: max(0, near())
        if form == 0: return ["L", E, B(pos())]
        if form == 1: return ["L", B(pos()), E]
        if form == 2: return ["L", B(-max(1, near())), E]
        if form == 3: return ["L", E, B(-max(1, near()))]
        lo, hi = pos(), pos()
        if lo > hi and r.random() < .8: lo, hi = hi, lo
        return ["L", B(lo), B(hi)]

    def step(self, v, kinds, ft, root, wrong=.06):
        """A key that can follow at v: a list of alternatives (more than one for [i, j]) and where they lead."""
        r = self.r
        t = r.choice(kinds)
        if r.random() < wrong or v is None:
            t = r.choice(kinds)
            k = {"S": ["S", r.choice(NAMES)], "I": ["I", r.choice([0, 1, 5, -1])], "W": ["W", ""], "D": ["D", ""], "R": ["R", r.choice(NAMES)],
                 "L": self.slice(2), "F": ["F", self.filter(ft, root, None)], "M": ["I", 0]}[t]
            return [k]
        if t == "S":
            ks = [k for k in v[1] if self.writable(k)] if v[0] == "m" else sorted({k for e in v[1] if e[0] == "m" for k in e[1] if self.writable(k)}) if v[0] == "a" else []
            return [["S", r.choice(ks)]] if ks else None
        if t == "I":
            return [["I", r.choice([0, len(v[1]) - 1, r.randint(0, len(v[1]) - 1)]) if r.random() > .08 else len(v[1]) + r.randint(0, 1)]] if v[0] == "a" and v[1] else None
        if t == "M":
            if v[0] != "a" or not v[1]: return None
            return [["I", r.randint(0, len(v[1]) - 1)] for _ in range(r.randint(2, 4))]
        if t == "W": return [["W", ""]] if v[0] in "ma" else None
        if t == "D": return [["D", ""]] if v[0] == "m" else None
        if t == "R":
            ks = sorted(self.names_in(v))
            return [["R", r.choice(ks)]] if ks and v[0] in "ma" else None
        if t == "L": return [self.slice(len(v[1]))] if v[0] == "a" else None
        if t == "F": return [["F", self.filter(ft, root, v)]] if v[0] in "ma" else None
        return None

    def path(self, doc, kinds="SSSSIIWWMDRLF", ft=None, maxlen=4, wrong=.06, must_have=None):
        """A JSON path for the document: its text."""
        r = self.r
        for n in range(60):
            v, text, prev, used = doc["root"], "$", "", set()
            for _ in range(r.randint(1, maxlen if n < 10 else max(maxlen, 3))):
                bad = r.random() < wrong or n > 50      # a document may have nothing that the path has to have
                if v is None and not bad and r.random() < .85: break
                ks = None
                for _ in range(8):
                    ks = self.step(v, kinds, ft, doc["root"], 1 if bad else 0)
                    if ks and not (prev == "D" and ks[0][0] == "R"): break
                    ks = None
                if not ks: break
                text += self.keytext(ks, prev)
                used |= {k[0] for k in ks} | ({"M"} if len(ks) > 1 else set())
                prev = ks[0][0]
                v = self.follow(v, r.choice(ks)) if v else None
            if prev == "D" and r.random() < .3: pass
            if used and (not must_have or used & set(must_have)): return text
        return "$." + r.choice(NAMES)

    def keytext(self, ks, prev):
        k = ks[0]
        if len(ks) > 1:
            sep = self.r.choice([",", ", ", ",  "])
            return "[" + sep.join(str(q[1]) for q in ks) + "]"
        b = lambda x: "" if x[0] == "e" else str(x[1])
        t = k[0]
        if t == "S": return k[1] if prev == "D" else "." + k[1]
        if t == "I": return "[%d]" % k[1]
        if t == "W": return ("*" if prev == "D" else ".*") if self.r.random() < .4 else "[*]"
        if t == "F": return "[?(" + k[1] + ")]"
        if t == "R": return ".." + k[1]
        if t == "L": return "[" + b(k[1]) + ":" + b(k[2]) + "]"
        return "." if prev == "D" else "..."

    # ------------------------------------------------------------ filters
    def fields(self, v):
        """name -> values of the fields of the elements of v"""
        out = {}
        es = v[1].values() if v and v[0] == "m" else v[1] if v and v[0] == "a" else []
        for e in es:
            if e[0] == "m":
                for k, x in e[1].items():
                    if self.writable(k) and "-" not in k and k not in INHERITED: out.setdefault(k, []).append(x)
        return out, list(es)

    def lit(self, v):
        q = self.r.choice("'\"")
        if v[0] == "s" and q in v[1]: q = "'" if q == '"' else '"'
        return ["k", v, q if v[0] == "s" else ""]

    def filter_ast(self, root, v, depth=2):
        r = self.r
        fields, es = self.fields(v)
        if depth > 0 and r.random() < .3:
            t = r.choice(["and", "or", "not"])
            if t == "not": return ["not", self.filter_ast(root, v, depth - 1)]
            return [t, self.filter_ast(root, v, depth - 1), self.filter_ast(root, v, depth - 1)]
        if root is not None and root[0] == "m" and r.random() < self.dollar * .4:
            # what another path denotes: no values, one, or several
            tops = [k for k in root[1] if self.writable(k)] or ["x"]
            k = r.choice(tops)
            p = r.choice(["$..%s" % r.choice(NAMES), "$..%s" % k, "$.%s" % k] + {"a": ["$.%s[*]" % k, "$.%s[0:]" % k, "$.%s[0:0]" % k, "$.%s[-1:]" % k], "m": ["$.%s.*" % k, "$.%s...*" % k]}.get(root[1].get(k, N(0))[0], []) * 2)
            t = ["is", ["$", p, ""]] if r.random() < .75 else ["type", ["$", p, ""], r.choice(["object", "number", "string", "undefined"])]
            if r.random() < .4: t = ["not", t]
            if r.random() < .5:
                o = r.choice([S("a@b"), S("@"), S("it's @ home"), S("$.a"), S("foo"), N(1)])
                u = ["cmp", r.choice(["!==", "!=", "==="]), r.choice([["@", []], self.lit(r.choice([S("@@"), S("x"), o]))]), self.lit(o)]
                t = r.choice([["and", t, u], ["or", t, u], ["and", u, t]])
            return t
        if r.random() < .05:        # string literals with escapes, brackets and quotes in them
            return ["raw", *r.choice(RAWS)]
        names = [k for k in fields] or ["x"]
        name = r.choice(names + ["x", "s"])
        cur = ["@", [name]] if fields and r.random() < .85 else ["@", []]
        if r.random() < .08: cur = ["@", [name, "length"]]
        if r.random() < .04: cur = ["@", [name, r.choice(NAMES[:5])]]
        seen = fields.get(name, []) if len(cur[1]) == 1 else es
        c = r.random()
        if c < .15: return ["is", cur]
        if c < .22: return ["type", cur, r.choice(["number", "string", "object", "undefined", "boolean"])]
        ok = [x for x in seen if x[0] in "nsbz" and not (x[0] == "s" and any(q in x[1] for q in "\\\n\t\u2028\u0001") or x[0] == "s" and "'" in x[1] and '"' in x[1])]
        other = r.choice(ok) if ok and r.random() < .7 else r.choice([N(r.randint(-2, 9)), S("foo"), S("a@b"), S("é"), S("$.a"), S(""), ["b", True], NULL, N(0), S(")]"), S("it's")])
        rhs = self.lit(other)
        if root is not None and r.random() < self.dollar and root[0] == "m":
            tops = [k for k in root[1] if self.writable(k) and root[1][k][0] in "nsb"]
            if tops: rhs = ["$", "$." + r.choice(tops), ""]
        op = r.choice(["===", "!==", "==", "!=", "<", "<=", ">", ">="]) if other[0] in "ns" else r.choice(["===", "!==", "==", "!="])
        a, b = (cur, rhs) if r.random() < .85 else (rhs, cur)
        return ["cmp", op, a, b]

    def filter(self, ft, root, v, depth=2):
        t = self.filter_ast(root, v, depth)
        text = filter_text(t)
        # white space of all kinds, on several lines perhaps
        if self.r.random() < .12: text = self.r.choice(["\n", " ", "\t", "\n  ", "\r\n", ""]) + text.replace(" && ", self.r.choice([" &&\n", "&& ", "\n\t&& "])) + self.r.choice(["\n", " ", "", "\n\n"])
        ft[text] = t
        return text

    # ------------------------------------------------------------- events
    def reset(self, docs, ft=None, st=None, name=None, delay=20, ints=None, **kw):
        self.group = {"op": "reset", "ft": ft if ft is not None else {}, "st": st if st is not None else {}, "docs": docs, "delay": delay,
                      "name": name or "g", "ints": (self.r.random() < .2) if ints is None else ints}
        self.group.update(kw)
        return self.group


def op_text(o):
    if o[0] == "@": return "@" + "".join("." + n for n in o[1])
    if o[0] == "$": return " " + o[1] + " "
    v, q = o[1], o[2]
    return {"n": lambda: str(v[1]), "b": lambda: "true" if v[1] else "false", "z": lambda: "null", "s": lambda: q + v[1] + q}[v[0]]()


def filter_text(t):
    k = t[0]
    if k == "is": return op_text(t[1])
    if k == "cmp": return op_text(t[2]) + " " + t[1] + " " + op_text(t[3])
    if k == "type": return "typeof " + op_text(t[1]) + " === '" + t[2] + "'"
    if k == "not": return "!(" + filter_text(t[1]) + ")"
    if k == "and": return "(" + filter_text(t[1]) + ") && (" + filter_text(t[2]) + ")"
    if k == "or": return "(" + filter_text(t[1]) + ") || (" + filter_text(t[2]) + ")"
    if k == "raw": return t[1]
    return "@"


# ------------------------------------------------------------------- JSON text
def plain(v):
    """The Python value (for json.dumps)."""
    k = v[0]
    if k == "m": return {q: plain(e) for q, e in v[1].items()}
    if k == "a": return [plain(e) for e in v[1]]
    if k == "z": return None
    if k == "d": return float(v[1])
    return v[1]


def text_of(v, r=None):
    """The value as JSON or hjson text."""
    style = r.choice(["json", "json", "spaced", "escaped", "hjson"]) if r else "json"
    p = plain(v)
    if style == "json": return json.dumps(p, ensure_ascii=False)
    if style == "spaced": return "\n" + json.dumps(p, ensure_ascii=False, indent=r.choice([1, 2, 4])) + "\n "
    if style == "escaped": return json.dumps(p, ensure_ascii=True, separators=(",", ":"))

    def h(x, ind):
        pad = "  " * (ind + 1)
        if isinstance(x, dict):
            if not x: return "{}"
            rows = []
            for k, e in x.items():
                bare = k.isascii() and k.isalnum() and r.random() < .7
                rows.append(pad + r.choice(["", "", "# note\n" + pad, "// note\n" + pad]) + (k if bare else json.dumps(k, ensure_ascii=False)) + ": " + h(e, ind + 1) + r.choice(["", ",", " /* c */"]))
            return "{\n" + "\n".join(rows) + "\n" + "  " * ind + "}"
        if isinstance(x, list):
            if not x: return "[]"
            return "[\n" + "\n".join(pad + h(e, ind + 1) + r.choice(["", ","]) for e in x) + "\n" + "  " * ind + "]"
        return json.dumps(x, ensure_ascii=False)
    return h(p, 0)
