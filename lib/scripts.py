"""Random documents with scripts in them. What a script does is written down as a sequence of operations, from which the
JavaScript text (or the Go callback of the driver) is made; the specification knows the operations only."""
import json
from gen import Gen, S, N, NULL, NAMES, plain

SKEYS = ["script", "a", "a9", "a10", "B", "Z", "_s", "zz", "s", "s1", "k-2", "run", "A_b", "0", "10", "9", "é", "x y"]


def js(v):
    return json.dumps(plain(v), ensure_ascii=False).replace("\u2028", "\\u2028").replace("\u2029", "\\u2029")


def jq(s):
    return json.dumps(s, ensure_ascii=False)


def js_op(op, r):
    """The JavaScript for an operation."""
    k = op[0]
    t = lambda key: "json.trail[%s]" % jq(key)
    if k == "set": return "%s = %s;" % (t(op[1]), js(op[2]))
    if k == "del": return "delete %s;" % t(op[1])
    if k == "pset": return "json.jsonPathSelector(%s).setValues(%s);" % (jq(op[1]), js(op[2]))
    if k == "psetx": return "json.jsonPathSelector(%s).setValues(%s);" % (jq(op[1]), op[3])
    if k == "pdel": return "json.jsonPathSelector(%s).setValues(null);" % jq(op[1])
    if k == "pget": return "%s = json.jsonPathSelector(%s).getValues();" % (t(op[2]), jq(op[1]))
    if k == "push": return "%s.push(%s);" % (t(op[1]), js(op[2]))
    if k == "scope": return "%s = json.scopePath;" % t(op[1])
    if k == "count": return "%s = Object.keys(json.trail).length;" % t(op[1])
    if k == "copy": return "if (Object.prototype.hasOwnProperty.call(json.trail, %s)) { %s = JSON.parse(JSON.stringify(%s)); }" % (jq(op[1]), t(op[2]), t(op[1]))
    if k == "kind": return "if (Object.prototype.hasOwnProperty.call(json.trail, %s)) { %s = %s(%s); }" % (jq(op[1]), t(op[2]), r.choice(KINDS), t(op[1]))
    if k == "kinds": return "%s = (%s)(json.jsonPathSelector(%s).getValues());" % (t(op[2]), r.choice(ALLKINDS) % r.choice(KINDS), jq(op[1]))
    if k == "expr": return "%s = %s;" % (t(op[1]), op[3])
    if k == "undef": return "%s = %s;" % (t(op[1]), op[2])
    if k == "trail": return "json.trail = %s;" % js(op[1])
    if k == "leak": return "var had = typeof %s !== 'undefined'; %s = 1; %s = had;" % (op[1], op[1], t(op[2]))
    if k == "log": return "%s(%s);" % (r.choice(["console.log", "console.log", "console['log']", "printlnExternal", "var c = console; c.log"]) if op[1] == "out" else r.choice(["console.error", "console['error']"]), ", ".join(js(v) for v in op[2]))
    if k == "sel": return "var %s = json.jsonPathSelector(%s);" % (op[1], jq(op[2]))
    if k == "nget": return "%s = %s.getValues();" % (t(op[2]), op[1])
    if k == "nset": return "%s.setValues(%s);" % (op[1], js(op[2]))
    if k == "npaths": return "%s = %s._absolutePaths;" % (t(op[2]), op[1])
    if k == "try": return "try { %s } catch (e) { %s = e.name; }" % (js_op(op[2], r), t(op[1]))
    if k == "rescope": return "json.scopePath = %s;" % js(op[1])
    if k == "badtrail": return r.choice(BADTRAILS)
    if k == "throw": return r.choice(THROWS)
    if k == "loop": return op[1] if len(op) > 1 else r.choice(LOOPS)
    if k in ("long", "sleep"): return "var t0 = Date.now(); while (Date.now() - t0 < %d) {}" % op[1]
    raise ValueError(k)


KINDS = ['(function (v) { return v === null ? "null" : v instanceof Array ? "array" : v instanceof Object ? "object" : typeof v === "object" ? "foreign" : typeof v; })',
         '(function (v) { return v === null ? "null" : typeof v !== "object" ? typeof v : Object.getPrototypeOf(v) === Array.prototype ? "array" : Object.getPrototypeOf(v) === Object.prototype ? "object" : "foreign"; })',
         '(function (v) { if (v === null) { return "null"; } if (typeof v !== "object") { return typeof v; } Array.prototype.kindOfIt = "array"; Object.prototype.kindOfIt = "object"; '
         'var k = Object.prototype.hasOwnProperty.call(v, "kindOfIt") ? "?" : v.kindOfIt; delete Array.prototype.kindOfIt; delete Object.prototype.kindOfIt; return k; })']
ALLKINDS = ["function (a) { var K = %s; return a instanceof Array ? a.map(function (v) { return K(v); }) : 'foreign'; }",
            "function (a) { var K = %s, out = []; for (var i = 0; i < a.length; i++) { out.push(K(a[i])); } return Array.prototype.isPrototypeOf(a) ? [].concat(out) : 'foreign'; }"]
LOOPS = ["while (true) { ; }", "for (;;) { var q = 1; }", "do { ; } while (1);", "for (var i = 0; ; i++) { if (i < 0) break; }", "(function f() { for (;;) { ; } })();",
         "[1].forEach(function () { while (1) { ; } });", "[2, 1].sort(function () { for (;;) { ; } });", "'a'.replace(/a/, function () { while (true) { ; } });",
         "var o = {}; Object.defineProperty(o, 'x', {get: function () { for (;;) { ; } }}); o.x;", "JSON.stringify({toJSON: function () { while (1) { ; } }});",
         "try { while (true) { ; } } catch (e) { json.trail.caught = 1; }", "try { for (;;) { ; } } finally { json.trail.last = 1; }", "while (true) { try { throw 1; } catch (e) { ; } }",
         "label: while (true) { do { continue label; } while (1); }", "for (var i = 0; i < 10; i++) { i = 0; }", "json.trail.toJSON = function () { for (;;) { ; } };",
         "(function f(n) { if (n) { f(n - 1); f(n - 1); } })(60);", "function g(n) { return n < 2 ? n : g(n - 1) + g(n - 2); } json.trail.fib = g(70);", "var a = [1], h = function (n) { a.forEach(function () { if (n) { h(n - 1); h(n - 1); } }); }; h(50);",
         "eval('while (1) { ; }');", "new Function('while (1) { ; }')();", "while (true) { json.scopePath; }", "for (;;) { if (json.jsonPathSelector('$').getValues) { ; } }",
         "json.trail.constructor.constructor('while (true) { ; }')();", "json.jsonPathSelector('$').getValues().constructor.constructor('for (;;) { ; }')();",
         "json.jsonPathSelector('$.a')._absolutePaths.map.constructor('for (;;) { ; }')();", "Object.getPrototypeOf(json.trail).hasOwnProperty.constructor('while (1) { ; }')();",
         "json.jsonPathSelector('$.made').setValues([1]); json.trail.made.constructor.constructor('while (true) { ; }')();"]
THROWS = ["throw new Error('no');", "throw 'no';", "missing_function();", "null.x;", "json.jsonPathSelector(3);", "json.jsonPathSelector('nope');", "throw '';",
          "throw undefined;", "throw null;", "throw {};", "throw 0;", "throw new TypeError('');", "throw new Error();", "throw [];", "throw false;", "json.jsonPathSelector();",
          "json.jsonPathSelector('$.a', 1);", "eval('(');", "JSON.parse('{');", "json.jsonPathSelector('$.a').setValues();", "json.jsonPathSelector('$.a').setValues(1, 2);",
          "var o = {}; o.o = o; JSON.stringify(o);", "throw 'call from: <x>:1:1';", "throw new Error('100%s %d');", "undefined();", "new Array(-1);",
          "'use strict'; throw 1;", "(function () { throw new RangeError('x'); })();", "try { null.x; } finally { json.trail; }", "try { throw 1; } catch (e) { throw e; }"]
BADTRAILS = ["json.trail = 5;", "json.trail = [1];", "json.trail = undefined;", "json.trail = 'x';", "json.trail = true;", "json.trail = function () {};", "delete json.trail;",
             "json.trail.toJSON = function () { return 1; };", "json = 3;", "json.trail = null;", "json.trail.me = json.trail;"]
EXPRS = [(N(3), "1 + 2"), (["d", "0.5"], "1 / 2"), (N(-4), "-4"), (S("ab"), "'a' + 'b'"), (["b", True], "!0"), (["b", False], "1 > 2"),
         (NULL, "null"), (["a", [N(1), N(2)]], "[1, 2]"), (["m", {"q": N(1)}], "{q: 1}"), (["a", []], "[]"), (["m", {}], "{}"),
         (["a", [NULL, N(1)]], "[undefined, 1]"), (NULL, "NaN"), (NULL, "1 / 0"), (S("x"), "new String('x')"), (N(5), "new Number(5)"),
         (["m", {"b": N(2)}], "{a: undefined, b: 2}"), (["m", {"b": N(2)}], "{f: function () {}, b: 2}"), (["a", [NULL]], "[function () {}]"),
         (["a", [["a", [N(1)]], ["m", {}]]], "[[1], {}]"), (N(1000000), "1e6"), (["d", "1e+30"], "1e30"), (N(0), "0"), (S(""), "''"),
         (S("é中"), "'é' + '\\u4e2d'"), (S("a\nb"), "'a\\nb'"), (N(2), "[1, 2].length"), (["a", [N(1), N(3)]], "[3, 1].sort()"),
         (S("1,2"), "[1, 2].join()"), (["a", [S("a"), S("b")]], "'a,b'.split(',')"), (N(6), "(function (n) { return n * 2; })(3)"),
         (["m", {"x": ["m", {"y": ["a", [N(1), ["m", {"z": NULL}]]]}]}], "{x: {y: [1, {z: null}]}}"),
         (N(0), "-0"), (["d", "0.30000000000000004"], "0.1 + 0.2"), (["d", "1e+21"], "1e21"), (["d", "9.007199254740992e+15"], "9007199254740993"), (["d", "2e+19"], "2e19"),
         (["d", "1e+300"], "1e300"), (NULL, "-Infinity"), (S("1970-01-01T00:00:00.000Z"), "new Date(0)"), (["m", {}], "/x/g"), (["a", [N(1), NULL, N(3)]], "[1, , 3]"),
         (N(7), "{toJSON: function () { return 7; }}"), (["m", {"b": ["a", [NULL]]}], "{f: function () {}, b: [NaN]}"), (["b", False], "new Boolean(false)"), (["m", {"q": NULL}], "{q: null}"),
         (["a", [NULL, NULL]], "new Array(2)"), (["m", {"0": S("a")}], "{0: 'a'}"), (["m", {"k": ["m", {"__proto__": N(3)}]}], "{k: JSON.parse('{\"__proto__\": 3}')}"), (["m", {}], "Math"),
         (["a", [N(1), N(2)]], "(function () { var a = [1, 2]; a.x = 3; return a; })()"), (["m", {"own": N(1)}], "(function () { function F() { this.own = 1; } F.prototype.inherited = 2; return new F(); })()"),
         (S("\u2028"), "'\\u2028'"), (S("\u0001\u007f"), "'\\x01\\x7f'"), (["d", "5e-324"], "5e-324"), (["a", [["a", []], ["a", [["m", {}]]]]], "[[], [{}]]"), (S("a"), "'abc'.charAt(0)"), (N(97), "'abc'.charCodeAt(0)")]
UNDEFS = ["undefined", "function () { return 1; }", "void 0"]
BADSHEBANG = ["#//!py", "#//!rb", "#//!JS", "#//!Go", "#//!xx", "#//!j ", "#//! j", "#//!..", "#//!ab"]
NOSHEBANG = ["#//!", "#//!j", "#//!jsx", "#//!js ", " #//!js", "#//js", "//!js", "#!js", "#/!js", "#//!javascript", "x#//!js", "\n#//!js", "#//!j\ns", "#//!js\r", "#//1js", "# //!js", "##//!js", ""]


class Scripts(Gen):
    def __init__(self, seed, prefix=""):
        super().__init__(seed)
        self.unique = .5
        self.prefix = prefix
        self.n = 0

    def start(self):
        self.st, self.ft = {}, {}

    def js_script(self, ops, id=None, pre="", quiet=False):
        self.n += 1
        id = id or "%ss%d" % (self.prefix, self.n)
        if self.r.random() < .15: pre += self.r.choice(["// 100%s %d\n", "/* %!v(MISSING) */\n", "var p = 7 % 3;\n", "\t \n", "// \\n 'quote\n", "// #//!js\n", "\n\n"])
        body = "" if quiet else "console.log('@@EXEC' + JSON.stringify([%s, json.scopePath, json.trail]));\n" % jq(id)
        if quiet: body = "// %s\n" % id
        text = "#//!js\n" + pre + body + "\n".join(js_op(o, self.r) for o in ops)
        self.st[text] = {"id": id, "ops": ops}
        return S(text)

    def go_script(self, ops):
        self.n += 1
        id = "%sg%d" % (self.prefix, self.n)
        self.st["f:" + id] = {"id": id, "ops": ops}
        return ["f", id]

    def raw_script(self, text, ops=()):
        """A script whose text does not announce itself."""
        self.n += 1
        self.st[text] = {"id": "", "ops": list(ops)}
        return S(text)

    def skey(self):
        return self.r.choice(SKEYS) if self.r.random() < .7 else self.key(.1)

    def ops(self, scope, lang, kinds, n=None, fail=0.0):
        """Operations of a script in a scope that looks (roughly) like the given object."""
        r = self.r
        out = []
        keys = list(scope[1]) or ["k"]
        data = [k for k in keys if not self.is_script(scope[1].get(k))] or keys
        for _ in range(n if n is not None else r.randint(0, 4)):
            k = r.choice(kinds)
            if k == "set": out.append(["set", r.choice(data) if r.random() < .4 else self.key(), self.value(r.choice([0, 1, 2]), unique=self.unique)])
            elif k == "setscript":     # a scope with scripts of its own, added by a script
                inner = ["m", {"v": self.distinct()}]
                inner[1][self.skey()] = self.a_script(inner, lang, ["set", "scope", "count"], 1)
                if r.random() < .3: inner = ["a", [self.distinct(), inner]]
                out.append(["set", r.choice(data) if r.random() < .3 else self.key(0), inner])
            elif k == "replace":       # whatever was there, scripts or not
                out.append(["set", r.choice(keys), self.value(1, unique=self.unique)])
            elif k == "del": out.append(["del", r.choice(data)])
            elif k == "delany": out.append(["del", r.choice(keys)])
            elif k in ("pset", "pdel", "pget"):
                p = self.path({"root": scope}, "SSSIIWRLMF" if k == "pget" else "SSSIIWRL", self.ft, maxlen=3, wrong=.02 + fail)
                out.append([k, p] + ([self.value(1, unique=self.unique)] if k == "pset" else [self.key(0)] if k == "pget" else []))
            elif k == "push":
                arrs = [q for q in data if scope[1].get(q, NULL)[0] == "a" and scope[1][q][1]]
                if arrs: out.append(["push", r.choice(arrs), self.value(1, unique=self.unique)])
            elif k == "scope": out.append(["scope", self.key(0)])
            elif k == "count": out.append(["count", self.key(0)])
            elif k == "copy": out.append(["copy", r.choice(data), self.key(0)])
            elif k == "kind":        # what a script has made itself need not be what its JSON is
                if not any(o[0] in ("expr", "undef") for o in out): out.append(["kind", r.choice(data), self.key(0)])
            elif k == "kinds": out.append(["kinds", self.path({"root": scope}, "SSSIIWRLM", self.ft, maxlen=3, wrong=.02 + fail), self.key(0)])
            elif k == "expr" and lang == "js":
                v, t = r.choice(EXPRS)
                out.append(["expr", self.key(0), v, t])
            elif k == "undef" and lang == "js": out.append(["undef", r.choice(keys) if r.random() < .5 else self.key(0), r.choice(UNDEFS)])
            elif k == "leak" and lang == "js": 
                name = r.choice(["leaked0", "leaked1", "Array2", "had2"])
                if not any(o[0] == "leak" and o[1] == name for o in out): out.append(["leak", name, self.key(0)])
            elif k == "log" and lang == "js":
                out.append(["log", r.choice(["out", "out", "err"]), [self.logged() for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 3]))]])
            elif k == "trail": out.append(["trail", ["m", {self.key(): self.value(1, unique=self.unique) for _ in range(r.randint(0, 2))}]])
            elif k == "throw": out.append(["throw"])
            elif k == "try" and lang == "js":
                out.append(["try", self.key(0), self.pathop(scope, r.choice(["pset", "pdel", "pget"]), .4)])
            elif k == "nodes" and lang == "js":     # a node set that is used more than once
                self.n += 1
                name = "n%d" % self.n
                out.append(["sel", name, self.path({"root": scope}, "SSSIIWRLMFD", self.ft, maxlen=3, wrong=.04 + fail)])
                for _ in range(r.randint(1, 4)):
                    c = r.random()
                    o = (["nget", name, self.key(0)] if c < .45 else ["nset", name, self.value(1, unique=self.unique)] if c < .65 else ["npaths", name, self.key(0)] if c < .75 else
                         ["set", r.choice(data), self.value(r.choice([0, 1, 2]), unique=self.unique)] if c < .9 else ["del", r.choice(data)])
                    if o[0] in ("nget", "nset") and r.random() < .25: o = ["try", self.key(0), o]
                    out.append(o)
            elif k == "rescope" and lang == "js":
                out.append(["rescope", S(r.choice(["", "$", "here", "$.other.[3]", "a b", "%s", "$.é"])) if r.random() < .93 else r.choice([N(1), NULL, ["a", []]])])
            elif k == "badtrail" and lang == "js":
                out.append(["badtrail"])
                break
            elif k == "gpush" and lang == "go": out.append(["gpush", self.path({"root": scope}, "SSSIIWRM", self.ft, maxlen=3, wrong=.02 + fail), self.value(1, unique=self.unique), self.places()])
            elif k == "gpop" and lang == "go": out.append(["gpop", self.path({"root": scope}, "SSSIIWRM", self.ft, maxlen=3, wrong=.02 + fail), self.places(), self.key(0)])
            elif k == "gfind" and lang == "go": out.append(["gfind", self.key(0)])
            elif k == "gstrip" and lang == "go": out.append(["gstrip"])
            elif k == "gmark" and lang == "go":
                p = self.path({"root": scope}, "SSSSIW", self.ft, maxlen=3, wrong=.02)
                inner = ["m", {"v": N(1)}]
                src = self.js_script(self.ops(inner, "js", ["set", "count", "scope"], 1))[1][len("#//!js\n"):]
                out.append(["gmark", p + (r.choice([".mm", ".script"]) if r.random() < .6 else ""), "js", src])
            elif k == "gload" and lang == "go":
                v = ["m", {self.key(): self.value(1, unique=self.unique) for _ in range(r.randint(0, 2))}]
                if r.random() < .4: v[1]["sub"] = ["m", {"q": self.a_script(["m", {}], "js", ["set", "scope"], 1)}]
                out.append(["gload", v, json.dumps(plain(v), ensure_ascii=False)])
            elif k == "sleep": out.append(["sleep", r.choice([1, 5, 20])])
        return out

    def pathop(self, scope, k, wrong):
        p = self.path({"root": scope}, "SSSIIWRLMF" if k == "pget" else "SSSIIWRL", self.ft, maxlen=3, wrong=wrong)
        return [k, p] + ([self.value(1, unique=self.unique)] if k == "pset" else [self.key(0)] if k == "pget" else [])

    def places(self):
        return [self.r.choice([0, 0, 1, 2, 3]) for _ in range(self.r.choice([0, 1, 1, 2, 3]))]

    def logged(self):
        r = self.r
        if r.random() < .02: return S(r.choice(["x" * 5000, "ab " * 1500, "l\n" * 300, "y" * 70000, "%s" * 2500, "é" * 40000]))
        return r.choice([S(r.choice(["hi", "two\nlines", "", "\n", "a%sb", "%d", "é", "x\n\ny", "call from: <x>:1:1", "100%", "%v %s", "%!d(MISSING)", "trail ", "\t", " lead", "a\n b"])), N(r.randint(-5, 100)), ["b", r.random() < .5],
                         ["d", r.choice(["1.5", "-0.25", "0.1"])], NULL])

    def is_script(self, v):
        return v is not None and (v[0] == "f" or v[0] == "s" and v[1].startswith("#//!"))

    def a_script(self, scope, lang, kinds, n=None, fail=0.0):
        ops = self.ops(scope, lang, kinds, n, fail)
        return self.js_script(ops) if lang == "js" else self.go_script(ops)

    def scripted(self, v, lang, kinds, p=.6, most=3, fail=0.0, top=True):
        """Puts scripts into the objects of v (in place)."""
        r = self.r
        if v[0] == "a":
            for e in v[1]: self.scripted(e, lang, kinds, p, most, fail, False)
        elif v[0] == "m":
            for k in list(v[1]): self.scripted(v[1][k], lang, kinds, p, most, fail, False)
            if r.random() < p or top:
                n = r.choice([1, 1, 2, 3])
                if most > 3 and r.random() < .3: n = r.randint(4, most)
                keys = r.sample(SKEYS, min(n, len(SKEYS))) if r.random() < .8 else [self.skey() for _ in range(n)]
                for k in keys: v[1].setdefault(k, N(0))
                for k in keys: v[1][k] = self.a_script(v, lang, kinds, None, fail)
        return v

    def sdoc(self, lang="js", kinds=("set", "del", "count", "scope"), depth=3, p=.6, most=3, fail=0.0, arrays=.15, width=3, noise=.1, odd=.05):
        d = self.doc(depth=depth, arrays=arrays, width=width, odd=odd)
        if noise: self.noise(d["root"], noise)
        self.scripted(d["root"], lang, kinds, p, most, fail, top=not d["arr"])
        return d

    def noise(self, v, p):
        """Strings which are nearly scripts."""
        r = self.r
        items = list(v[1].items()) if v[0] == "m" else list(enumerate(v[1])) if v[0] == "a" else []
        for k, e in items:
            if e[0] in "ma": self.noise(e, p)
            elif e[0] == "s" and r.random() < p * 3:
                v[1][k] = S(r.choice(NOSHEBANG) + r.choice(["", "\njson.trail.broken = 1;"]))
        if v[0] == "a" and r.random() < p * 3:      # elements with nothing to run in them, before those with
            for _ in range(r.randint(1, 3)):
                v[1].insert(r.choice([0, 0, r.randint(0, len(v[1]))]), r.choice([NULL, ["a", []], ["m", {}], self.distinct(), ["a", [["a", []]]], ["b", False], S("")]))
        if v[0] == "a" and r.random() < p:      # a script that is an element of an array is not under a key
            v[1].append(S("#//!js\njson.trail.broken = 1;"))
