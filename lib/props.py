"""The properties: their statements, and how each of them is decided."""
import scenarios as sc

JOM, PARSE, ABS, JS, GO, CODE, RUN, CLI, MAP, CONST, ERR = ("jom/jom.go", "jom/json_map/json_path_parse.go", "jom/json_map/absolute_paths.go.go",
    "code/js/js.go", "code/go/go.go", "code/code.go", "code/run.go", "json-dom.go", "jom/json_map/json_map.go", "globals/const.go", "globals/error.go")

READ = {"cls", "code", "val", "ord", "nil", "bug", "crash", "hang"}
WRITE = {"cls", "doc", "kind", "frame", "ret", "crash", "hang"}
RUNS = {"named", "once", "missed", "order", "scope", "seen", "doc", "kind", "cls", "code", "after-fail", "crash", "hang"}

PROPS = []


class Prop:
    def __init__(self, id, title, statement, over, text, why, files, mechanism, aspects, gens=(), models=(), special=None, observe=(), state=(), note=""):
        self.__dict__.update(locals())
        PROPS.append(self)

    def jsonl(self):
        return {"id": self.id, "title": self.title, "statement": self.statement, "quantifier": {"over": self.over, "text": self.text},
                "why_tests_cant": self.why, "anchors": {"files": self.files, "state": [{"name": n, "meaning": m, "where": w} for n, m, w in self.state],
                "mechanism": [{"name": n, "where": w} for n, w in self.mechanism], "observe_at": list(self.observe), "hook_needed": None}}


# A generator is (function, arguments, groups in the quick tier, groups in the thorough tier).
# A model is (module, constants for the quick tier, constants for the thorough tier); see lib/models.py.

Prop("C01", "A JSON path selects exactly the values it denotes",
     "A read of a JSON path made of properties, array indices, wildcards and first descents returns exactly the values that the path denotes in the document, once each and in the order of the document: a property of an array selects from those elements which have it, and an array that a path ends at stands for its elements. A path with several indices returns the values of each of them in turn. A path that leads nowhere is an error which names a JSON path problem and returns no values.",
     ["inputs"], "every JSON document and every JSON path text of these keys",
     "The tests read 30 or so fixed paths from a few fixed documents; the values denoted depend on the combination of path and document, of which there is no end.",
     [JOM, PARSE, ABS], [("the walk of an absolute path", "jom/jom.go GetAbsolutePaths"), ("JSON path parser", PARSE)], READ,
     gens=[(sc.reads, dict(kinds="SSSSIIWWMD"), 110, 900), (sc.reads, dict(kinds="SSSSIIWWMD", big=1, per=4, depth=(3,)), 10, 60), (sc.kinds_of_values, dict(ops=("get",)), 400, 1500), (sc.sizes, dict(ops=("get",)), 30, 300)],
     models=["MC_Select"], observe=["JsonPathSelector", "MustGet", "GetAbsolutePaths"])

Prop("C02", "Recursive lookups find every value of a name, at every depth",
     "A recursive lookup (..name) selects the value of every property of that name at any depth below the place where it starts, including that place's own properties and properties within arrays and within other found values, each exactly once, with found arrays standing for their elements. It selects nothing else and nothing (not an error) if the name does not occur.",
     ["inputs"], "every JSON document, every name and every position of the lookup within a path",
     "The tests have a handful of lookups in shallow documents, none with a found value inside another or a name at the starting place.",
     [JOM], [("recursive lookup", "jom/jom.go GetAbsolutePaths")], READ,
     gens=[(sc.reads, dict(kinds="SRRRRWI", must_have="R", depth=(2, 3, 4, 5)), 90, 800), (sc.writes, dict(kinds="SRRW", must_have="R", ops=("set", "del")), 30, 300), (sc.sizes, dict(ops=("get", "get", "set", "del")), 30, 300)],
     models=["MC_Select"], observe=["JsonPathSelector", "MustGet"])

Prop("C03", "Array slices and index sets select exactly their positions",
     "A slice selects the elements from its first position up to but excluding its second, with an open end standing for that end of the array and a negative bound counting from the end; an index set selects exactly its indices. Reading, setting and deleting agree on which elements those are, and a slice of no elements touches nothing. Positions outside of the array are an error, never a crash, and leave the document as it was.",
     ["inputs"], "every array and every pair of slice bounds or set of indices",
     "The tests use four slices of one array; the boundaries (empty slices, the very end, negative and crossed bounds) are not sampled.",
     [JOM, PARSE], [("slices", "jom/jom.go GetAbsolutePaths and SetAbsolutePaths"), ("slice tokens", PARSE)], READ | WRITE,
     gens=[(sc.reads, dict(kinds="SLLLIMM", must_have="LM", wrong=.12), 80, 700), (sc.writes, dict(kinds="SLLLMIW", must_have="LM", ops=("set", "del", "del")), 60, 500), (sc.positions, {}, 900, 7000), (sc.sizes, dict(ops=("get", "set", "del")), 30, 300)],
     models=["MC_Select", "MC_Update"], observe=["JsonPathSelector", "JsonPathSetter", "MustDelete"])

Prop("C04", "Filters select exactly the nodes for which the expression holds",
     "A filter selects the children of the value it is applied to for which its JavaScript expression is truthy with @ as that child, each judged on its own; characters within string literals are not touched, and a JSON path within the expression stands for the value it has in the whole document. Setting and deleting through a filter affects exactly the children which reading through it selects. An expression that fails is an error.",
     ["inputs"], "every document, every filter expression over the current node, other paths and literals, alone and combined with further keys",
     "The tests have six filters over one document; how @, $ paths and literals interact depends on the expression text.",
     [JOM, PARSE], [("filter evaluation", "jom/jom.go filterRunner"), ("filter tokens", PARSE)], READ | WRITE,
     gens=[(sc.reads, dict(kinds="SFFFFWI", must_have="F"), 90, 800), (sc.writes, dict(kinds="SFFFW", must_have="F", ops=("set", "del")), 40, 400),
           (sc.reads, dict(kinds="SSFFF", must_have="F", dollar=.5, wrong=.02), 40, 300), (sc.writes, dict(kinds="SSFF", must_have="F", ops=("set", "del"), dollar=.8, wrong=.02), 90, 600), (sc.sizes, dict(ops=("get", "set", "del")), 30, 300)],
     models=["MC_Select"], observe=["JsonPathSelector", "JsonPathSetter"])

Prop("C05", "The same read of the same document gives the same order",
     "The values of a read come in one fixed order: the paths that an expression stands for from left to right, the elements of arrays by index, and the properties of objects by name. Reading the same document again, or an equal document that was built in another way, gives the same sequence.",
     ["inputs", "schedules"], "every document and path, every internal scheduling and map iteration order",
     "Map iteration and goroutine scheduling differ from run to run; a test compares one run at most, and the existing ones compare sets.",
     [JOM], [("ordered fan-in of the goroutines", "jom/jom.go GetAbsolutePaths"), ("sorted keys", "jom/jom.go sortedKeys")], READ,
     gens=[(sc.reads, dict(kinds="SWWWRRMMDFL", twice=1.0, per=4, depth=(2, 3)), 40, 400), (sc.reads, dict(kinds="SWWRRD", twice=1.0, big=1, per=2), 14, 120), (sc.wide, {}, 14, 120)],
     models=["MC_Fanout"], observe=["JsonPathSelector", "MustGet"])

Prop("C06", "Every node of a read carries the absolute path that leads to it",
     "Each node that a read returns carries a path of its own, and following that path in the same document arrives at exactly the value of the node. The path is the one that was asked for with the position of the node added where an array was unwrapped.",
     ["inputs"], "every document and every JSON path",
     "The tests check the paths of a few nodes by hand.",
     [JOM, ABS], [("paths of the nodes", "jom/jom.go GetAbsolutePaths"), ("adding keys to paths", ABS)], {"abs", "cls", "crash", "bug"},
     gens=[(sc.reads, dict(kinds="SSIIWMDRLF", resolve=1.0), 70, 600), (sc.reads, dict(kinds="SSIIWMDRLF", must=0, getabs=1.0, per=3), 40, 300), (sc.sizes, dict(ops=("resolve",)), 30, 300)],
     models=["MC_Select"], observe=["JsonPathNode.Absolute", "GetAbsolutePaths"])

Prop("C07", "The JSON path language is exactly the documented one",
     "A text is accepted as a JSON path if and only if it is $ followed by keys of the documented forms, and it is then understood as exactly those keys, an index set giving one path for each index. Any other text is rejected with a JSON path error; no text is understood in part, and parsing one text does not influence the parsing of another.",
     ["inputs", "histories"], "every text, parsed after any other texts",
     "The tests parse a dozen well-formed and a few malformed texts.",
     [PARSE, ABS], [("tokeniser and parser", PARSE)], {"cls", "keys", "code", "bug", "crash", "hang"},
     gens=[(sc.parses, {}, 2600, 26000), (sc.addalls, {}, 400, 4000), (sc.reads, dict(kinds="SSIWMDRLF", per=4, wrong=.3), 20, 100), (sc.sizes, dict(ops=("get",)), 30, 300)],
     models=["MC_Parse"], observe=["ParseJsonPath", "JsonPathSelector"])

Prop("C08", "Setting writes the value at exactly the places that the path denotes",
     "After a successful set, every place that the path denotes holds the given value and every other place of the document is as it was; a missing last property is created. Setting null removes the place. Reading the same path afterwards finds the value.",
     ["inputs", "histories"], "every document, path and value, in any sequence of operations",
     "The tests set nine paths in one document; frame conditions over arbitrary documents are not checked.",
     [JOM, ABS], [("the setter", "jom/jom.go SetAbsolutePaths")], READ | WRITE | {"other"},
     gens=[(sc.writes, dict(kinds="SSSIIWWMDRLF"), 130, 1100), (sc.positions, dict(ops=("set",)), 300, 3500), (sc.kinds_of_values, dict(ops=("set",)), 400, 1500), (sc.sizes, dict(ops=("set",)), 30, 300)], models=["MC_Update"], observe=["JsonPathSetter", "MustSet", "SetAbsolutePaths"])

Prop("C09", "Paths with several alternatives compose as a cross product in order",
     "Extending a set of paths with several keys gives every path extended by every key, paths in their order and keys in theirs, and no path influences another. Extending an empty set starts one path for each key.",
     ["inputs", "histories"], "every sequence of extensions",
     "Aliasing between the extended paths shows up only for particular lengths and sequences of extensions; the tests extend a few fixed paths.",
     [ABS], [("adding keys to all paths", ABS)], {"cls", "keys", "val", "ord", "abs", "crash", "bug"},
     gens=[(sc.addalls, {}, 2500, 20000), (sc.reads, dict(kinds="SMMMIW", must_have="M", maxlen=5, depth=(3, 4)), 40, 300)],
     models=["MC_Parse"], observe=["AddToAll", "ParseJsonPath", "JsonPathSelector"])

Prop("C10", "Deleting removes exactly the places that the path denotes",
     "After a successful delete, the places that the path denotes are gone and everything else is as it was, with the remaining elements of an array closing up in their order. Several elements of one array denoted by a wildcard, filter or slice are all removed, none skipped; index sets and lists of paths are applied one path after the other. A path that leads nowhere is an error and the document stays as it was.",
     ["inputs", "histories"], "every document and path, in any sequence of operations",
     "The tests delete at four paths.",
     [JOM], [("the setter without a value", "jom/jom.go SetAbsolutePaths, MustDelete")], READ | WRITE | {"other"},
     gens=[(sc.writes, dict(kinds="SSSIIWWMDRLLFF", ops=("del", "del", "del", "set"), must=.4), 130, 1100), (sc.positions, dict(ops=("del",)), 600, 3500), (sc.kinds_of_values, dict(ops=("del",)), 300, 1500), (sc.sizes, dict(ops=("del",)), 30, 300)], models=["MC_Update"], observe=["MustDelete", "JsonPathSetter"])

Prop("C11", "A failing multi-path operation is reported and confined",
     "When one of several paths of an operation cannot be followed, the operation reports an error and a read returns no values at all. A set or delete has then applied the paths before the failing one, none after it, and of the failing path nothing outside the part of the document that it leads through.",
     ["inputs", "fault_sequences"], "every document and every list of paths of which any may fail",
     "The tests have single failing paths only.",
     [JOM], [("errors of several paths", "jom/jom.go GetAbsolutePaths and SetAbsolutePaths")], READ | WRITE | {"other", "pure"},
     gens=[(sc.multi, {}, 150, 1300)], models=["MC_Update"], observe=["GetAbsolutePaths", "SetAbsolutePaths"])

Prop("C12", "Pushing inserts the value at the given positions",
     "A push makes an array of the values that the path denotes in which the given value is at each of the given positions (at the end if none is given) and the other values keep their order around it, with null at positions in between that nothing is at, and sets it at the places of the path. Each place gets an array of its own.",
     ["inputs"], "every document, path, value and list of positions, repeated and unordered ones included",
     "The tests push at four places with in-range ascending positions.",
     [JOM], [("push", "jom/jom.go MustPush")], WRITE | {"other", "bug"},
     gens=[(sc.writes, dict(kinds="SSSIIWMDRL", ops=("push",), depth=(2, 3)), 120, 1000), (sc.writes, dict(kinds="SSSSI", ops=("push", "push", "pop"), per=5, wrong=.02), 60, 500), (sc.insertions, dict(op="push"), 300, 2000), (sc.kinds_of_values, dict(ops=("push",)), 300, 1500), (sc.sizes, dict(ops=("push",)), 30, 300)],
     models=["MC_Update"], observe=["MustPush"])

Prop("C13", "Popping removes and returns the values at the given positions",
     "A pop returns the values at the given positions of what the path denotes (the first if none is given), once each and in order, ignores positions that do not exist, and leaves the others in their order. What is returned and what is left together are what was there, and a pop at the positions of a push undoes it.",
     ["inputs", "histories"], "every document, path and list of positions, repeated, unordered and negative ones included",
     "The tests pop five times with in-range ascending positions.",
     [JOM], [("pop", "jom/jom.go MustPop")], WRITE | {"other", "bug"},
     gens=[(sc.writes, dict(kinds="SSSIIWMDRL", ops=("pop",), depth=(2, 3)), 120, 1000), (sc.writes, dict(kinds="SSSSI", ops=("push", "pop", "pop"), per=5, wrong=.02), 60, 500), (sc.insertions, dict(op="pop"), 300, 2000), (sc.kinds_of_values, dict(ops=("pop",)), 300, 1500), (sc.sizes, dict(ops=("pop",)), 30, 300)],
     models=["MC_Update"], observe=["MustPop"])

Prop("C14", "Reading never changes a document",
     "Reads through any path, searches for scripts and conversions to text leave every document exactly as it was, whether they succeed or fail, and the same read gives the same answer again.",
     ["inputs", "histories"], "every document (with scripts or without), every path and every reading operation, in any order",
     "No test compares the document before and after a read.",
     [JOM], [("reads share the values of the document", "jom/jom.go GetAbsolutePaths"), ("script search", "jom/jom.go FindScriptFields")], READ | {"pure", "other", "out", "doc", "kind"},
     gens=[(sc.pure, {}, 130, 1100), (sc.kinds_of_values, dict(ops=("get",)), 300, 1500), (sc.sizes, dict(ops=("get", "resolve", "find", "marshal", "string")), 30, 300)], models=["MC_Doc"], observe=["JsonPathSelector", "MustGet", "FindScriptFields", "Marshal", "String"])

Prop("C15", "Documents and the values given to them are independent of each other",
     "A clone has the same content and kind of root as its original, and afterwards no operation on either is visible in the other; a clearing clone is empty with the same kind of root. A value that was set or pushed at several places is a separate copy at each of them and is separate from the value that the caller keeps.",
     ["inputs", "histories"], "every document and every history of operations on the document, its clones, and the values given to it",
     "Sharing shows only after later changes in place; the tests never change a clone or a value they have set.",
     [JOM], [("deep copies", "jom/jom.go Clone, copyValue, SetAbsolutePaths")], WRITE | {"other", "pure"},
     gens=[(sc.independent, {}, 140, 1200), (sc.sizes, dict(ops=("clone", "set", "push", "del")), 30, 300)], models=["MC_Doc"], observe=["Clone", "JsonPathSetter", "MustSet", "MustPush"])

Prop("C16", "A search for scripts finds them wherever they are",
     "Searching a document for scripts reports that there are some exactly if some property of an object anywhere in it, within nested objects and arrays included, is a script in a supported language or a callback. The answer does not depend on earlier searches, runs or strips of the document, and an unsupported language anywhere is an error.",
     ["inputs", "histories"], "every document and every history of searches, runs and strips",
     "The tests have one call of it on a new document.",
     [JOM, CODE], [("script search", "jom/jom.go FindScriptFields")], {"cls", "out", "pure", "doc", "missed", "once", "crash", "bug"},
     gens=[(sc.finds, {}, 140, 1200), (sc.large_runs, dict(op="find"), 50, 300)], models=["MC_Doc"], observe=["FindScriptFields"])

Prop("C17", "A document with an array at its root keeps being one",
     "Text with an array at its root becomes a document whose elements are kept in order under the property array, and turns back into text with an array at its root. Cloning, running, stripping and evaluating keep the kind of root, and loading other text into the document takes on the kind of the new text.",
     ["inputs", "histories"], "every document of either kind of root and every history of operations",
     "One example file has an array root; it goes through evaluation once.",
     [JOM, JS], [("Array field", "jom/jom.go Unmarshal, Marshal, Clone")], WRITE | {"out", "other"} | READ | RUNS,
     gens=[(sc.arrays, {}, 130, 1100)], models=["MC_Doc"], observe=["Unmarshal", "Marshal", "String", "Clone", "Eval"])

Prop("C18", "Loading text makes the document exactly what the text says",
     "After JSON or Hjson text was loaded into a document, the document is exactly the value of the text, with nothing left of what it held before. Text that cannot be parsed is reported as an error and leaves the document as it was.",
     ["inputs", "histories"], "every text, loaded into a document of any content any number of times",
     "The tests load into new documents only.",
     [JOM], [("loading", "jom/jom.go Unmarshal")], WRITE | {"out", "other"},
     gens=[(sc.loads, {}, 180, 1500), (sc.sizes, dict(ops=("load",)), 30, 300)], models=["MC_Doc"], observe=["Unmarshal", "Marshal"])

Prop("C19", "Converting to text and back loses nothing",
     "The JSON text and the Hjson text of a document parse back to exactly the content of the document, for every kind of value, name and nesting. A document that has no JSON text, because it holds a callback, is reported as an error.",
     ["inputs"], "every document",
     "The tests marshal ten example documents.",
     [JOM], [("conversion to text", "jom/jom.go Marshal, String")], {"out", "cls", "pure", "doc", "kind", "crash", "bug"},
     gens=[(sc.texts, {}, 200, 1700), (sc.carriage_returns, {}, 2, 2), (sc.sizes, dict(ops=("load", "marshal", "string")), 30, 300)], models=["MC_Doc"], observe=["Marshal", "String"])

Prop("C20", "Every script runs exactly once and is then gone",
     "A run executes every script that a scope holds when the scope is reached exactly once, wherever in the document the scope is, and removes it; afterwards the document holds none of them. Scripts in scopes which a script added below its own scope run too, those in scopes it removed do not, and a second run executes nothing again.",
     ["inputs", "programs", "histories"], "every document with scripts of any number, position, name and effect",
     "The tests run ten example documents and compare the final text.",
     [JOM, CODE, RUN], [("the run", "jom/jom.go Run"), ("script search", "jom/jom.go FindScriptFields")], RUNS | {"other"},
     gens=[(sc.runs, {}, 150, 1300), (sc.large_runs, dict(), 24, 160)], models=["MC_Scripts"], observe=["Run", "Eval"])

Prop("C21", "Scripts run from the outside in, and by name within a scope",
     "The scripts of a scope run one after the other in the lexicographic order of their names, and all of them have finished before any script of a scope nested in it starts; what a script of an outer scope writes is what the inner ones see.",
     ["inputs", "programs"], "every document with scripts of any number, depth and names",
     "One example has five scripts with one-letter names.",
     [JOM], [("priority queue by name", "jom/jom.go Run"), ("traversal", "jom/jom.go traverse")], RUNS,
     gens=[(sc.runs, dict(kinds=[["set", "copy", "count"], ["replace", "setscript", "count"], ["set", "push", "pset"]], p=(.6, .9), most=(6, 8)), 130, 1100), (sc.large_runs, dict(), 24, 160)],
     models=["MC_Scripts"], observe=["Run", "Eval"])

Prop("C22", "A script sees and changes its own scope only",
     "A script sees exactly the object that holds it as its document, and the path of that scope as its scope path. When it ends, that object is what the script left (without the script itself) and everything outside of the object is as it was.",
     ["inputs", "programs"], "every document, every nesting of scopes within objects and arrays, every script",
     "Two examples have nested scopes.",
     [JOM, JS, GO], [("scopes of a run", "jom/jom.go Run"), ("scope in and out of the VM", "code/js/js.go createJom, deJomIfy")], RUNS | {"other", "attr"},
     gens=[(sc.runs, dict(kinds=[["set", "scope", "trail", "del"], ["pset", "pget", "pdel", "scope"], ["leak", "set", "scope"]], arrays=.35, odd=.2), 150, 1300), (sc.deep_scopes, {}, 60, 400), (sc.large_runs, dict(), 24, 160)],
     models=["MC_Scripts"], observe=["Run", "json.trail", "json.scopePath", "GetCurrentScopePath"])

Prop("C23", "Scripts can restructure what is below them",
     "When a script replaces, adds or removes nested objects and arrays, scripts among them, the run goes on with the new structure: scripts that are no longer there do not run, new ones below the scope do, with the scope and path that they have in the new structure. The final document is the one that results from these effects in order.",
     ["inputs", "programs"], "every document with scripts that change the structure below their scope",
     "One example deletes a script; none adds or replaces nested scopes.",
     [JOM], [("the run descends after the scripts of a scope", "jom/jom.go Run")], RUNS,
     gens=[(sc.runs, dict(kinds=[["setscript", "replace", "delany"], ["setscript", "setscript", "trail"], ["replace", "pset", "pdel", "setscript"]], p=(.5, .9)), 150, 1300), (sc.large_runs, dict(kinds=("setscript", "replace", "set", "delany")), 24, 160)],
     models=["MC_Scripts"], observe=["Run", "Eval"])

Prop("C24", "Exactly the strings with a shebang line are scripts",
     "A property is a script exactly if its value is a string whose first line is the shebang prefix followed by the two letters of a supported language and nothing else, or a callback. Two other letters in the place of the language are an error for the whole operation; every other string, however similar, is data and stays as it is.",
     ["inputs"], "every string as the value of any property or array element",
     "The tests have one unsupported language and a few scripts.",
     [CODE, CONST, JOM], [("shebang recognition", "code/code.go NewFrom")], RUNS | {"out", "pure"},
     gens=[(sc.shebangs, {}, 200, 1700)], models=["MC_Shebang"], observe=["FindScriptFields", "Run", "Strip"])

Prop("C25", "Stripping removes all scripts and nothing else",
     "After stripping, the document is what it was without any of its scripts and callbacks, those in nested objects and arrays included; no other property, element or string is changed and nothing is executed. Stripping again changes nothing, and an unsupported language is an error that leaves the document as it was.",
     ["inputs", "histories"], "every document with scripts anywhere in it",
     "No test strips a document with nested scripts.",
     [JOM], [("strip", "jom/jom.go Strip")], WRITE | RUNS | {"out", "other", "pure"},
     gens=[(sc.strips, {}, 190, 1600), (sc.large_runs, dict(op="strip"), 20, 200)], models=["MC_Doc"], observe=["Strip", "json-dom markup -strip"])

Prop("C26", "Marking up puts a runnable script at exactly the denoted places",
     "Marking up a path with a source text sets, at exactly the places that the path denotes, the shebang line of the language followed by the source, which a run then executes as that source. An unsupported language or a path that leads nowhere is an error, and then nothing is marked up.",
     ["inputs"], "every document, path, language and source text",
     "The tests mark up two paths.",
     [JOM, CODE], [("markup", "jom/jom.go MarkupCode")], WRITE | RUNS | {"out", "other"},
     gens=[(sc.markups, {}, 180, 1500), (sc.sizes, dict(ops=("markup",)), 30, 300)], models=["MC_Doc"], observe=["MarkupCode", "json-dom markup"])

Prop("C27", "Values cross between documents and JavaScript unchanged",
     "Every value that a JavaScript script reads, from its document or through a JSON path, is the value in the document, and every value that it writes, directly or through a JSON path, arrives in the document as the JSON value that JavaScript would stringify it to. Values that have no JSON text leave no property. Arrays and objects that a script reads are Arrays and Objects of that script, and nothing that they lead to is outside of the limits under which the script runs.",
     ["inputs", "programs"], "every value on either side and every way to transfer it",
     "The tests transfer a few strings, numbers and objects.",
     [JS], [("VM values from and to JSON", "code/js/js.go createJom, deJomIfy, jsonPathSelector")], RUNS,
     gens=[(sc.bridge, {}, 170, 1500), (sc.bridge_matrix, {}, 150, 150), (sc.large_runs, dict(kinds=("copy", "pget", "pset", "set")), 12, 120)], models=["MC_Bridge"], observe=["json.trail", "getValues", "setValues"])

Prop("C28", "Go callbacks and JavaScript scripts with the same effect are equivalent",
     "A document in which every script is a Go callback and one in which every script is JavaScript of the same effect run alike: the same scripts in the same order of scopes and names with the same view of their scopes, and the same final document. Both kinds in one document follow the same rules. A callback that panics ends the run with that panic.",
     ["programs"], "every document and every effect that can be written in both languages",
     "The tests have two documents with callbacks.",
     [GO, JS, JOM], [("callbacks", "code/go/go.go RunCallback"), ("the run", "jom/jom.go Run")], RUNS,
     gens=[(sc.equivalents, {}, 90, 800), (sc.mixed, {}, 60, 500), (sc.callbacks, {}, 90, 800), (sc.large_runs, dict(), 24, 160)], models=["MC_Scripts"], observe=["Run"])

Prop("C29", "Console output arrives whole and with the scope it came from",
     "Each call of console.log and console.error writes exactly its arguments to standard output or standard error, respectively, in the order of the calls, every line indented, under a header with the path of the scope that the calling script ran in.",
     ["inputs", "programs"], "every script with console calls, in every scope",
     "The tests compare a few fixed outputs.",
     [JS], [("console", "code/js/js.go composePrint")], {"log", "attr", "once", "missed", "order", "scope", "cls", "crash"},
     gens=[(sc.logs, {}, 150, 1300)], models=["MC_Scripts"], observe=["console.log", "console.error"])

Prop("C30", "Scripts that do not end are stopped, others are not",
     "A script or callback that runs longer than the halting delay makes the run fail with the halting error, not before the delay and soon after it. Anything that ends within the delay completes normally, however long the run as a whole takes, and later runs are not affected by earlier ones.",
     ["programs", "schedules", "histories"], "every script and callback, ending or not, in any scope and after any other runs",
     "One example has an endless loop at the root.",
     [JS, GO], [("interrupt after the halting delay", "code/js/js.go RunScript, code/go/go.go RunCallback")], RUNS | {"early", "late"},
     gens=[(sc.halting, {}, 1, 3)], models=["MC_Halting"], special="parallel", observe=["Run", "Eval"])

Prop("C31", "Evaluation is all or nothing, and reports what failed",
     "Evaluating a text gives the text of the document after all its scripts have run, or an error and no text at all. A script that throws, cannot be parsed, recurses without end or uses an unsupported language makes the evaluation fail with the error code of that kind and a report that names the scope of the script, whichever scope it is in, without executing any further script that depends on it and without bringing down the process.",
     ["inputs", "programs", "fault_sequences"], "every document with scripts of which any may fail in any way",
     "The tests have two failing examples.",
     [JOM, JS, ERR], [("evaluation", "jom/jom.go Eval"), ("script errors", "code/js/js.go RunScript")], RUNS | {"partial", "out", "other", "bug"},
     gens=[(sc.failures, {}, 130, 1100), (sc.failure_matrix, {}, 1, 1), (sc.runs, dict(langs=("js",), evals=1.0, codes=[-5]), 50, 400), (sc.bad_evals, {}, 10, 20)], models=["MC_Scripts"], observe=["Eval", "Run"])

Prop("C32", "Independent documents can be used concurrently",
     "Operations on different documents from different goroutines, runs of scripts included, give exactly the results they give one after the other, and so do concurrent reads of one document. There are no data races.",
     ["schedules"], "every schedule of operations on separate documents and of reads of a shared one",
     "No test uses two goroutines.",
     [JOM, JS, PARSE], [("no state is shared between documents", "code/js/js.go, jom/json_map/json_path_parse.go")], RUNS | READ | WRITE | {"race", "keys", "out", "attr", "log", "abs", "other", "pure"},
     gens=[(sc.concurrent, {}, 16, 48)], models=["MC_Fanout"], special="race", observe=["all operations"])

Prop("C33", "Nothing keeps running after an operation is over",
     "Once an operation has returned and the halting delay has passed, no goroutine that it started is left, whether the operation succeeded, failed, or was a run of many scripts and callbacks. Only a callback that itself never returns remains.",
     ["histories", "schedules"], "every history of operations",
     "No test counts goroutines.",
     [GO, JS, JOM], [("buffered interrupt channels", "code/go/go.go RunCallback, code/js/js.go RunScript"), ("filter timers", "jom/jom.go filterRunner")], {"leak"},
     gens=[(sc.leaks, {}, 8, 24)], models=["MC_Halting"], observe=["runtime.NumGoroutine"])

Prop("C34", "The eval command prints the evaluation of each input in order",
     "The eval command prints the evaluated text of each given file, or of the given input, in the order given and exits with 0. The first input that fails ends it with the exit code of its kind of failure: a missing file before anything is printed, a failed evaluation after the inputs before it, and no input at all is a missing flag.",
     ["inputs", "configurations"], "every combination of flags and inputs",
     "No test runs the command.",
     [CLI, ERR], [("command line", CLI)], {"exit", "out", "crash", "hang"},
     gens=[(sc.cli_eval, {}, 140, 600)], models=["MC_Cli"], special="cli", observe=["json-dom eval"])

Prop("C35", "The markup command marks up, strips and evaluates as asked",
     "The markup command strips the scripts of each input if asked to, marks up every given path in the order given, and prints the resulting document, or its evaluation if asked to. Bad flags, unreadable input, an unsupported language and paths that lead nowhere end it with the exit code of their kind and nothing printed for that input.",
     ["inputs", "configurations"], "every combination of flags and inputs",
     "No test runs the command.",
     [CLI, JOM], [("command line", CLI)], {"exit", "out", "crash", "hang"},
     gens=[(sc.cli_markup, {}, 170, 600)], models=["MC_Cli"], special="cli", observe=["json-dom markup"])

Prop("C36", "Filters that do not end are stopped, others are not",
     "A filter expression that does not end for some node makes the read or write fail after the halting delay instead of hanging, and endless recursion in it fails instead of bringing down the process; the document stays as it was. Each node has the whole delay to itself, so a read whose filter ends for every node succeeds however long all of it takes, and later reads are not affected.",
     ["inputs", "schedules", "histories"], "every filter expression and document, after any other reads",
     "No test has a filter that does not end.",
     [JOM], [("interrupt after the halting delay", "jom/jom.go filterRunner")], READ | WRITE | {"early", "late", "pure"},
     gens=[(sc.filter_halting, {}, 1, 3)], models=["MC_Halting"], special="parallel", observe=["JsonPathSelector", "JsonPathSetter"])

Prop("C37", "The panicking operations panic exactly when the others return an error",
     "For every document, path and value, MustGet, MustSet and MustDelete panic with the error that the error-returning form gives if that form fails, and otherwise do and return the same: the values of the nodes in the same order, nothing at all for no nodes, and the same document afterwards. MustPush and MustPop panic with the error of the read or of the write that they consist of.",
     ["inputs"], "every document, path and value",
     "The tests call the two forms on different inputs, and the panicking ones on inputs that succeed.",
     [JOM], [("panicking forms", "jom/jom.go MustGet, MustSet, MustDelete, MustPush, MustPop")], READ | WRITE,
     gens=[(sc.musts, {}, 90, 800), (sc.kinds_of_values, dict(both=True), 700, 6000), (sc.sizes, dict(ops=("get", "set", "del", "push", "pop"), both=True), 30, 300)], models=["MC_Select", "MC_Update"], observe=["MustGet", "MustSet", "MustDelete", "MustPush", "MustPop"])

BY_ID = {p.id: p for p in PROPS}
