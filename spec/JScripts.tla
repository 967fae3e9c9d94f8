------------------------------ MODULE JScripts ----------------------------
(* Running the scripts of a document.                                        *)
(*                                                                          *)
(* A script is a string that starts with a shebang line, or a Go callback,   *)
(* under a key of an object. st is the table of what the scripts in use do:  *)
(* the script (its whole text, or "f:" and the identity of a callback)       *)
(* mapped to [id |-> name, ops |-> sequence of operations].                   *)
EXTENDS JUpdate

Prefix == "#//!"
FirstLine(s) == LET RECURSIVE E(_)
                    E(i) == IF i > Len(s) \/ Ch(s, i) = "\n" THEN i - 1 ELSE E(i + 1)
                IN SubSeq(s, 1, E(1))
(* "no": not a script, "js", "go": a supported language, "bad": an unsupported one *)
Shebang(s) ==
    IF Len(s) < 6 \/ (Len(s) > 6 /\ Ch(s, 7) # "\n") THEN "no"
    ELSE LET l == FirstLine(s) IN
         IF Len(l) # 6 \/ SubSeq(l, 1, 4) # Prefix THEN "no"
         ELSE LET lang == SubSeq(l, 5, 6) IN IF lang = "js" \/ lang = "go" THEN lang ELSE "bad"
LangOf(v) == IF v[1] = "f" THEN "callback" ELSE IF v[1] = "s" THEN Shebang(v[2]) ELSE "no"
IsScript(v) == LangOf(v) \in {"js", "go", "callback"}
TableKey(v) == IF v[1] = "f" THEN "f:" \o v[2] ELSE v[2]

RECURSIVE BadBelow(_), Stripped(_)
\* an unsupported script somewhere in v
BadBelow(v) == CASE IsMap(v) -> \E k \in Keys(v) : LangOf(At(v, k)) = "bad" \/ BadBelow(At(v, k))
                 [] IsArr(v) -> \E i \in 1 .. Len(v[2]) : BadBelow(v[2][i])
                 [] OTHER -> FALSE
RECURSIVE HasScript(_)
HasScript(v) == CASE IsMap(v) -> \E k \in Keys(v) : IsScript(At(v, k)) \/ HasScript(At(v, k))
                  [] IsArr(v) -> \E i \in 1 .. Len(v[2]) : HasScript(v[2][i])
                  [] OTHER -> FALSE
\* v without any of its scripts
Stripped(v) == CASE IsMap(v) -> LET keep == {k \in Keys(v) : ~IsScript(At(v, k))} IN
                                IF keep = {} THEN Map(NoKeys) ELSE Map([k \in keep |-> Stripped(At(v, k))])
                 [] IsArr(v) -> Arr([i \in 1 .. Len(v[2]) |-> Stripped(v[2][i])])
                 [] OTHER -> v

(* ----------------------------------------------------------- one script --- *)
RECURSIVE PlaceText(_)
PlaceText(p) == IF p = <<>> THEN "" ELSE
                (IF p[1][1] = "S" THEN "." \o p[1][2] ELSE ".[" \o ToString(p[1][2]) \o "]") \o PlaceText(Tail(p))
ScopeText(place) == "$" \o PlaceText(place)

(* the outcome of a script: class "ok", "fail" (with the code of the error) or "unspec" *)
Outcome(s, class, code) == [s |-> s, class |-> class, code |-> code]

(* what a script writes to the console: the stream and the lines *)
Shown(v) == CASE v[1] = "s" -> v[2] [] v[1] = "n" -> ToString(v[2]) [] v[1] = "d" -> v[2]
              [] v[1] = "b" -> IF v[2] THEN "true" ELSE "false"
              [] OTHER -> "undefined"
RECURSIVE ShownAll(_)
ShownAll(vs) == IF vs = <<>> THEN "" ELSE Shown(vs[1]) \o (IF Len(vs) = 1 THEN "" ELSE " " \o ShownAll(Tail(vs)))
SplitLines(s) == LET ends == SetToSortSeq({i \in 1 .. Len(s) : Ch(s, i) = "\n"}, LAMBDA i, j : i < j)
                     b    == <<0>> \o ends \o <<Len(s) + 1>>
                 IN [i \in 1 .. Len(ends) + 1 |-> SubSeq(s, b[i] + 1, b[i + 1] - 1)]
Logged(op, hdr) == [stream |-> op[2], lines |-> SplitLines(ShownAll(op[3])), scope |-> hdr]

(* what json.jsonPathSelector(path).getValues() gives a JS script: a single   *)
(* node that is an array is expanded                                         *)
GotValues(nodes, lang) ==
    LET vs == ValuesOf(nodes) IN
    IF lang = "js" /\ Len(vs) = 1 /\ IsArr(vs[1]) THEN vs[1] ELSE Arr(vs)

(* what kind of value a value is: the kinds of JSON, which are those of the     *)
(* language that looks (an array is an Array of the script, an object an Object) *)
KindOf(v) == CASE IsArr(v) -> "array" [] IsMap(v) -> "object" [] v[1] = "s" -> "string" [] v[1] \in {"n", "d"} -> "number"
               [] v[1] = "b" -> "boolean" [] v = Null -> "null" [] OTHER -> "callback"
KindsOf(vs) == Arr([i \in 1 .. Len(vs) |-> Str(KindOf(vs[i]))])

(* what the _absolutePaths of a node set show of a key *)
KeyNames == [S |-> <<0, "StringKey">>, I |-> <<1, "IndexKey">>, W |-> <<2, "Wildcard">>, F |-> <<3, "Filter">>,
             D |-> <<4, "First">>, L |-> <<5, "Slice">>, E |-> <<6, "StartEnd">>, R |-> <<7, "RecursiveLookup">>]
RECURSIVE KeyShown(_, _)
KeyShown(k, inner) ==
    LET type == [typeId |-> Num(KeyNames[k[1]][1]), typeName |-> Str(KeyNames[k[1]][2])]
        Bnd(b) == KeyShown(IF b = OpenEnd THEN <<"E", "">> ELSE <<"I", b[2]>>, TRUE)
        Keyed(v) == Map("key" :> v @@ type) IN
    CASE k[1] \in {"S", "F", "R"} -> Keyed(Str(k[2]))
      [] k[1] = "I" -> Keyed(Num(k[2]))
      [] k[1] = "L" -> Keyed(Arr(<<Bnd(k[2]), Bnd(k[3])>>))
      [] OTHER -> IF inner THEN Keyed(Null) ELSE Map(type)
PathsShown(ps) == Arr([i \in 1 .. Len(ps) |-> Arr([j \in 1 .. Len(ps[i]) |-> KeyShown(ps[i][j], FALSE)])])

(* What a script knows besides its scope: the node sets that it has selected    *)
(* (a node set is the path: it is followed when it is used), and the scope path  *)
(* as far as the script has overridden it.                                      *)
Fresh(place) == [sets |-> <<>>, hdr |-> ScopeText(place)]
Known(op, env) ==
    CASE op[1] = "sel" -> [env EXCEPT !.sets = Append(@, <<op[2], op[3]>>)]
      [] op[1] = "rescope" -> [env EXCEPT !.hdr = IF op[2][1] = "s" THEN op[2][2] ELSE "!"]
      [] OTHER -> env
SetOf(name, env) == LET i == {j \in DOMAIN env.sets : env.sets[j][1] = name} IN
                    IF i = {} THEN "" ELSE env.sets[CHOOSE j \in i : \A o \in i : o <= j][2]

AnyCode == 2                        \* of an error whose code is left open
Overridden == -4
Setting(s, path, val, ft, throw) ==
    LET r == SetAll(s, path, val, ft) IN
    IF r.class = "ok" THEN Outcome(r.root, "ok", 0) ELSE Outcome(s, IF r.class = "err" THEN "fail" ELSE "unspec", throw)
Getting(s, path, key, lang, ft, throw) ==
    LET g == GetAll(s, path, ft) IN
    IF g[1] = "err" THEN Outcome(s, "fail", throw)
    ELSE IF g[1] = "unspec" THEN Outcome(s, "unspec", 0)
    ELSE Outcome(Put(s, key, GotValues(g[2], lang)), "ok", 0)
GettingKinds(s, path, key, lang, ft, throw) ==
    LET g == Getting(s, path, key, lang, ft, throw) IN
    IF g.class = "ok" THEN Outcome(Put(s, key, KindsOf(At(g.s, key)[2])), "ok", 0) ELSE g

RECURSIVE Effect(_, _, _, _, _, _)
Effect(op, s, env, place, lang, ft) ==
    LET throw == IF lang = "js" THEN -5 ELSE -6 IN
    CASE op[1] = "set"   -> Outcome(Put(s, op[2], op[3]), "ok", 0)
      [] op[1] = "del"   -> Outcome(Drop(s, {op[2]}), "ok", 0)
      [] op[1] = "pset"  -> Setting(s, op[2], op[3], ft, throw)
      [] op[1] = "psetx" -> Setting(s, op[2], IF op[3] = Null THEN Delete ELSE op[3], ft, throw)      \* op[4]: JavaScript that means the value op[3]
      [] op[1] = "pdel"  -> Setting(s, op[2], Delete, ft, throw)
      [] op[1] = "pget"  -> Getting(s, op[2], op[3], lang, ft, throw)
      [] op[1] = "sel"   -> IF Parse(op[3]) = BadPath THEN Outcome(s, "fail", throw) ELSE Outcome(s, "ok", 0)
      [] op[1] \in {"nget", "nset", "npaths"} /\ SetOf(op[2], env) = "" -> Outcome(s, "unspec", 0)
      [] op[1] = "nget"  -> Getting(s, SetOf(op[2], env), op[3], lang, ft, throw)
      [] op[1] = "nset"  -> Setting(s, SetOf(op[2], env), op[3], ft, throw)
      [] op[1] = "npaths"-> Outcome(Put(s, op[3], PathsShown(Parse(SetOf(op[2], env))[2])), "ok", 0)
      [] op[1] = "try"   -> LET r == Effect(op[3], s, env, place, lang, ft) IN     \* an error that the script catches
                            IF r.class = "fail" THEN Outcome(Put(s, op[2], Str("JSONPathError")), "ok", 0) ELSE r
      [] op[1] = "push"  -> IF Has(s, op[2]) /\ IsArr(At(s, op[2])) /\ Len(At(s, op[2])[2]) > 0
                            THEN Outcome(Put(s, op[2], Arr(Append(At(s, op[2])[2], op[3]))), "ok", 0)
                            ELSE Outcome(s, "unspec", 0)
      [] op[1] = "scope" -> IF env.hdr = "!" THEN Outcome(s, "unspec", 0) ELSE Outcome(Put(s, op[2], Str(env.hdr)), "ok", 0)
      [] op[1] = "count" -> Outcome(Put(s, op[2], Num(Cardinality(Keys(s)))), "ok", 0)
      [] op[1] = "copy"  -> IF Has(s, op[2]) THEN Outcome(Put(s, op[3], At(s, op[2])), "ok", 0)
                            ELSE Outcome(s, "ok", 0)
      [] op[1] = "kind"  -> IF Has(s, op[2]) THEN Outcome(Put(s, op[3], Str(KindOf(At(s, op[2])))), "ok", 0) ELSE Outcome(s, "ok", 0)
      [] op[1] = "kinds" -> GettingKinds(s, op[2], op[3], lang, ft, throw)
      [] op[1] = "expr"  -> Outcome(Put(s, op[2], op[3]), "ok", 0)         \* op[4]: JavaScript that means the value op[3]
      [] op[1] = "undef" -> Outcome(Drop(s, {op[2]}), "ok", 0)             \* op[3]: JavaScript that no JSON value stands for
      [] op[1] = "trail" -> Outcome(op[2], "ok", 0)                        \* another object in the place of the scope
      [] op[1] = "badtrail" -> Outcome(s, "fail", AnyCode)                 \* something that is no object in its place (last)
      [] op[1] = "leak"  -> Outcome(Put(s, op[3], Bool(FALSE)), "ok", 0)   \* nothing of another script is visible
      [] op[1] = "log"   -> IF env.hdr = "!" THEN Outcome(s, "fail", Overridden) ELSE Outcome(s, "ok", 0)
      [] op[1] = "rescope" -> Outcome(s, "ok", 0)                          \* the script overrides its scope path
      [] op[1] = "throw" -> Outcome(s, "fail", IF lang = "js" THEN -5 ELSE 0)
      [] op[1] \in {"loop", "long"} -> Outcome(s, "fail", -1)     \* longer than the halting delay
      [] op[1] = "sleep" -> Outcome(s, "ok", 0)                   \* shorter than the halting delay
      \* what callbacks can do besides
      [] op[1] = "gpush" -> LET r == PushAll(s, op[2], op[3], op[4], ft) IN
                            IF r.class = "ok" THEN Outcome(r.root, "ok", 0) ELSE Outcome(s, IF r.class = "err" THEN "fail" ELSE "unspec", AnyCode)
      [] op[1] = "gpop"  -> LET r == PopAll(s, op[2], op[3], ft) IN
                            IF r.class = "ok" THEN Outcome(Put(r.root, op[4], Arr(r.ret)), "ok", 0)
                            ELSE Outcome(s, IF r.class = "err" THEN "fail" ELSE "unspec", AnyCode)
      [] op[1] = "gfind" -> IF BadBelow(s) THEN Outcome(s, "fail", -2) ELSE Outcome(Put(s, op[2], Bool(HasScript(s))), "ok", 0)
      [] op[1] = "gstrip"-> IF BadBelow(s) THEN Outcome(s, "fail", -2) ELSE Outcome(Stripped(s), "ok", 0)
      [] op[1] = "gmark" -> Setting(s, op[2], Str(Prefix \o op[3] \o "\n" \o op[4]), ft, throw)
      [] op[1] = "gload" -> Outcome(op[2], "ok", 0)
      [] OTHER -> Outcome(s, "unspec", 0)

RECURSIVE EffectsFrom(_, _, _, _, _, _, _)
EffectsFrom(ops, i, s, env, place, lang, ft) ==
    IF i > Len(ops) THEN Outcome(s, "ok", 0)
    ELSE LET r == Effect(ops[i], s, env, place, lang, ft) IN
         IF r.class # "ok" THEN r ELSE EffectsFrom(ops, i + 1, r.s, Known(ops[i], env), place, lang, ft)
Effects(ops, s, place, lang, ft) == EffectsFrom(ops, 1, s, Fresh(place), place, lang, ft)

(* the console output of a script, up to where it fails *)
RECURSIVE LogsFrom(_, _, _, _, _, _)
LogsFrom(ops, i, s, env, place, ft) ==
    IF i > Len(ops) THEN <<>>
    ELSE LET r == Effect(ops[i], s, env, place, "js", ft) IN
         (IF ops[i][1] = "log" /\ r.class = "ok" THEN <<Logged(ops[i], env.hdr)>> ELSE <<>>)
         \o (IF r.class # "ok" THEN <<>> ELSE LogsFrom(ops, i + 1, r.s, Known(ops[i], env), place, ft))
Logs(ops, s, place, ft) == LogsFrom(ops, 1, s, Fresh(place), place, ft)

(* the scope after the script stored under key (its original value is src) ran in it *)
RunOne(s, key, src, place, ft, st) ==
    LET lang == LangOf(src) IN
    IF lang = "go" THEN Outcome(s, "fail", -5)              \* Go source cannot be run
    ELSE IF lang = "js" /\ HasCallback(s) THEN Outcome(s, "fail", -3)
    ELSE IF TableKey(src) \notin DOMAIN st THEN Outcome(s, "unspec", 0)
    ELSE LET r == Effects(st[TableKey(src)].ops, s, place, IF lang = "js" THEN "js" ELSE "go", ft) IN
         IF r.class = "ok" THEN Outcome(Drop(r.s, {key}), "ok", 0) ELSE r

(* ------------------------------------------------------------ all of them --- *)
(* pending: the scopes whose scripts are still to run: place -> sequence of     *)
(* <<key, script>> in the order in which they have to run.                      *)
Queue(m) == LET ks == SortKeys({k \in Keys(m) : IsScript(At(m, k))}) IN
            TLCEval([i \in 1 .. Len(ks) |-> <<ks[i], At(m, ks[i])>>])
RECURSIVE Opened(_, _)
\* v at place has become final as far as the scopes around it are concerned
Opened(v, place) ==
    CASE IsMap(v) -> LET q == Queue(v) IN
            IF q # <<>> THEN {<<place, q>>}
            ELSE UNION {Opened(At(v, k), Append(place, <<"S", k>>)) : k \in Keys(v)}
      [] IsArr(v) -> UNION {Opened(v[2][i], Append(place, <<"I", i - 1>>)) : i \in 1 .. Len(v[2])}
      [] OTHER -> {}
OpenedBelow(v, place) ==
    CASE IsMap(v) -> UNION {Opened(At(v, k), Append(place, <<"S", k>>)) : k \in Keys(v)}
      [] OTHER -> {}
(* a nested scope with an unsupported script fails the run when it is reached *)
DoomedBelow(v) == \E k \in Keys(v) : BadBelow(At(v, k))

(* A run in progress: r.root is the document, r.pending its pending scopes,     *)
(* r.doomed whether an unsupported script has been come across, r.code the      *)
(* code of the script that failed (1: none), r.lost whether anything is known.  *)
(* Afterwards the first script of the pending entry en has run.                *)
ExecutedBy(r, en, ft, st) ==
    LET place == en[1]
        head  == en[2][1]
        scope == Follow(r.root, place)
        x     == RunOne(scope, head[1], head[2], place, ft, st)
        rest  == r.pending \ {en}
    IN [r EXCEPT !.root = IF x.class = "ok" THEN Replace(r.root, place, x.s) ELSE r.root,
                 !.lost = (x.class = "unspec"),
                 !.code = IF x.class = "fail" THEN x.code ELSE 1,
                 !.pending = IF Len(en[2]) > 1 THEN rest \cup {<<place, Tail(en[2])>>}
                             ELSE IF x.class = "ok" THEN rest \cup OpenedBelow(x.s, place) ELSE rest,
                 !.doomed = r.doomed \/ (Len(en[2]) = 1 /\ x.class = "ok" /\ DoomedBelow(x.s))]
Started(root) == [root |-> root, pending |-> Opened(root, <<>>), doomed |-> BadBelow(root), code |-> 1, lost |-> FALSE]

(* a whole run at once, scopes in document order: the document, or a failure.   *)
(* Sibling scopes cannot influence each other, so the order among them only     *)
(* decides which of several failures is reported.                              *)
RECURSIVE RunScope(_, _, _, _), RunQueue(_, _, _, _, _, _)
RunScope(v, place, ft, st) ==
    CASE IsMap(v) ->
        LET r == RunQueue(v, Queue(v), 1, place, ft, st) IN
        IF r.class # "ok" THEN r
        ELSE LET ks == SortKeys(Keys(r.s))
                 RECURSIVE Each(_, _)
                 Each(m, i) == IF i > Len(ks) THEN Outcome(m, "ok", 0)
                               ELSE LET c == RunScope(At(m, ks[i]), Append(place, <<"S", ks[i]>>), ft, st) IN
                                    IF c.class # "ok" THEN c ELSE Each(Put(m, ks[i], c.s), i + 1)
             IN IF DoomedBelow(r.s) THEN Outcome(r.s, "fail", -2) ELSE Each(r.s, 1)
      [] IsArr(v) ->
        LET RECURSIVE Each(_, _)
            Each(a, i) == IF i > Len(v[2]) THEN Outcome(a, "ok", 0)
                          ELSE LET c == RunScope(v[2][i], Append(place, <<"I", i - 1>>), ft, st) IN
                               IF c.class # "ok" THEN c ELSE Each(PutAt(a, i - 1, c.s), i + 1)
        IN Each(v, 1)
      [] OTHER -> Outcome(v, "ok", 0)
RunQueue(s, q, i, place, ft, st) ==
    IF i > Len(q) THEN Outcome(s, "ok", 0)
    ELSE LET r == RunOne(s, q[i][1], q[i][2], place, ft, st) IN
         IF r.class # "ok" THEN r ELSE RunQueue(r.s, q, i + 1, place, ft, st)
RunDoc(root, ft, st) == IF BadBelow(root) THEN Outcome(root, "fail", -2) ELSE RunScope(root, <<>>, ft, st)
=============================================================================
