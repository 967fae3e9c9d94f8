----------------------------- MODULE MC_Bridge -----------------------------
(* Values of JavaScript, what they are as JSON, and the ways on which they cross    *)
(* between a script and its document.                                              *)
(*                                                                                *)
(* A JavaScript value is <<"x", i>>, the i-th of the expressions that are handed    *)
(* in with what they are as JSON (Absent if nothing), <<"hole", "">> (in a list),    *)
(* <<"list", values>>, <<"obj", <<<<name, value>>, ...>>>>, <<"to", value>> (an       *)
(* object with a toJSON that returns the value), <<"new", value>> (an object which   *)
(* inherits a property with the value and has none of its own), or <<"fn", value>>    *)
(* (what a function returns).                                                       *)
EXTENDS JScripts, Json, IOUtils, Randomization

CONSTANTS Depth, Chosen, Sample
Given  == JsonDeserialize(IOEnv.MC_IN)
Atoms  == Given.atoms                  \* <<JavaScript, JSON value, is it an object with nothing but a toJSON?>>
Names  == Range(Given.names)
Absent == <<"u", "">>

RECURSIVE Written(_), Joined(_, _), Pairs(_)
Joined(vs, i) == IF i > Len(vs) THEN ""
                 ELSE Written(vs[i]) \o (IF i < Len(vs) \/ vs[i][1] = "hole" THEN ", " ELSE "") \o Joined(vs, i + 1)
Pairs(ps) == IF ps = <<>> THEN "" ELSE "\"" \o ps[1][1] \o "\": " \o Written(ps[1][2]) \o (IF Len(ps) = 1 THEN "" ELSE ", ") \o Pairs(Tail(ps))
Written(j) == CASE j[1] = "x"    -> Atoms[j[2]][1]
                [] j[1] = "hole" -> ""
                [] j[1] = "list" -> "[" \o Joined(j[2], 1) \o "]"
                [] j[1] = "obj"  -> "{" \o Pairs(j[2]) \o "}"
                [] j[1] = "to"   -> "{toJSON: function () { return " \o Written(j[2]) \o "; }, lost: 1}"
                [] j[1] = "new"  -> "Object.create({inherited: " \o Written(j[2]) \o "})"
                [] OTHER         -> "(function () { return " \o Written(j[2]) \o "; })()"

\* what JSON.stringify makes of it
RECURSIVE Js(_), Once(_)
\* what it is when its own toJSON is not asked, because it is what another toJSON returned
Once(j) == CASE j[1] = "fn" -> Once(j[2])
             [] j[1] = "to" -> Map("lost" :> Num(1))
             [] j[1] = "x" /\ Atoms[j[2]][3] -> Map(NoKeys)
             [] OTHER       -> Js(j)
LastOf(ps, k) == ps[CHOOSE i \in 1 .. Len(ps) : ps[i][1] = k /\ \A n \in i + 1 .. Len(ps) : ps[n][1] # k][2]
Js(j) == CASE j[1] = "x"    -> Atoms[j[2]][2]
           [] j[1] = "hole" -> Absent
           [] j[1] = "list" -> Arr([i \in 1 .. Len(j[2]) |-> IF Js(j[2][i]) = Absent THEN Null ELSE Js(j[2][i])])
           [] j[1] = "obj"  -> LET ks == {k \in {j[2][i][1] : i \in 1 .. Len(j[2])} : Js(LastOf(j[2], k)) # Absent} IN
                               IF ks = {} THEN Map(NoKeys) ELSE Map([k \in ks |-> Js(LastOf(j[2], k))])
           [] j[1] = "to"   -> Once(j[2])
           [] j[1] = "new"  -> Map(NoKeys)
           [] OTHER         -> Js(j[2])

\* a JSON value as a value of JavaScript
RECURSIVE Literal(_)
Literal(v) == CASE IsMap(v) -> LET ks == SortKeys(Keys(v)) IN <<"obj", [i \in 1 .. Len(ks) |-> <<ks[i], Literal(At(v, ks[i]))>>]>>
                [] IsArr(v) -> <<"list", [i \in 1 .. Len(v[2]) |-> Literal(v[2][i])]>>
                [] OTHER    -> <<"x", CHOOSE i \in DOMAIN Atoms : Atoms[i][2] = v>>

VARIABLES j, deep, emit
vars == <<j, deep, emit>>
Exprs == {<<"x", i>> : i \in DOMAIN Atoms}
Hole  == <<"hole", "">>
Init == j \in Exprs /\ deep = 0 /\ emit = FALSE
Alone  == {<<"list", <<j>>>>, <<"list", <<j, Hole>>>>, <<"list", <<Hole, j, j>>>>, <<"to", j>>, <<"new", j>>, <<"fn", j>>} \cup {<<"obj", <<<<k, j>>>>>> : k \in Names}
Pair   == {<<"list", <<a, j>>>> : a \in Exprs}
Four   == {<<"list", <<j, a, Hole, j>>>> : a \in Exprs}
Both   == {<<"obj", <<<<k, a>>, <<m, j>>>>>> : k, m \in Names, a \in Exprs}       \* the same name twice: the last counts
Wrapped == RandomSubset(2 * Chosen, Alone) \cup RandomSubset(Chosen \div 2, Pair) \cup RandomSubset(Chosen \div 2, Four) \cup RandomSubset(Chosen, Both)
Next == /\ deep < Depth /\ deep' = deep + 1
        /\ j' \in Wrapped
        /\ emit' = (RandomElement(1 .. Sample) = 1)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------- laws --- *)
RECURSIVE Proper(_)
Proper(v) == CASE IsMap(v) -> \A k \in Keys(v) : Proper(At(v, k))
               [] IsArr(v) -> \A i \in 1 .. Len(v[2]) : Proper(v[2][i])
               [] OTHER -> v[1] \in {"z", "b", "n", "d", "s"}
\* nothing of JavaScript is left, except that there may be nothing at all
JsonOnly == Js(j) = Absent \/ Proper(Js(j))
\* a JSON value is what it is
Stable   == Js(j) # Absent => Js(Literal(Js(j))) = Js(j)
\* lists keep their length and positions, objects the properties that have a text
Shape    == CASE j[1] = "list" -> Len(Js(j)[2]) = Len(j[2])
              [] j[1] = "obj"  -> Keys(Js(j)) \subseteq {p[1] : p \in Range(j[2])}
              [] OTHER -> TRUE
(* the ways: s is the scope afterwards *)
Scope  == Map("a" :> Num(1) @@ "o" :> Map("x" :> Num(2)) @@ "l" :> Arr(<<Num(3), Num(4)>>))
V      == Js(j)
S(ops) == Effects(ops, Scope, <<>>, "js", NoKeys)
Assign == IF V = Absent THEN <<"undef", "a", Written(j)>> ELSE <<"expr", "a", V, Written(j)>>
Through(p) == <<"psetx", p, IF V = Absent THEN Null ELSE V, Written(j)>>
\* directly and through a JSON path: the same, except that null through a path deletes
SameWay  == LET d == S(<<Assign>>)  p == S(<<Through("$.a")>>) IN
            d.class = "ok" /\ p.class = "ok" /\ (IF V = Null THEN At(d.s, "a") = Null /\ ~Has(p.s, "a") ELSE d.s = p.s)
Deeper   == V \notin {Null, Absent} => /\ Follow(S(<<Through("$.o.x")>>).s, <<<<"S", "o">>, <<"S", "x">>>>) = V
                                       /\ Follow(S(<<Through("$.l[1]")>>).s, <<<<"S", "l">>, <<"I", 1>>>>) = V
\* and back: what is read is what was written (the elements of an array; of a single element that is an array, its elements)
Back     == V \notin {Null, Absent} => LET r == S(<<Through("$.a"), <<"pget", "$.a", "got">>, <<"copy", "a", "b">>>>) IN
            /\ At(r.s, "b") = V
            /\ At(r.s, "got") = IF ~IsArr(V) THEN Arr(<<V>>) ELSE IF Len(V[2]) = 1 /\ IsArr(V[2][1]) THEN V[2][1] ELSE V
Emitted == emit \/ deep = 0 => PrintT("@@OP " \o ToJson([val |-> V, js |-> Written(j)]))
=============================================================================
