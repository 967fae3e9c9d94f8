----------------------------- MODULE MC_Scripts ----------------------------
(* Runs of scripts under every interleaving of the scopes, for the ways in        *)
(* which a few scripts can be put into the scopes of a document. The document,     *)
(* its scopes and the scripts are handed in.                                      *)
EXTENDS JScripts, Json, IOUtils, Randomization

CONSTANTS NDocs, NEmit
Given   == JsonDeserialize(IOEnv.MC_IN)
FT      == Given.ft
ST      == Given.st
Twins   == Given.twins            \* the text of a script -> a callback with the same effect (or the other way round)
Pool    == Range(Given.pool) \cup {Null}
Scopes  == Given.scopes
RandomWay(i) == [j \in 1 .. Len(Scopes) |-> [k \in Range(Given.keys) |-> RandomElement(Pool)]]

RECURSIVE DressScope(_, _, _), Dress(_, _, _)
DressScope(m, w, ks) == IF ks = {} THEN m
                        ELSE LET k == CHOOSE x \in ks : TRUE IN
                             DressScope(IF w[k] = Null THEN m ELSE Put(m, k, w[k]), w, ks \ {k})
Dress(root, way, i) == IF i > Len(Scopes) THEN root
                       ELSE Dress(Replace(root, Scopes[i], DressScope(Follow(root, Scopes[i]), way[i], DOMAIN way[i])), way, i + 1)
\* innermost scopes last in Scopes, so that each is still there
Docs == TLCEval({TLCEval(Dress(Given.root, TLCEval(RandomWay(i)), 1)) : i \in 1 .. NDocs})

VARIABLES doc, run, emit,
          ran            \* the scripts that have run: <<place of the scope, key>>
vars == <<doc, run, ran, emit>>
Init == \E D \in {Docs} : \E E \in {RandomSubset(IF NEmit < Cardinality(D) THEN NEmit ELSE Cardinality(D), D)} :
           /\ doc \in D /\ emit = (doc \in E)
           /\ run = Started(doc) /\ ran = {}
Going == ~run.lost /\ run.code = 1
Next == /\ Going
        /\ \E en \in run.pending : /\ run' = ExecutedBy(run, en, FT, ST)
                                   /\ ran' = ran \cup {<<en[1], en[2][1][1]>>}
        /\ UNCHANGED <<doc, emit>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done  == Going /\ run.pending = {}
Whole == RunDoc(doc, FT, ST)
(* ------------------------------------------------------------------- laws --- *)
\* whatever the order of the scopes, the result is the same
Confluent == Done /\ ~run.doomed /\ ~BadBelow(doc) => Whole.class = "ok" /\ Whole.s = run.root
FailsAlike == run.code # 1 /\ ~run.lost => Whole.class \in {"fail", "unspec"}
Doomed    == Done /\ run.doomed => Whole.class \in {"fail", "unspec"}
\* no script twice, outer scopes before inner ones, by name within a scope
Before(p, q) == Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p
Now       == CHOOSE x \in ran' : x \notin ran          \* the script that runs in a step
Once      == [][Cardinality(ran') = Cardinality(ran) + 1]_vars
OuterFirst== [][\A y \in ran : ~Before(Now[1], y[1])]_vars
ByName    == [][\A y \in ran : y[1] = Now[1] => StrLess(y[2], Now[2])]_vars
\* a script runs in the scope as the scripts before it have left it, and concerns nothing but that scope
Apart     == [][\A q \in Places(run.root) :
                  LET p == Now[1] IN
                  Before(p, q) \/ p = q \/ Before(q, p) \/ Follow(run.root, q) = Follow(run'.root, q)]_vars
\* scripts which only add things: all of them run, and none is left
Scripted(v) == {p \in Places(v) : p # <<>> /\ Last(p)[1] = "S" /\ IsScript(Follow(v, p))}
Complete  == Done /\ Given.tame => Cardinality(ran) = Cardinality(Scripted(doc)) /\ ~HasScript(run.root)
NoneIsOne == Scripted(doc) = {} /\ ~BadBelow(doc) => Whole.class = "ok" /\ Whole.s = doc
\* the language makes no difference
RECURSIVE Twin(_)
Twin(v) == IF v[1] \in {"s", "f"} /\ TableKey(v) \in DOMAIN Twins THEN Twins[TableKey(v)]
           ELSE IF IsMap(v) THEN Map([k \in Keys(v) |-> Twin(At(v, k))])
           ELSE IF IsArr(v) THEN Arr([i \in 1 .. Len(v[2]) |-> Twin(v[2][i])]) ELSE v
AnyLanguage == ran = {} /\ Given.twinned => LET t == RunDoc(Twin(doc), FT, ST) IN
               \/ Whole.class # "ok" \/ t.class # "ok" \/ Twin(Whole.s) = Twin(t.s)
(* every run comes to its end *)
Ends      == <>(~Going \/ run.pending = {})

Emitted == emit /\ ran = {} => PrintT("@@OP " \o ToJson([doc |-> doc, twin |-> IF Given.twinned THEN Twin(doc) ELSE Null]))
=============================================================================
