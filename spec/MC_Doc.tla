------------------------------- MODULE MC_Doc ------------------------------
(* The state machine of JDom over a small universe that is handed in: two        *)
(* documents, a few values, paths, texts and scripts. Checked exhaustively up    *)
(* to a depth for the laws that tie its operations together; in simulation it     *)
(* prints histories, which are then performed on the implementation.             *)
EXTENDS JDom, Json, IOUtils, Randomization

CONSTANTS Emit, Length, Depth, Largest,
          Choice        \* how many of the operations are tried in each state (0: all of them)
Given == JsonDeserialize(IOEnv.MC_IN)
G_Handles == DOMAIN Given.docs
G_Values  == Range(Given.values)
G_Paths   == Range(Given.paths)
G_Filters == Given.ft
G_Scripts == Given.st
Indices   == {<<>>, <<0>>, <<1>>, <<0, 2>>, <<1, 0>>}
Sources   == Range(Given.sources)          \* of scripts to mark places up with

VARIABLES hist
dvars == <<docs, last, hist>>

(* every operation with its arguments, and what it is called by the driver *)
Ops == UNION {
    {[op |-> "load", h |-> h, val |-> v, must |-> FALSE] : h \in Handles, v \in {x \in Values : IsBox(x)}},
    {[op |-> "get", h |-> h, path |-> p, must |-> m] : h \in Handles, p \in Paths, m \in {TRUE, FALSE}},
    {[op |-> "resolve", h |-> h, path |-> p, must |-> FALSE] : h \in Handles, p \in Paths},
    {[op |-> "set", h |-> h, path |-> p, val |-> v, must |-> m] : h \in Handles, p \in Paths, v \in Values, m \in {TRUE, FALSE}},
    {[op |-> "del", h |-> h, path |-> p, must |-> m] : h \in Handles, p \in Paths, m \in {TRUE, FALSE}},
    {[op |-> "push", h |-> h, path |-> p, val |-> v, idx |-> i, must |-> TRUE] : h \in Handles, p \in Paths, v \in Values, i \in Indices},
    {[op |-> "pop", h |-> h, path |-> p, idx |-> i, must |-> TRUE] : h \in Handles, p \in Paths, i \in Indices},
    {[op |-> "markup", h |-> h, path |-> p, lang |-> g, src |-> x, must |-> FALSE] : h \in Handles, p \in Paths, x \in Sources, g \in {"js", "py"}},
    {[op |-> o, h |-> h, must |-> TRUE] : h \in Handles, o \in {"strip", "find", "string"}},
    {[op |-> o, h |-> h, must |-> FALSE] : h \in Handles, o \in {"marshal", "run", "poke"}},
    {[op |-> "clone", h |-> g, from |-> h, clear |-> c, must |-> FALSE] : h \in Handles, g \in Handles, c \in {TRUE, FALSE}}}

(* what an operation makes of the documents *)
After(o) ==
    LET d == docs[o.h]
        Now(r) == IF r.c = "unspec" THEN <<>> ELSE <<[docs EXCEPT ![o.h] = r.d]>> IN
    CASE o.op = "load"   -> Now(Load(d, o.val))
      [] o.op = "set"    -> Now(Set(d, o.path, o.val, FilterTable))
      [] o.op = "del"    -> Now(Set(d, o.path, Delete, FilterTable))
      [] o.op = "push"   -> Now(Push(d, o.path, o.val, o.idx, FilterTable))
      [] o.op = "pop"    -> Now(Pop(d, o.path, o.idx, FilterTable))
      [] o.op = "markup" -> Now(Markup(d, o.path, o.lang, o.src, FilterTable))
      [] o.op = "strip"  -> Now(Strip(d))
      [] o.op = "run"    -> LET r == Run(d, FilterTable, ScriptTable) IN IF r.c = "ok" THEN Now(r) ELSE <<docs>>
      [] o.op = "clone"  -> <<[docs EXCEPT ![o.h] = Clone(docs[o.from], o.clear)]>>
      [] OTHER           -> <<docs>>                       \* it only reads
Reads == {"get", "resolve", "find", "string", "marshal", "poke"}

(* a value that is given to the library is changed right afterwards ("poke") or not *)
Sensible(o) == o.op = "poke" => /\ hist # <<>> /\ hist[Len(hist)].op \in {"set", "push"} /\ hist[Len(hist)].h = o.h
                                /\ IsBox(hist[Len(hist)].val)
MCInit == /\ docs = Given.docs /\ hist = <<>>
          /\ last = [op |-> "init", h |-> "", arg |-> <<>>, c |-> "ok", v |-> <<>>]
Do(o) == LET a == After(o) IN
         /\ a # <<>>
         /\ docs' = a[1]
         /\ hist' = IF Emit THEN Append(hist, o) ELSE <<>>
         /\ last' = [op |-> o.op, h |-> o.h, arg |-> <<>>, c |-> "ok", v |-> <<>>]
\* for the laws it is enough to change one of the documents, once in each way
First == CHOOSE h \in Handles : TRUE
Changes == {o \in Ops : /\ o.op \notin Reads
                        /\ o.h = First \/ (o.op = "clone" /\ o.from = First) \/ o.op = "run"
                        /\ o.op \in {"set", "del"} => o.must
                        /\ o.op = "push" => o.idx \in {<<>>, <<0, 2>>}
                        /\ o.op = "markup" => o.lang = "js"}
\* what is of interest comes up more often
Favoured == TLCEval({o \in Ops : o.op \in Range(Given.focus)})
Some(n, S) == RandomSubset(IF n < Cardinality(S) THEN n ELSE Cardinality(S), S)
MCNext == IF Emit THEN \/ Len(hist) < Length /\ \E o \in Some(4, Ops) \cup Some(3, Favoured) : Sensible(o) /\ Do(o)
                       \/ Len(hist) = Length /\ PrintT("@@OP " \o ToJson(hist)) /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED <<docs, last>>
          ELSE \E o \in (IF Choice = 0 THEN Changes ELSE RandomSubset(Choice, Changes)) : Do(o)
MCSpec == MCInit /\ [][MCNext]_dvars
Bounded == /\ TLCGet("level") <= Depth
           /\ \A h \in Handles : Size(docs[h].root) <= Largest
NoLast == docs                              \* the view: how a state came about does not matter

(* ------------------------------------------------------------------ laws --- *)
All(P(_)) == \A h \in Handles : P(docs[h])
\* searching, stripping and running know the same scripts
Searching == All(LAMBDA d : /\ (Find(d).c = "err") = (Strip(d).c = "err")
                            /\ Find(d).c = "ok" => Find(d).v = (Strip(d).d.root # d.root)
                            /\ Find(d).c = "err" => Run(d, FilterTable, ScriptTable).v = <<-2>>)
StripTwice == All(LAMBDA d : Strip(d).c = "ok" => LET s == Strip(d).d IN Strip(s).d = s /\ Find(s).v = FALSE /\ s.arr = d.arr)
\* nothing runs in a document without scripts
RunsNothing == All(LAMBDA d : Find(d).c = "ok" /\ Find(d).v = FALSE => LET r == Run(d, FilterTable, ScriptTable) IN r.c = "ok" /\ r.d = d)
RunTwice == All(LAMBDA d : LET r == Run(d, FilterTable, ScriptTable) IN
                r.c = "ok" /\ Find(r.d).v = FALSE => Run(r.d, FilterTable, ScriptTable).d = r.d)
\* text is as good as the document
Texts == All(LAMBDA d : LET m == Marshal(d) IN m.c = "ok" /\ IsBox(m.v[1]) => \A h \in Handles : LET b == Load(docs[h], m.v[1]) IN b.c = "ok" /\ SameDoc(b.d, DocOf(ValueOf(d))))
Evals == All(LAMBDA d : LET m == Marshal(d) IN m.c = "ok" /\ IsBox(m.v[1]) =>
                LET e == Eval(m.v[1], FilterTable, ScriptTable)
                    r == Run(DocOf(m.v[1]), FilterTable, ScriptTable) IN
                e.c = r.c /\ (e.c = "ok" => e.v = <<ValueOf(r.d)>>))
\* a document that was marked up has a script, and without its scripts it is what was not marked up
Marking == All(LAMBDA d : \A p \in Paths, x \in Sources :
                LET m == Markup(d, p, "js", x, FilterTable)
                    k == Parse(p) IN
                (m.c = "ok" /\ k[1] = "ok" /\ Len(k[2]) = 1 /\ (\A i \in DOMAIN k[2][1] : k[2][1][i][1] = "S") /\ Strip(d).c = "ok"
                 /\ ~IsArr(GetPath(d.root, SubSeq(k[2][1], 1, Len(k[2][1]) - 1), 1, d.root, FilterTable)))
                => /\ Find(m.d).v = TRUE
                   /\ Strip(m.d).d.root = Strip(Set(d, p, Delete, FilterTable).d).d.root)
Cloning == All(LAMBDA d : Clone(d, FALSE) = d /\ Clone(d, TRUE).arr = d.arr /\ Keys(Clone(d, TRUE).root) = {})
\* an operation concerns one document only, and only loading and cloning change what its root is
Apart == [][\A h \in Handles : h # last'.h => docs'[h] = docs[h]]_dvars
RootKind == [][last'.op \notin {"load", "clone"} => \A h \in Handles : docs'[h].arr = docs[h].arr]_dvars
=============================================================================
