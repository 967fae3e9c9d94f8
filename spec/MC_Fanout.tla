----------------------------- MODULE MC_Fanout -----------------------------
(* Goroutines that work with documents at the same time, in steps as small as the  *)
(* implementation takes them: a read follows each of its paths on its own, in any   *)
(* order, and puts what it finds where it belongs; a write changes one path after   *)
(* the other; a run executes one script after the other. Workers below Shared have  *)
(* a document each, the others read one that they have in common.                  *)
(*                                                                                *)
(* The documents and what can be done with them are handed in. Fault makes a         *)
(* mistake on purpose: the laws have to notice.                                     *)
EXTENDS JDom, Json, IOUtils, Randomization

CONSTANTS Own, Readers, NProgs, NEmit, Length, Fault
Given   == JsonDeserialize(IOEnv.MC_IN)
FT      == Given.ft
ST      == Given.st
Workers == 1 .. Own + Readers
None    == <<"none", "">>
Whose(w)== IF w <= Own THEN w ELSE Own + 1          \* the document of a worker
Doc0(w) == Given.docs[Whose(w)]
Pool(w) == Range(Given.pools[Whose(w)])             \* <<"get", path>>, <<"set", path, value>>, <<"run">>
RandomProgs(i) == [w \in Workers |-> [j \in 1 .. RandomElement(1 .. Length) |-> RandomElement(Pool(w))]]
Progs   == TLCEval({TLCEval(RandomProgs(i)) : i \in 1 .. NProgs})

VARIABLES prog, emit,
          pc, doc,              \* of each worker
          at,                   \* where in its operation it is: <<"rest">>, <<"get", paths>>, <<"set", paths, value>>, <<"run", state>>
          slots, came,          \* what the read has found so far, and in which order
          out,                  \* the results
          temp                  \* what a mistaken implementation has in one place for all
fvars == <<prog, emit, pc, doc, at, slots, came, out, temp, docs, last>>

Rest == <<"rest">>
FInit == /\ \E P \in {Progs} : \E E \in {RandomSubset(IF NEmit < Cardinality(P) THEN NEmit ELSE Cardinality(P), P)} : prog \in P /\ emit = (prog \in E)
         /\ pc = [w \in Workers |-> 1] /\ doc = [w \in Workers |-> Doc0(w)]
         /\ at = [w \in Workers |-> Rest] /\ slots = [w \in Workers |-> <<>>] /\ came = [w \in Workers |-> <<>>]
         /\ out = [w \in Workers |-> <<>>] /\ temp = None
         /\ docs = <<>> /\ last = <<>>

Op(w)    == prog[w][pc[w]]
Ended(w) == pc[w] > Len(prog[w])
Idle(w)  == at[w] = Rest
Same     == UNCHANGED <<prog, emit, docs, last>>
\* the operation of w is over, with a result and the root of the document
Returns(w, o, root) == /\ out' = [out EXCEPT ![w] = Append(@, o)]
                       /\ doc' = [doc EXCEPT ![w].root = root]
                       /\ pc' = [pc EXCEPT ![w] = @ + 1]
                       /\ at' = [at EXCEPT ![w] = Rest]
                       /\ slots' = [slots EXCEPT ![w] = <<>>] /\ came' = [came EXCEPT ![w] = <<>>]
Goes(w, x) == at' = [at EXCEPT ![w] = x] /\ UNCHANGED <<pc, doc, out>>

Begin(w) ==
    /\ Idle(w) /\ ~Ended(w) /\ UNCHANGED temp /\ Same
    /\ LET o == Op(w)
           p == IF o[1] = "run" THEN <<>> ELSE Parse(o[2]) IN
       IF o[1] # "run" /\ p = BadPath THEN Returns(w, Err, doc[w].root)
       ELSE IF o[1] = "get" THEN Goes(w, <<"get", p[2]>>) /\ slots' = [slots EXCEPT ![w] = [i \in 1 .. Len(p[2]) |-> None]] /\ UNCHANGED came
       ELSE IF o[1] = "set" THEN Goes(w, <<"set", p[2], IF o[3] = Null THEN Delete ELSE o[3]>>) /\ UNCHANGED <<slots, came>>
       ELSE IF BadBelow(doc[w].root) THEN Returns(w, Err, doc[w].root)
       ELSE Goes(w, <<"run", Started(doc[w].root)>>) /\ UNCHANGED <<slots, came>>

\* one path of a read is followed
Found(w, i) == GetPath(doc[w].root, at[w][2][i], 1, doc[w].root, FT)
Fill(w, i, v) == /\ slots' = [slots EXCEPT ![w][i] = v] /\ came' = [came EXCEPT ![w] = Append(@, i)]
                 /\ Same /\ UNCHANGED <<pc, doc, at, out>>
Follows(w) == /\ at[w][1] = "get" /\ Fault # "one place"
              /\ \E i \in DOMAIN slots[w] : slots[w][i] = None /\ Fill(w, i, TLCEval(Found(w, i)))
              /\ UNCHANGED temp
\* through a place that everybody uses
Puts(w)    == /\ at[w][1] = "get" /\ Fault = "one place"
              /\ \E i \in DOMAIN slots[w] : /\ slots[w][i] = None /\ slots' = [slots EXCEPT ![w][i] = <<"temp", "">>]
                                            /\ temp' = TLCEval(Found(w, i))
              /\ Same /\ UNCHANGED <<pc, doc, at, out, came>>
Takes(w)   == /\ at[w][1] = "get"
              /\ \E i \in DOMAIN slots[w] : slots[w][i] = <<"temp", "">> /\ Fill(w, i, temp)
              /\ UNCHANGED temp
\* all of them are there
Joined(w) ==
    LET ps == at[w][2]
        in(i) == IF Fault = "as they come" THEN came[w][i] ELSE i
        vs == [i \in DOMAIN ps |-> slots[w][in(i)]] IN
    IF \E i \in DOMAIN vs : vs[i][1] = "unspec" THEN Unspec
    ELSE IF \E i \in DOMAIN vs : vs[i][1] = "err" THEN Err
    ELSE OkOf(TLCEval(FlattenSeq([i \in DOMAIN ps |->
            IF IsArr(vs[i]) THEN [j \in 1 .. Len(vs[i][2]) |-> [p |-> Append(ps[in(i)], <<"I", j - 1>>), v |-> vs[i][2][j]]]
            ELSE <<[p |-> ps[in(i)], v |-> vs[i]]>>])))
Joins(w) == /\ at[w][1] = "get" /\ \A i \in DOMAIN slots[w] : slots[w][i] # None /\ slots[w][i][1] # "temp"
            /\ Returns(w, TLCEval(Joined(w)), doc[w].root) /\ UNCHANGED temp /\ Same

Writes(w) ==
    /\ at[w][1] = "set" /\ UNCHANGED temp /\ Same
    /\ IF at[w][2] = <<>> THEN Returns(w, OkOf(<<>>), doc[w].root)
       ELSE LET base == IF Fault = "one document" THEN doc[1].root ELSE doc[w].root
                x == TLCEval(SetAt(base, at[w][2][1], 1, at[w][3], base, FT)) IN
            IF Bad(x) THEN Returns(w, <<x[1], <<>>>>, doc[w].root)
            ELSE /\ at' = [at EXCEPT ![w][2] = Tail(@)] /\ doc' = [doc EXCEPT ![w].root = x]
                 /\ UNCHANGED <<pc, out, slots, came>>

Executes(w) ==
    /\ at[w][1] = "run" /\ UNCHANGED temp /\ Same
    /\ LET r == at[w][2] IN
       IF r.lost THEN Returns(w, Unspec, doc[w].root)
       ELSE IF r.code # 1 \/ (r.pending = {} /\ r.doomed) THEN Returns(w, Err, doc[w].root)
       ELSE IF r.pending = {} THEN Returns(w, OkOf(<<>>), r.root)
       ELSE \E en \in r.pending : Goes(w, <<"run", ExecutedBy(r, en, FT, ST)>>) /\ UNCHANGED <<slots, came>>

FNext == \E w \in Workers : Begin(w) \/ Follows(w) \/ Puts(w) \/ Takes(w) \/ Joins(w) \/ Writes(w) \/ Executes(w)
FSpec == FInit /\ [][FNext]_fvars

(* ------------------------------------------------------------------- laws --- *)
\* what w gets when nobody else is there
RECURSIVE Alone(_, _, _)
Alone(ops, d, outs) ==
    IF ops = <<>> THEN [d |-> d, outs |-> outs]
    ELSE LET o == ops[1]
             r == IF o[1] = "get" THEN Get(d, o[2], FT) ELSE IF o[1] = "set" THEN Set(d, o[2], o[3], FT) ELSE Run(d, FT, ST) IN
         Alone(Tail(ops), IF o[1] = "run" /\ r.c # "ok" THEN d ELSE r.d, Append(outs, IF o[1] = "get" THEN <<r.c, r.v>> ELSE <<r.c, <<>>>>))
Norm(o)  == <<o[1], IF o[1] = "ok" THEN o[2] ELSE <<>>>>
Known1(w)== \A i \in 1 .. Len(out[w]) : out[w][i][1] # "unspec"
Expected(w) == TLCEval(Alone(prog[w], Doc0(w), <<>>))
AsAlone  == (\A w \in Workers : Ended(w)) => \A w \in Workers : Known1(w) =>
               LET a == Expected(w) IN
               \/ \E i \in 1 .. Len(a.outs) : a.outs[i][1] = "unspec"
               \/ [i \in 1 .. Len(out[w]) |-> Norm(out[w][i])] = [i \in 1 .. Len(a.outs) |-> Norm(a.outs[i])] /\ doc[w] = a.d
\* the document in common is never changed, and neither is that of anybody who only reads
Unread   == \A w \in Workers : (\A i \in 1 .. Len(prog[w]) : prog[w][i][1] = "get") => doc[w] = Doc0(w)
\* reading twice gives the same
Repeatable == \A w \in Workers : (\A i \in 1 .. Len(prog[w]) : prog[w][i][1] = "get") =>
                 \A i, j \in 1 .. Len(out[w]) : prog[w][i] = prog[w][j] => Norm(out[w][i]) = Norm(out[w][j])
\* all of them come to their end: somebody can always go on (and nobody goes back)
NotStuck == (\A w \in Workers : Ended(w)) \/ ENABLED FNext

Emitted  == emit /\ (\A w \in Workers : Idle(w) /\ pc[w] = 1) => PrintT("@@OP " \o ToJson([prog |-> prog]))
=============================================================================
