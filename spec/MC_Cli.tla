------------------------------ MODULE MC_Cli -------------------------------
(* A call of the command line tool as a process: it reads its flags, looks at its  *)
(* files, and then handles one input after the other until it exits. The inputs,   *)
(* marks and flags to combine are handed in.                                       *)
EXTENDS JCli, Json, IOUtils, Randomization

CONSTANTS MostFiles, NCalls, NEmit
Given == JsonDeserialize(IOEnv.MC_IN)
FT    == Given.ft
ST    == Given.st
Ins   == Range(Given.inputs)                \* for the files
Texts == Range(Given.texts)                 \* for -input
Marks == Range(Given.marks)                 \* lists of path and script
SomeFiles(i) == [j \in 1 .. RandomElement(0 .. MostFiles) |-> RandomElement(Ins)]
ACall(i) == [sub |-> RandomElement(Range(Given.subs)), files |-> TLCEval(SomeFiles(i)), input |-> RandomElement(Texts), pairs |-> RandomElement(Marks),
             lang |-> RandomElement(Range(Given.langs)), eval |-> RandomElement({TRUE, FALSE}), strip |-> RandomElement({TRUE, FALSE}),
             junk |-> RandomElement(1 .. 40) = 1]
Calls == TLCEval({TLCEval(ACall(i)) : i \in 1 .. NCalls})

VARIABLES call, at, out, code, emit        \* at: "flags", "files", or how many inputs are done; code: -2 while it runs
cvars == <<docs, last, call, at, out, code, emit>>
MCInit == \E C \in {Calls} : \E E \in {RandomSubset(IF NEmit < Cardinality(C) THEN NEmit ELSE Cardinality(C), C)} :
          /\ call \in C /\ emit = (call \in E)
          /\ at = <<"flags", 0>> /\ out = <<>> /\ code = -2
          /\ docs = <<>> /\ last = <<>>
Exits(c) == code' = c /\ UNCHANGED <<at, out>>
Inputs   == InputsOf(call)
ReadFlags ==
    /\ at[1] = "flags"
    /\ IF call.sub \notin {"eval", "markup"} THEN Exits(5)
       ELSE IF call.junk \/ (call.sub = "markup" /\ \E i \in DOMAIN call.pairs : Parse(call.pairs[i][1]) = BadPath) THEN Exits(2)
       ELSE IF Len(call.files) = 0 /\ call.input[1] = "none" THEN Exits(6)
       ELSE at' = <<"files", 0>> /\ UNCHANGED <<out, code>>
LookAtFiles ==
    /\ at[1] = "files"
    /\ IF at[2] < Len(call.files) THEN
          IF call.files[at[2] + 1][1] = "missing" THEN Exits(7) ELSE at' = <<"files", at[2] + 1>> /\ UNCHANGED <<out, code>>
       ELSE IF call.sub = "markup" /\ call.pairs = <<>> THEN Exits(6) ELSE at' = <<"inputs", 0>> /\ UNCHANGED <<out, code>>
HandleInput ==
    /\ at[1] = "inputs"
    /\ IF at[2] = Len(Inputs) THEN Exits(0)
       ELSE LET x == Inputs[at[2] + 1]
                r == IF call.sub = "eval" THEN EvalInput(x, FT, ST) ELSE MarkupInput(x, call, FT, ST) IN
            IF r[1] = "ok" THEN at' = <<"inputs", at[2] + 1>> /\ out' = Append(out, r[2]) /\ UNCHANGED code
            ELSE IF r[1] = "fail" THEN Exits(r[2]) ELSE Exits(-1)
MCNext == code = -2 /\ (ReadFlags \/ LookAtFiles \/ HandleInput) /\ UNCHANGED <<docs, last, call, emit>>
MCSpec == MCInit /\ [][MCNext]_cvars /\ WF_cvars(MCNext)

(* ------------------------------------------------------------------- laws --- *)
Over       == code # -2
Whole      == Call(call, FT, ST)
\* the process ends, in the way in which the call is described as a whole
Ending     == <>Over
SameEnd    == Over => Whole = [code |-> code, out |-> out]
ExitCodes  == code \in {-2, -1, 0, 2, 5, 6, 7, 9, 10, 11}
\* what has been printed stays; one document for each input that is done
Prints     == [][SubSeq(out', 1, Len(out)) = out /\ Len(out') <= Len(out) + 1]_cvars
OneEach    == at[1] = "inputs" => Len(out) = at[2]
NoneBefore == at[1] # "inputs" => out = <<>>
AllOrCode  == code = 0 => Len(out) = Len(Inputs)
\* of the failures only those of inputs come after something was printed
Reported   == code \in {2, 5, 6, 7} => out = <<>>
Of(sub)    == CASE sub = "eval" -> {-2, -1, 0, 2, 5, 6, 7, 10} [] OTHER -> {-2, -1, 0, 2, 5, 6, 7, 9, 10, 11}
Kinds      == code \in Of(call.sub) /\ (code = 10 /\ call.sub = "markup" => call.eval)
One(e, x)  == Call([e EXCEPT !.files = <<x>>, !.junk = FALSE], FT, ST)
Fine       == at[1] = "flags" /\ call.sub \in {"eval", "markup"} /\ ~call.junk
\* several inputs are what each of them is on its own
Composed   == Fine /\ Len(call.files) > 0 /\ Whole.code = 0 =>
                 Whole.out = FlattenSeq([i \in 1 .. Len(call.files) |-> One(call, call.files[i]).out])
Stops      == Fine /\ Whole.code \in {9, 10, 11} => LET ins == Inputs  n == Len(Whole.out) + 1 IN
                 n <= Len(ins) /\ One(call, ins[n]) = [code |-> Whole.code, out |-> <<>>]
\* the files go before the input text
FilesFirst == Fine /\ Len(call.files) > 0 => Whole = Call([call EXCEPT !.input = <<"none", Null>>], FT, ST)
\* evaluating after marking up is evaluating what marking up prints
TwoSteps   == Fine /\ call.sub = "markup" /\ Len(Inputs) = 1 =>
                 LET marked == Call([call EXCEPT !.eval = FALSE], FT, ST) IN
                 IF marked.code # 0 THEN Call([call EXCEPT !.eval = TRUE], FT, ST).code = marked.code
                 ELSE Call([call EXCEPT !.eval = TRUE], FT, ST) =
                      Call([call EXCEPT !.sub = "eval", !.pairs = <<>>, !.files = <<>>, !.input = <<"ok", marked.out[1]>>], FT, ST)
\* stripping is done first: it makes no difference to inputs without scripts
StripFirst == Fine /\ call.sub = "markup" /\ (\A i \in DOMAIN Inputs : Inputs[i][1] = "ok" => ~HasScript(DocOf(Inputs[i][2]).root) /\ ~BadBelow(DocOf(Inputs[i][2]).root)) =>
                 Call([call EXCEPT !.strip = TRUE], FT, ST) = Call([call EXCEPT !.strip = FALSE], FT, ST)
\* a list of marks is one mark after the other
InOrder    == Fine /\ call.sub = "markup" /\ ~call.eval /\ Len(Inputs) = 1 /\ Len(call.pairs) > 1 /\ (\A i \in DOMAIN call.pairs : Parse(call.pairs[i][1]) # BadPath) =>
                 LET first == Call([call EXCEPT !.pairs = <<call.pairs[1]>>], FT, ST) IN
                 IF first.code # 0 THEN Whole.code = first.code
                 ELSE ~IsBox(first.out[1]) \/ Whole = Call([call EXCEPT !.strip = FALSE, !.files = <<>>, !.input = <<"ok", first.out[1]>>, !.pairs = Tail(call.pairs)], FT, ST)

Emitted == emit /\ at[1] = "flags" /\ code = -2 => PrintT("@@OP " \o ToJson(call))
=============================================================================
