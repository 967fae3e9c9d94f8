-------------------------------- MODULE JCli ------------------------------
(* The command line tool: what a call of it prints and how it exits.         *)
(* An input is <<"ok", value>>, <<"bad", ..>> (text that does not parse),     *)
(* <<"missing", ..>> (a file that is not there) or <<"none", ..>>.           *)
EXTENDS JDom

Exit(code, out) == [code |-> code, out |-> out]
SubcommandErr == 5
RequiredFlag  == 6
FileMissing   == 7
UnmarshalErr  == 9
EvaluationErr == 10
MarkupErr     == 11
FlagUsage     == 2

(* the inputs that are used: the files, or else the input text *)
InputsOf(e) == IF Len(e.files) > 0 THEN e.files ELSE IF e.input[1] = "none" THEN <<>> ELSE <<e.input>>

(* one input through "eval": <<"ok", value>>, <<"fail", code>> or <<"unspec", ..>> *)
EvalInput(x, ft, st) ==
    IF x[1] = "bad" THEN <<"fail", EvaluationErr>>
    ELSE LET o == Eval(x[2], ft, st) IN
         IF o.c = "ok" THEN <<"ok", o.v[1]>> ELSE IF o.c = "err" THEN <<"fail", EvaluationErr>> ELSE <<"unspec", 0>>

RECURSIVE MarkAll(_, _, _, _, _)
MarkAll(d, pairs, i, lang, ft) ==
    IF i > Len(pairs) THEN Out(d, "ok", <<>>)
    ELSE LET o == Markup(d, pairs[i][1], lang, pairs[i][2], ft) IN
         IF o.c # "ok" THEN o ELSE MarkAll(o.d, pairs, i + 1, lang, ft)

MarkupInput(x, e, ft, st) ==
    IF x[1] = "bad" THEN <<"fail", UnmarshalErr>>
    ELSE LET d0 == DocOf(x[2])
             d1 == IF e.strip THEN Strip(d0) ELSE Out(d0, "ok", <<>>) IN
         IF d1.c # "ok" THEN <<"fail", MarkupErr>>
         ELSE LET d2 == MarkAll(d1.d, e.pairs, 1, e.lang, ft) IN
              IF d2.c = "unspec" THEN <<"unspec", 0>>
              ELSE IF d2.c # "ok" THEN <<"fail", MarkupErr>>
              ELSE IF e.eval THEN EvalInput(<<"ok", ValueOf(d2.d)>>, ft, st)
              ELSE <<"ok", ValueOf(d2.d)>>

RECURSIVE Each(_, _, _, _, _, _)
Each(ins, i, out, e, ft, st) ==
    IF i > Len(ins) THEN Exit(0, out)
    ELSE LET r == IF e.sub = "eval" THEN EvalInput(ins[i], ft, st) ELSE MarkupInput(ins[i], e, ft, st) IN
         IF r[1] = "ok" THEN Each(ins, i + 1, Append(out, r[2]), e, ft, st)
         ELSE IF r[1] = "fail" THEN Exit(r[2], out) ELSE Exit(-1, out)

(* code -1: left open *)
Call(e, ft, st) ==
    LET ins == InputsOf(e) IN
    IF e.sub \notin {"eval", "markup"} THEN Exit(SubcommandErr, <<>>)
    ELSE IF e.junk THEN Exit(FlagUsage, <<>>)                  \* a flag that there is not
    ELSE IF e.sub = "markup" /\ \E i \in 1 .. Len(e.pairs) : Parse(e.pairs[i][1]) = BadPath THEN Exit(FlagUsage, <<>>)
    ELSE IF ins = <<>> THEN Exit(RequiredFlag, <<>>)
    ELSE IF \E i \in 1 .. Len(ins) : ins[i][1] = "missing" THEN Exit(FileMissing, <<>>)
    ELSE IF e.sub = "markup" /\ e.pairs = <<>> THEN Exit(RequiredFlag, <<>>)
    ELSE Each(ins, 1, <<>>, e, ft, st)
=============================================================================
