------------------------------- MODULE JTrace -----------------------------
(* Judges a trace that was recorded from the implementation. Every line is    *)
(* one event: an operation with its arguments, the result that the             *)
(* implementation gave, and all documents as they were afterwards. The event   *)
(* is compared with what JDom says the operation does to the documents as      *)
(* they were before. A disagreement is recorded, with the aspect that differs, *)
(* and the rest of the trace is judged from the recorded documents on.         *)
EXTENDS JCli, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,        \* the next line
          tab,      \* the line of the tables (filters, scripts) in force
          run,      \* the run of scripts in progress
          bad       \* the disagreements: <<line, aspect>>
tvars == <<docs, last, l, tab, run, bad>>

Idle == [on |-> FALSE, lost |-> TRUE]
FT == Trace[tab].ft
ST == Trace[tab].st
DelayMs == 1000 * Trace[tab].delay          \* the halting delay
Slack   == 4000

(* ---------------------------------------------------------- the judgement --- *)
\* the documents after event e (they are left out if nothing changed)
After(e) == IF e.same THEN docs ELSE e.docs
\* expected outcome o of the operation in event e, on the documents before
Class(e, o) == IF o.c = "err" /\ e.must THEN "panic" ELSE o.c
Differ(cond, aspect, expected) ==
    IF cond THEN <<>> ELSE <<<<l, aspect, expected>>>>
Others(e, except) ==
    LET changed == {h \in DOMAIN docs \ except : h \notin DOMAIN After(e) \/ ~SameDoc(docs[h], After(e)[h])} IN
    Differ(changed = {}, "other", changed)
KeepAll(e) == LET changed == {h \in DOMAIN docs : h \notin DOMAIN After(e) \/ ~SameDoc(docs[h], After(e)[h])} IN
              Differ(changed = {}, "pure", changed)

PathsOf(nodes) == TLCEval([i \in 1 .. Len(nodes) |-> nodes[i].p])
JudgeRead(e, o) ==
    KeepAll(e) \o
    IF o.c = "unspec" THEN <<>>
    ELSE IF e.r.c # Class(e, o) THEN <<<<l, "cls", Class(e, o)>>>>
    ELSE IF o.c # "ok" THEN Differ(e.r.code = -6, "code", -6)
    ELSE LET vs == ValuesOf(o.v) IN
         IF ~SameBag(e.r.v, vs) THEN <<<<l, "val", vs>>>>
         ELSE Differ(e.r.v = vs, "ord", vs)
              \o (IF e.must THEN Differ(e.r.nil = (vs = <<>>), "nil", vs = <<>>)
                  ELSE IF e.r.v = vs THEN Differ(e.r.p = PathsOf(o.v), "abs", PathsOf(o.v)) ELSE <<>>)

\* every node, looked up again through its own path
JudgeResolve(e, o) ==
    KeepAll(e) \o
    IF o.c # "ok" THEN <<>>
    ELSE IF e.r.c # "ok" THEN <<<<l, "cls", "ok">>>>
    ELSE LET vs   == ValuesOf(o.v)
             want == TLCEval([i \in 1 .. Len(vs) |-> IF IsArr(vs[i]) THEN vs[i][2] ELSE <<vs[i]>>]) IN
         IF e.r.v # vs THEN <<>>           \* the selection itself is judged elsewhere
         ELSE Differ(e.r.p = PathsOf(o.v), "abs", PathsOf(o.v)) \o Differ(e.r.again = want, "abs", want)

JudgeWrite(e, o) ==
    Others(e, {e.h}) \o
    IF o.c = "unspec" THEN <<>>
    ELSE IF e.r.c # Class(e, o) THEN <<<<l, "cls", Class(e, o)>>>>
    ELSE IF o.c = "ok" THEN
         Differ(After(e)[e.h].arr = o.d.arr, "kind", o.d.arr)
         \o Differ(After(e)[e.h].root = o.d.root, "doc", o.d.root)
         \o (IF e.op = "pop" THEN Differ(e.r.v = o.v, "ret", o.v) ELSE <<>>)
    ELSE Differ(After(e)[e.h].arr = o.d.arr, "kind", o.d.arr)
         \o Differ(FailFrame(o.d.root, After(e)[e.h].root, o.failed, 1), "frame", o.d.root)

\* the state of a document after an operation that does not concern paths
JudgeDoc(e, o) ==
    Others(e, {e.h}) \o
    IF e.r.c # Class(e, o) THEN <<<<l, "cls", Class(e, o)>>>>
    ELSE Differ(After(e)[e.h].arr = o.d.arr, "kind", o.d.arr)
         \o Differ(After(e)[e.h].root = o.d.root, "doc", o.d.root)

JudgeText(e, o) ==
    KeepAll(e) \o
    IF e.r.c # Class(e, o) THEN <<<<l, "cls", Class(e, o)>>>>
    ELSE IF o.c = "ok" THEN Differ(e.r.v = o.v, "out", o.v) ELSE <<>>

JudgeParse(e) ==
    LET p == Parse(e.path) IN
    IF e.r.c # p[1] THEN <<<<l, "cls", p[1]>>>>
    ELSE IF p[1] = "err" THEN Differ(e.r.code = -6, "code", -6)
    ELSE Differ(e.r.p = p[2], "keys", p[2])

\* e.adds: the groups of keys that were added, one after the other
JudgeAddAll(e) ==
    LET RECURSIVE Add(_, _)
        Add(ps, i) == IF i > Len(e.adds) THEN ps ELSE Add(Extend(ps, e.adds[i]), i + 1)
        start == IF "path" \in DOMAIN e THEN Parse(e.path)                          \* what is extended may come from a text
                 ELSE IF "base" \in DOMAIN e                                       \* or be parts of one and the same path
                      THEN <<"ok", [i \in DOMAIN e.lens |-> SubSeq(e.base, 1, e.lens[i])]>> ELSE <<"ok", <<>>>>
        want == Add(start[2], 1)
    IN IF start = BadPath THEN Differ(e.r.c = "err", "cls", "err")
       ELSE IF e.r.c # "ok" THEN <<<<l, "cls", "ok">>>> ELSE Differ(e.r.p = want, "keys", want)

(* --------------------------------------------------------- runs of scripts --- *)
\* run: [on, h, root, pending (set of <<place, queue>>), doomed, code (of a failed script, 1 if none), lost,
\*       logs (the console output that is still to come, and from which scope)]
Executed(r, en) == ExecutedBy(r, en, FT, ST)
\* scripts which do not announce that they run have the empty identity: they run as soon as they can
Announced(en) == TableKey(en[2][1][2]) \notin DOMAIN ST \/ ST[TableKey(en[2][1][2])].id # ""
Silent(r, en) == /\ ~Announced(en)
                 /\ RunOne(Follow(r.root, en[1]), en[2][1][1], en[2][1][2], en[1], FT, ST).class = "ok"
\* nothing is known about what this script does
Unknown(r, en) == RunOne(Follow(r.root, en[1]), en[2][1][1], en[2][1][2], en[1], FT, ST).class = "unspec" /\ (TableKey(en[2][1][2]) \notin DOMAIN ST \/ ~Announced(en))
RECURSIVE Settle(_)
Settle(r) == IF r.lost \/ r.code # 1 THEN r
             ELSE IF \E en \in r.pending : Unknown(r, en) THEN [r EXCEPT !.lost = TRUE]
             ELSE LET q == {en \in r.pending : Silent(r, en)} IN
                  IF q = {} THEN r ELSE Settle(Executed(r, CHOOSE en \in q : TRUE))
StartRun(e) == Settle(Started(docs[e.h].root) @@ [on |-> TRUE, h |-> e.h, logs |-> <<>>, failed |-> ""])

IdOf(src)    == IF TableKey(src) \in DOMAIN ST THEN ST[TableKey(src)].id ELSE "?"
\* pending entries whose next script has the given identity and whose scope reads as the given text
Fitting(e)   == {en \in run.pending : ScopeText(en[1]) = e.scope /\ IdOf(en[2][1][2]) = e.id}
\* is the script still to run, but not yet at this point?
Later(e)     == \E en \in run.pending :
                  \/ \E i \in 2 .. Len(en[2]) : IdOf(en[2][i][2]) = e.id
                  \/ LET s == Follow(run.root, en[1]) IN
                     \E p \in Places(s) : LET x == Follow(s, p) IN x[1] \in {"s", "f"} /\ IsScript(x) /\ IdOf(x) = e.id

\* what the report of a script that failed has in it: the scope of the script, or what a callback panicked with
Report(code, lang, e) == IF code = -1 \/ (code = -5 /\ lang = "js") THEN "script <" \o e.scope \o ">:"
                         ELSE IF lang = "go" /\ LET ops == Range(ST["f:" \o e.id].ops) IN <<"throw">> \in ops /\ {o[1] : o \in ops} \subseteq {"set", "del", "count", "scope", "copy", "throw"} THEN "thrown by " \o e.id
                         ELSE ""
HasText(s, t) == \E i \in 1 .. Len(s) - Len(t) + 1 : SubSeq(s, i, i + Len(t) - 1) = t
ExecEvent(e) ==
    IF run.lost \/ ~run.on THEN [run |-> run, bad |-> <<>>]
    ELSE IF run.code # 1 \/ Fitting(e) = {} THEN
        [run |-> [run EXCEPT !.lost = TRUE],
         bad |-> <<<<l, IF run.code # 1 THEN "after-fail"
                        ELSE IF \E en \in run.pending : IdOf(en[2][1][2]) = e.id THEN "scope"
                        ELSE IF Later(e) THEN "order" ELSE "once", run.pending>>>>]
    ELSE LET en    == CHOOSE x \in Fitting(e) : TRUE
             place == en[1]
             head  == en[2][1]
             scope == Follow(run.root, place)
             next  == Executed(run, en)
             fails == next.code # 1 /\ (LangOf(head[2]) = "go" \/ (LangOf(head[2]) = "js" /\ HasCallback(scope)))
             logs  == IF fails \/ LangOf(head[2]) # "js" \/ TableKey(head[2]) \notin DOMAIN ST THEN <<>>
                      ELSE Logs(ST[TableKey(head[2])].ops, scope, place, FT)
         IN [run |-> Settle([next EXCEPT !.logs = logs, !.failed = IF next.code = 1 THEN "" ELSE Report(next.code, LangOf(head[2]), e)]),
             bad |-> Differ(e.seen = scope, "seen", scope)
                     \o Differ(e.hdr = e.scope, "attr", e.scope)
                     \o Differ(run.logs = <<>>, "log", run.logs)]

LogEvent(e) ==
    IF run.lost \/ ~run.on THEN [run |-> run, bad |-> <<>>]
    ELSE IF run.logs = <<>> THEN [run |-> run, bad |-> <<<<l, "log", "nothing">>>>]
    ELSE LET x == run.logs[1] IN
         [run |-> [run EXCEPT !.logs = Tail(run.logs)],
          bad |-> Differ(/\ e.stream = x.stream
                         /\ e.word = (IF x.stream = "out" THEN "Print" ELSE "Error")
                         /\ e.lines = [i \in 1 .. Len(x.lines) |-> "\t" \o x.lines[i]], "log", x)
                  \o Differ(e.hdr = x.scope, "attr", x.scope)]

\* codes with which the run may fail although the script that ran last did not fail
Failing == (IF run.doomed THEN {-2} ELSE {})
           \cup {RunOne(Follow(run.root, en[1]), en[2][1][1], en[2][1][2], en[1], FT, ST).code :
                   en \in {x \in run.pending : LET g == LangOf(x[2][1][2]) IN
                             g = "go" \/ ~Announced(x) \/ (g = "js" /\ HasCallback(Follow(run.root, x[1])))}}
EndEvent(e) ==
    IF run.lost THEN Others(e, {e.h})
    ELSE Others(e, {e.h}) \o Differ(run.logs = <<>>, "log", run.logs) \o
         (IF run.code # 1 THEN
             IF e.r.c # "panic" THEN <<<<l, "cls", "panic">>>>
             ELSE Differ(run.code = AnyCode \/ e.r.code = run.code, "code", run.code)
                  \o (IF run.failed = "" \/ "text" \notin DOMAIN e.r THEN <<>> ELSE Differ(HasText(e.r.text, run.failed), "named", run.failed))
                  \o (IF run.code # -1 THEN <<>>
                      ELSE Differ(e.r.ms >= DelayMs, "early", DelayMs) \o Differ(e.r.ms <= DelayMs + Slack, "late", DelayMs))
          ELSE IF Failing # {} THEN
             IF e.r.c # "panic" THEN <<<<l, "cls", "panic">>>> ELSE Differ(e.r.code \in Failing \/ AnyCode \in Failing, "code", Failing)
          ELSE IF e.r.c # "ok" THEN <<<<l, "cls", "ok">>>>
          ELSE IF run.pending # {} THEN <<<<l, "missed", run.pending>>>>
          ELSE Differ(After(e)[e.h].root = run.root, "doc", run.root)
               \o Differ(After(e)[e.h].arr = docs[e.h].arr, "kind", docs[e.h].arr))

(* Eval, when the scripts executed are of no interest *)
JudgeEval(e) ==
    LET o == Eval(e.val, FT, ST) IN
    IF o.c = "unspec" THEN <<>>
    ELSE IF e.r.c # o.c THEN <<<<l, "cls", o.c>>>>
    ELSE IF o.c = "ok" THEN Differ(e.r.v = o.v, "out", o.v)
    ELSE Differ(e.r.outlen = 0, "partial", 0)
         \o (IF o.v # <<>> /\ Len(e.codes) > 0 THEN Differ(e.r.code \in {e.codes[i] : i \in 1 .. Len(e.codes)}, "code", e.codes) ELSE <<>>)

(* A filter that does not end: the operation fails because of it, after the halting delay of filters *)
FilterDelayMs == 1000
Ending == [t \in DOMAIN FT |-> IF FT[t][1] = "raw" /\ FT[t][3] = "h" THEN <<"raw", t, "t">> ELSE FT[t]]
Halts(e) == /\ \E t \in DOMAIN FT : FT[t][1] = "raw" /\ FT[t][3] = "h"
            /\ (IF e.op = "get" THEN Get(docs[e.h], e.path, FT).c = "err" /\ Get(docs[e.h], e.path, Ending).c = "ok"
                ELSE IF e.op = "set" THEN Set(docs[e.h], e.path, e.val, FT).c = "err" /\ Set(docs[e.h], e.path, e.val, Ending).c = "ok"
                ELSE IF e.op = "del" THEN Set(docs[e.h], e.path, Delete, FT).c = "err" /\ Set(docs[e.h], e.path, Delete, Ending).c = "ok"
                ELSE FALSE)
Timing(e) == IF ~Halts(e) THEN <<>>
             ELSE Differ(e.r.ms >= FilterDelayMs, "early", FilterDelayMs) \o Differ(e.r.ms <= FilterDelayMs + Slack, "late", FilterDelayMs)

JudgeCli(e) ==
    LET x == Call(e, FT, ST) IN
    IF x.code = -1 THEN <<>>
    ELSE IF e.r.code # x.code THEN <<<<l, "exit", x.code>>>>
    ELSE IF ~e.r.told \/ \E i \in 1 .. Len(x.out) : x.out[i][1] \notin {"m", "a"} THEN <<>>      \* not told apart by the driver
    ELSE Differ(e.r.v = x.out, "out", x.out)

(* -------------------------------------------------------------- the steps --- *)
D(e) == docs[e.h]
Judge(e) ==
    CASE e.op = "get"     -> JudgeRead(e, Get(D(e), e.path, FT))
      [] e.op = "resolve" -> JudgeResolve(e, Get(D(e), e.path, FT))
      [] e.op = "getabs"  -> JudgeRead(e, GetAbs(D(e), e.paths, FT))
      [] e.op = "set"     -> JudgeWrite(e, Set(D(e), e.path, e.val, FT))
      [] e.op = "setabs"  -> JudgeWrite(e, SetAbs(D(e), e.paths, e.val, FT))
      [] e.op = "del"     -> JudgeWrite(e, Set(D(e), e.path, Delete, FT))
      [] e.op = "delabs"  -> JudgeWrite(e, SetAbs(D(e), e.paths, Delete, FT))
      [] e.op = "push"    -> JudgeWrite(e, Push(D(e), e.path, e.val, e.idx, FT))
      [] e.op = "pop"     -> JudgeWrite(e, Pop(D(e), e.path, e.idx, FT))
      [] e.op = "load"    -> JudgeDoc(e, Load(D(e), e.val))
      [] e.op = "badload" -> JudgeDoc(e, Out(D(e), "err", <<>>))
      [] e.op = "strip"   -> JudgeDoc(e, Strip(D(e)))
      [] e.op = "markup"  -> JudgeWrite(e, Markup(D(e), e.path, e.lang, e.src, FT))
      [] e.op = "clone"   -> LET c == Clone(docs[e.from], e.clear) IN
                             Others(e, {e.h}) \o Differ(After(e)[e.h].arr = c.arr, "kind", c.arr)
                             \o Differ(After(e)[e.h].root = c.root, "doc", c.root)
      [] e.op = "find"    -> JudgeText(e, Find(D(e)))
      [] e.op = "marshal" -> JudgeText(e, Marshal(D(e)))
      [] e.op = "string"  -> JudgeText(e, Marshal(D(e)))
      [] e.op = "poke"    -> Others(e, {})
      [] e.op = "parse"   -> JudgeParse(e)
      [] e.op = "addall"  -> JudgeAddAll(e)
      [] e.op = "eval"    -> JudgeEval(e)
      [] e.op = "runend"  -> EndEvent(e)
      [] e.op = "cli"     -> JudgeCli(e)
      [] e.op = "quiet"   -> LET never == IF "never" \in DOMAIN e THEN e.never ELSE 0 IN      \* callbacks that never return
                             Differ(e.r.left = never, "leak", never)
      [] OTHER -> <<<<l, "event", e.op>>>>

TraceInit == /\ Init /\ l = 1 /\ tab = 1 /\ run = Idle /\ bad = <<>>

Say(b) == \A i \in 1 .. Len(b) : PrintT("@@BAD " \o ToJson([line |-> b[i][1], aspect |-> b[i][2], expected |-> ToString(b[i][3])]))
\* a text without its white space (which a filter may have anywhere between its parts)
Unblanked(s) == FoldLeft(LAMBDA acc, i : IF Ch(s, i) \in {" ", "\t", "\n", "\r"} THEN acc ELSE acc \o Ch(s, i), "", [i \in 1 .. Len(s) |-> i])
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ UNCHANGED last
    /\ LET e == Trace[l] IN
       CASE e.op = "reset" ->
              /\ \A t \in DOMAIN e.ft : Assert(Unblanked(FilterText(e.ft[t])) = Unblanked(t), <<"the filter table is wrong", t>>)
              /\ tab' = l /\ docs' = e.docs /\ run' = Idle /\ UNCHANGED bad
         [] e.op = "runstart" -> /\ run' = StartRun(e) /\ UNCHANGED <<docs, tab, bad>>
         [] e.op = "exec" -> LET x == ExecEvent(e) IN
              /\ run' = x.run /\ bad' = bad \o [i \in 1 .. Len(x.bad) |-> <<l, x.bad[i][2]>>]
              /\ Say(x.bad) /\ UNCHANGED <<docs, tab>>
         [] e.op = "log" -> LET x == LogEvent(e) IN
              /\ run' = x.run /\ bad' = bad \o [i \in 1 .. Len(x.bad) |-> <<l, x.bad[i][2]>>]
              /\ Say(x.bad) /\ UNCHANGED <<docs, tab>>
         [] e.r.c \in {"crash", "hang"} -> \* the process died or did not answer: nothing more of this history
              /\ Say(<<<<l, e.r.c, "an answer">>>>) /\ bad' = Append(bad, <<l, e.r.c>>)
              /\ run' = Idle /\ UNCHANGED <<docs, tab>>
         [] OTHER -> LET b == Judge(e) \o Timing(e) IN
              /\ bad' = bad \o [i \in 1 .. Len(b) |-> <<l, b[i][2]>>]
              /\ Say(b)
              /\ docs' = After(e) /\ run' = Idle /\ UNCHANGED tab
TraceSpec == TraceInit /\ [][TraceNext]_tvars

(* every line was consumed *)
TraceRead == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
