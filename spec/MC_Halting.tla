----------------------------- MODULE MC_Halting ----------------------------
(* The halting delay: what runs a script, a callback or a filter, what watches     *)
(* over it, and what is left of both when it is over. Time is in units of which     *)
(* the halting delay has Delay; nothing happens between two events, so time goes    *)
(* from one to the next.                                                           *)
(*                                                                                *)
(* hist is what is performed: a sequence of operations (a run of scripts, or a read *)
(* with a filter), each <<lang, durations>>: one duration for each script or, for a  *)
(* filter, for each node, one after the other. An operation ends with the first of   *)
(* them that is halted.                                                             *)
(*                                                                                *)
(* Fault makes a mistake on purpose: the laws have to notice.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization

CONSTANTS Delay, MostOps, MostParts, NHist, Langs, Fault
Never  == 1000
Langs_ == LET l == JsonDeserialize(IOEnv.MC_IN).langs IN {l[i] : i \in 1 .. Len(l)}
Kinds == {0, Delay - 1, Delay + 2, Never}
ASSUME Delay >= 2

VARIABLES hist, op, part,      \* what is performed, and how far that is
          phase,               \* "idle": between parts, "running", "over"
          now, began, first,   \* the time, when the part began, when the operation began
          live,                \* the goroutines besides: [id, what, at], at: when they are done sleeping or working
          chan,                \* what was sent to the channel of the part that is running, and to those before it: id -> messages
          res                  \* what became of the parts: [op, part, dur, took, c]
vars == <<hist, op, part, phase, now, began, first, live, chan, res>>

Parts == UNION {[1 .. n -> Kinds] : n \in 1 .. MostParts}
Ops   == {<<l, d>> : l \in Langs, d \in Parts}
RandomHist(i) == [j \in 1 .. RandomElement(1 .. MostOps) |-> RandomElement(Ops)]
Hists == TLCEval({RandomHist(i) : i \in 1 .. NHist})

Lang == hist[op][1]
Dur  == hist[op][2][part]
Id   == <<op, part>>
(* how many messages the channel keeps that nobody is waiting for *)
Capacity(lang) == IF Fault = "unbuffered" THEN 0 ELSE IF lang = "go" /\ Fault # "one place" THEN 2 ELSE 1

Init == /\ hist \in Hists
        /\ op = 1 /\ part = 1 /\ phase = "idle" /\ now = 0 /\ began = 0 /\ first = 0 /\ live = {} /\ chan = <<>> /\ res = <<>>

\* a part begins, with something to watch over it
From  == IF Fault = "one delay for all" /\ part > 1 THEN first ELSE now
Watch == [id |-> Id, lang |-> Lang, what |-> "watch", at |-> From + Delay - (IF Fault = "early" THEN 2 ELSE 0)]
Start == /\ phase = "idle" /\ phase' = "running"
         /\ began' = now /\ first' = IF part = 1 THEN now ELSE first
         /\ live' = live \cup (IF Fault = "unwatched" /\ part > 1 THEN {} ELSE {Watch})
                         \cup (IF Lang = "go" THEN {[id |-> Id, lang |-> Lang, what |-> "call", at |-> IF Dur = Never THEN Never ELSE now + Dur]} ELSE {})
         /\ chan' = (Id :> <<>>) @@ chan
         /\ UNCHANGED <<hist, op, part, now, res>>

\* somebody is reading from the channel of g
Reading(g) == phase = "running" /\ g.id = Id /\ chan[Id] = <<>>
CanSend(g) == g.at # Never /\ g.at <= now /\ (Len(chan[g.id]) < Capacity(g.lang) \/ Reading(g))
Send(g) == /\ CanSend(g)
           /\ chan' = [chan EXCEPT ![g.id] = Append(@, g.what)]
           /\ live' = live \ {g}
           /\ UNCHANGED <<hist, op, part, phase, now, began, first, res>>

Ready(c) == CASE Lang = "go" -> chan[Id] # <<>> /\ c = (IF chan[Id][1] = "call" THEN "ok" ELSE "halted")
              [] OTHER -> IF chan[Id] # <<>> THEN c = "halted" ELSE c = "ok" /\ Dur # Never /\ now >= began + Dur
After(c) == IF c = "ok" /\ part < Len(hist[op][2]) THEN <<op, part + 1>> ELSE <<op + 1, 1>>
Over  == {g \in live : g.id = Id /\ g.what = "watch" /\ Lang = "filter"}          \* a timer that is stopped
Finish == /\ phase = "running"
          /\ \E c \in {"ok", "halted"} :
                /\ Ready(c)
                /\ res' = Append(res, [op |-> op, part |-> part, lang |-> Lang, dur |-> Dur, took |-> now - began, c |-> c])
                /\ op' = After(c)[1] /\ part' = After(c)[2]
                /\ phase' = IF After(c)[1] > Len(hist) THEN "over" ELSE "idle"
          /\ live' = IF Fault = "not stopped" THEN live ELSE live \ Over
          /\ UNCHANGED <<hist, now, began, first, chan>>

\* time goes on when there is nothing else to do
Ends == {g.at : g \in {x \in live : x.at # Never}} \cup (IF phase = "running" /\ Lang # "go" /\ Dur # Never THEN {began + Dur} ELSE {})
Tick == /\ phase # "idle"
        /\ phase = "running" => \A c \in {"ok", "halted"} : ~Ready(c)
        /\ \A g \in live : ~CanSend(g)
        /\ \E t \in Ends : t > now /\ (\A x \in Ends : x > now => t <= x) /\ now' = t
        /\ UNCHANGED <<hist, op, part, phase, began, first, live, chan, res>>

Next == Start \/ (\E g \in live : Send(g)) \/ Finish \/ Tick
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ------------------------------------------------------------------- laws --- *)
Results  == {res[i] : i \in 1 .. Len(res)}
NotEarly == \A r \in Results : r.c = "halted" => r.took >= Delay
Soon     == \A r \in Results : r.took <= Delay
\* what ends within the delay completes, wherever it is in its operation and whatever was before
InTime   == \A r \in Results : (r.dur < Delay) = (r.c = "ok")
\* nothing of an operation is executed after something of it was halted, and all of the others are
AllOf    == phase = "over" => \A o \in 1 .. Len(hist) :
               LET ds   == hist[o][2]
                   bad  == {i \in 1 .. Len(ds) : ds[i] > Delay}
                   upto == IF bad = {} THEN Len(ds) ELSE CHOOSE i \in bad : \A k \in bad : i <= k IN
               {r.part : r \in {x \in Results : x.op = o}} = 1 .. upto
\* what watches is gone when the delay is over, at the latest
NoWatch  == \A g \in live : g.what = "watch" => now <= g.at
\* once everything has come to rest only callbacks that never return are left
Quiet    == phase = "over" /\ (\A g \in live : ~CanSend(g)) /\ (\A t \in Ends : t <= now)
NoLeak   == Quiet => \A g \in live : g.what = "call" /\ g.at = Never
\* with a filter nothing is left at all
Stopped  == phase = "over" => \A g \in live : g.lang # "filter"
\* every operation returns
Answers  == <>(phase = "over")

\* how many goroutines are left in the end
Emitted == Quiet => PrintT("@@OP " \o ToJson([hist |-> hist, never |-> Cardinality(live)]))
=============================================================================
