----------------------------- MODULE MC_Shebang ----------------------------
(* Which strings are scripts: every string within a few edits of a shebang line,   *)
(* judged by another formulation than that of JScripts, and what searching,         *)
(* stripping and running make of it wherever in a document it is.                  *)
EXTENDS JDom, Json, IOUtils

CONSTANTS Edits,         \* how many
          Sample, Salt   \* one in how many strings is performed on the implementation
Given   == JsonDeserialize(IOEnv.MC_IN)
Chars   == {Ch(Given.alphabet, i) : i \in 1 .. Len(Given.alphabet)}
Seeds   == Range(Given.seeds)

VARIABLES text, left
mcvars == <<text, left>>
Cut(s, i)     == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Into(s, i, c) == SubSeq(s, 1, i - 1) \o c \o SubSeq(s, i, Len(s))
Over(s, i, c) == SubSeq(s, 1, i - 1) \o c \o SubSeq(s, i + 1, Len(s))
Edited(s) == {Cut(s, i) : i \in 1 .. Len(s)} \cup {Into(s, i, c) : i \in 1 .. Len(s) + 1, c \in Chars}
             \cup {Over(s, i, c) : i \in 1 .. Len(s), c \in Chars}
             \cup {SubSeq(s, 1, i) : i \in 0 .. Len(s)} \cup {Into(Cut(s, i), i + 1, Ch(s, i)) : i \in 1 .. Len(s) - 1}
MCInit == text \in Seeds /\ left = Edits /\ docs = <<>> /\ last = <<>>
MCNext == /\ left > 0 /\ left' = left - 1 /\ UNCHANGED vars
          /\ text' \in Edited(text)
MCSpec == MCInit /\ [][MCNext]_<<text, left, vars>>
View   == text

(* ------------------------------------------------------------------- laws --- *)
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
LineOf(p)    == text = p \/ Starts(text, p \o "\n")          \* the first line is p
Supported    == LineOf("#//!js") \/ LineOf("#//!go")
\* two characters which are no supported language
ForeignLines == TLCEval({"#//!" \o a \o b : a, b \in (Chars \cup {"j", "s", "g", "o", "p", "y"}) \ {"\n"}} \ {"#//!js", "#//!go"})
Foreign      == text \in ForeignLines \/ \E i \in 1 .. Len(text) : Ch(text, i) = "\n" /\ SubSeq(text, 1, i - 1) \in ForeignLines
Recognised == /\ IsScript(Str(text)) <=> Supported
              /\ LangOf(Str(text)) = "bad" <=> Foreign
              /\ LangOf(Str(text)) = "no" <=> ~Supported /\ ~Foreign
\* as a property at the root and within an array and an object, as an element, and as a name
Plain   == Map("x" :> Num(1))
D(v)    == [root |-> v, arr |-> FALSE]
At1     == D(Put(Plain, "k", Str(text)))
At2     == D(Put(Plain, "l", Arr(<<Num(1), Put(Plain, "k", Str(text))>>)))
At3     == D(Put(Plain, "o", Map("p" :> Put(Plain, "k", Str(text)))))
AtList  == D(Put(Plain, "l", Arr(<<Str(text), Arr(<<Str(text)>>)>>)))
AtName  == D(Put(Plain, text, Num(2)))
Searched == /\ \A d \in {At1, At2, At3} : LET f == Find(d) IN
                 IF Foreign THEN f.c = "err" ELSE f.c = "ok" /\ f.v = Supported
            /\ \A d \in {AtList, AtName} : LET f == Find(d) IN f.c = "ok" /\ ~f.v
Cleaned  == \A d \in {At1, At2, At3} : LET s == Strip(d) IN
                 IF Foreign THEN s.c = "err" /\ s.d = d
                 ELSE s.c = "ok" /\ (IF Supported THEN ~HasScript(s.d.root) /\ Follow(s.d.root, <<<<"S", "x">>>>) = Num(1) ELSE s.d = d)
Untouched== \A d \in {AtList, AtName} : Strip(d).d = d /\ Strip(d).c = "ok"
                 /\ Run(d, NoKeys, NoKeys).d = d /\ Run(d, NoKeys, NoKeys).c = "ok"
Ran      == \A d \in {At1, At2, At3} : LET r == Run(d, NoKeys, NoKeys) IN
                 IF Foreign THEN r.c = "err" /\ r.v = <<-2>>
                 ELSE IF LineOf("#//!go") THEN r.c = "err" /\ r.v = <<-5>>
                 ELSE IF Supported THEN r.c = "unspec"
                 ELSE r.c = "ok" /\ r.d = d
Hash(s) == LET RECURSIVE H(_)
               H(i) == IF i = 0 THEN Salt ELSE (H(i - 1) * 31 + OrdOf(Ch(s, i))) % 100003 IN H(Len(s))
Emitted == (left > 0 \/ Hash(text) % Sample = 0 \/ ((Supported \/ Foreign) /\ Hash(text) % (1 + Sample \div 6) = 0)) => PrintT("@@OP " \o ToJson([text |-> text]))
=============================================================================
