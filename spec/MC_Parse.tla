------------------------------ MODULE MC_Parse -----------------------------
(* The JSON path language once more, as a machine that reads a text one           *)
(* character at a time, and how it agrees with the parser of JPath on every text   *)
(* within bounds. A text that the machine has given up on is not a JSON path       *)
(* whatever follows.                                                              *)
(* Besides: sets of paths that are extended by keys, again and again.              *)
EXTENDS JPath, Json, IOUtils

CONSTANTS Longest,     \* how many characters to add to the texts to start from
          Sample, Salt \* one in how many texts is performed on the implementation

(* The machine. q.m is what it is reading:                                         *)
(*   start: the $    gap: between keys    dots: q.n dots    name, rname: a name     *)
(*   open: after [   star: [*   ask: [?   neg, num, colon, neg2, num2: the numbers  *)
(*   of brackets     comma, cnum: further indices    filter    end: blanks    dead  *)
(* q.keys: the alternatives for each key so far; q.t the text of the key so far;    *)
(* q.lo, q.is what its numbers are; q.depth and q.quote: within a filter; q.n: dots, a   *)
(* negative start of a slice (which has no end), or where a quote opened           *)
Fresh == [m |-> "start", keys |-> <<>>, t |-> "", n |-> 0, lo |-> OpenEnd, is |-> <<>>, depth |-> 0, quote |-> ""]
Dead(q)      == [Fresh EXCEPT !.m = "dead"]
Unknown(q)   == [Fresh EXCEPT !.m = "unknown"]         \* a filter whose brackets do not match
To(q, m)     == [q EXCEPT !.m = m]
More(q, m, c)== [q EXCEPT !.m = m, !.t = @ \o c]
Keyed(q, a)  == [Fresh EXCEPT !.m = "gap", !.keys = Append(q.keys, a)]
Value(t)     == IF SubSeq(t, 1, 1) = "-" THEN 0 - ToNat(t, 2, Len(t) + 1) ELSE ToNat(t, 1, Len(t) + 1)
Dotted(q)    == [Fresh EXCEPT !.m = "after", !.keys = q.keys \o [i \in 1 .. IF q.n > 2 THEN q.n - 2 ELSE 0 |-> <<<<"D", "">>>>]]
Named(q)     == Keyed(q, <<<<IF q.m = "rname" THEN "R" ELSE "S", q.t>>>>)

RECURSIVE Reads(_, _)
Reads(q, c) ==
    CASE q.m = "start" -> IF c = "$" THEN To(q, "gap") ELSE Dead(q)
      [] q.m = "end"   -> IF c \in Blanks THEN q ELSE Dead(q)
      [] q.m = "gap"   -> IF c = "." THEN [q EXCEPT !.m = "dots", !.n = 1]
                          ELSE IF c = "[" THEN To(q, "open") ELSE IF c \in Blanks THEN To(q, "end") ELSE Dead(q)
      [] q.m = "dots"  -> IF c = "." THEN [q EXCEPT !.n = @ + 1]
                          ELSE IF q.n = 2 /\ c \in Letters THEN More(q, "rname", c)
                          ELSE Reads(Dotted(q), c)
      [] q.m = "after" -> IF c = "*" THEN Keyed(q, <<<<"W", "">>>>)
                          ELSE IF c \in Letters THEN More(q, "name", c)
                          ELSE IF c = "[" THEN To(q, "open") ELSE IF c \in Blanks THEN To(q, "end") ELSE Dead(q)
      [] q.m \in {"name", "rname"} -> IF c \in NameRest THEN More(q, q.m, c) ELSE Reads(Named(q), c)
      [] q.m = "open"  -> IF c = "*" THEN To(q, "star") ELSE IF c = "?" THEN To(q, "ask") ELSE IF c = ":" THEN To(q, "colon")
                          ELSE IF c = "-" THEN More(q, "neg", c) ELSE IF c \in Digits THEN More(q, "num", c) ELSE Dead(q)
      [] q.m = "star"  -> IF c = "]" THEN Keyed(q, <<<<"W", "">>>>) ELSE Dead(q)
      [] q.m = "neg"   -> IF c \in Digits THEN More(q, "num", c) ELSE Dead(q)
      [] q.m = "num"   -> IF c \in Digits THEN More(q, "num", c)
                          ELSE IF c = "]" THEN Keyed(q, <<<<"I", Value(q.t)>>>>)
                          ELSE IF c = ":" THEN [q EXCEPT !.m = "colon", !.lo = Num(Value(q.t)), !.n = IF SubSeq(q.t, 1, 1) = "-" THEN 1 ELSE 0, !.t = ""]
                          ELSE IF c = "," /\ SubSeq(q.t, 1, 1) # "-" THEN [q EXCEPT !.m = "comma", !.is = <<<<"I", Value(q.t)>>>>, !.t = ""]
                          ELSE Dead(q)
      [] q.m = "colon" -> IF c = "]" /\ q.lo # OpenEnd THEN Keyed(q, <<<<"L", q.lo, OpenEnd>>>>)
                          ELSE IF c = "-" /\ q.lo = OpenEnd THEN More(q, "neg2", c)
                          ELSE IF c \in Digits /\ (q.lo = OpenEnd \/ q.n = 0) THEN More(q, "num2", c) ELSE Dead(q)
      [] q.m = "neg2"  -> IF c \in Digits THEN More(q, "num2", c) ELSE Dead(q)
      [] q.m = "num2"  -> IF c \in Digits THEN More(q, "num2", c)
                          ELSE IF c = "]" THEN Keyed(q, <<<<"L", q.lo, Num(Value(q.t))>>>>) ELSE Dead(q)
      [] q.m = "comma" -> IF c \in Blanks /\ q.t = "" THEN q ELSE IF c \in Digits THEN More(q, "cnum", c) ELSE Dead(q)
      [] q.m = "cnum"  -> IF c \in Digits THEN More(q, "cnum", c)
                          ELSE IF c = "]" THEN Keyed(q, q.is \o <<<<"I", Value(q.t)>>>>)
                          ELSE IF c = "," THEN [q EXCEPT !.m = "comma", !.is = Append(@, <<"I", Value(q.t)>>), !.t = ""] ELSE Dead(q)
      [] q.m = "ask"   -> IF c = "(" THEN [q EXCEPT !.m = "filter", !.depth = 2] ELSE Dead(q)
      [] q.m = "filter"->
            IF q.quote = "\\" THEN [More(q, "filter", c) EXCEPT !.quote = SubSeq(q.t, q.n, q.n)]    \* q.n: where the quote opened
            ELSE IF q.quote # "" THEN IF c = "\\" THEN [More(q, "filter", c) EXCEPT !.quote = "\\"]
                                      ELSE [More(q, "filter", c) EXCEPT !.quote = IF c = q.quote THEN "" ELSE q.quote]
            ELSE IF c \in {"\"", "'"} THEN [More(q, "filter", c) EXCEPT !.quote = c, !.n = Len(q.t) + 1]
            ELSE IF c \in {"(", "["} THEN [More(q, "filter", c) EXCEPT !.depth = @ + 1]
            ELSE IF c = "]" /\ q.depth = 1 THEN
                    IF SubSeq(q.t, Len(q.t), Len(q.t)) = ")" THEN Keyed(q, <<<<"F", SubSeq(q.t, 1, Len(q.t) - 1)>>>>) ELSE Unknown(q)
            ELSE IF c = ")" /\ q.depth = 1 THEN Unknown(q)
            ELSE IF c \in {")", "]"} THEN [More(q, "filter", c) EXCEPT !.depth = @ - 1]
            ELSE More(q, "filter", c)
      [] OTHER -> q
RECURSIVE ReadsAll(_, _)
ReadsAll(q, s) == IF s = "" THEN q ELSE ReadsAll(Reads(q, SubSeq(s, 1, 1)), SubSeq(s, 2, Len(s)))


\* the alternatives of the whole text if it is a JSON path and ends here
Accepts(q) == q.m \in {"gap", "end", "dots", "after", "name", "rname"}
KeysOf(q)  == IF q.m \in {"name", "rname"} THEN Named(q).keys ELSE IF q.m = "dots" THEN Dotted(q).keys ELSE q.keys
\* the n-th (from 0) combination of alternatives
RECURSIVE Times(_)
Times(ks) == IF ks = <<>> THEN 1 ELSE Len(ks[1]) * Times(Tail(ks))
Combination(ks, n) == [j \in 1 .. Len(ks) |-> ks[j][((n \div Times(SubSeq(ks, j + 1, Len(ks)))) % Len(ks[j])) + 1]]
Combinations(ks) == IF ks = <<>> THEN <<>> ELSE [n \in 1 .. Times(ks) |-> Combination(ks, n - 1)]

Given    == JsonDeserialize(IOEnv.MC_IN)
Alphabet == Given.alphabet               \* the characters, one text
Starts == Range(Given.prefixes)        \* the texts to start from
VARIABLES text, q, left
vars == <<text, q, left>>
Chars == {Ch(Alphabet, i) : i \in 1 .. Len(Alphabet)}
Init == text \in Starts /\ q = ReadsAll(Fresh, text) /\ left = Longest
Next == /\ left > 0
        /\ q.m \notin {"dead", "unknown"}
        /\ \E c \in Chars : text' = text \o c /\ q' = Reads(q, c) /\ left' = left - 1
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------- laws --- *)
Parsed     == Parse(text)
Accepted   == q.m \notin {"unknown", "filter"} => (Accepts(q) <=> Parsed # BadPath)
\* nothing that could close the filter
Unclosed   == q.m = "filter" /\ (\A i \in 1 .. Len(q.t) - 1 : SubSeq(q.t, i, i + 1) # ")]") => Parsed = BadPath
Understood == q.m # "unknown" /\ Accepts(q) => Parsed = <<"ok", Combinations(KeysOf(q))>>
GivenUp    == q.m = "dead" => \A more \in {"]", "a", ")]", "1]", " ", ".a", "$.a"} : Parse(text \o more) = BadPath
\* each path that a text stands for has a text of its own
RoundTrip  == q.m # "unknown" /\ Accepts(q) => \A i \in DOMAIN Parsed[2] : LET p == Parsed[2][i] IN
                 Writable(p) => Parse(PathText(p)) = <<"ok", <<p>>>>
\* what comes after a complete path only adds to its paths
Prefixed   == q.m = "gap" => \A k \in {".z", "[3]", "[4, 5]", "..z"} :
                 LET more == Parse(text \o k) IN more # BadPath /\ \A i \in DOMAIN more[2] :
                    LET p == more[2][i] IN (Parsed[2] = <<>> /\ Len(p) = 1) \/ SubSeq(p, 1, Len(p) - 1) \in Range(Parsed[2])
Hash(s) == LET RECURSIVE H(_)
               H(i) == IF i = 0 THEN Salt ELSE (H(i - 1) * 31 + OrdOf(Ch(s, i))) % 100003 IN H(Len(s))
Emitted == (Hash(text) % Sample = 0 \/ (Hash(text) % (1 + Sample \div 5) = 0 /\ Accepts(q))) => PrintT("@@OP " \o ToJson([path |-> text]))
=============================================================================
