------------------------------- MODULE JVal -------------------------------
(* JSON values and the text helpers that the other modules use.             *)
(*                                                                          *)
(* A JSON value is a tagged pair, so that TLC can compare any two of them:   *)
(*   <<"z", "">>      null            <<"b", TRUE>>    a boolean             *)
(*   <<"n", 7>>       an integer      <<"d", "1.5">>   any other number      *)
(*   <<"s", "x">>     a string        <<"f", "id">>    a Go callback         *)
(*   <<"a", <<..>>>>  an array        <<"m", [..]>>    an object             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Null   == <<"z", "">>
Bool(b)== <<"b", b>>
Num(n) == <<"n", n>>
Str(s) == <<"s", s>>
Arr(q) == <<"a", TLCEval(q)>>
Map(f) == <<"m", IF DOMAIN f = {} THEN <<>> ELSE TLCEval(f)>>
NoKeys == <<>>                      \* the empty function

Kind(v)  == v[1]
IsMap(v) == v[1] = "m"
IsArr(v) == v[1] = "a"
IsStr(v) == v[1] = "s"
IsBox(v) == v[1] = "m" \/ v[1] = "a"

Keys(v)     == DOMAIN v[2]
Has(v, k)   == k \in DOMAIN v[2]
At(v, k)    == v[2][k]
Elems(v)    == v[2]

Put(v, k, x)  == IF Has(v, k) THEN Map([v[2] EXCEPT ![k] = x])
                 ELSE IF DOMAIN v[2] = {} THEN Map(k :> x)
                 ELSE Map([q \in (DOMAIN v[2]) \cup {k} |-> IF q = k THEN x ELSE v[2][q]])
Drop(v, ks)   == LET rest == DOMAIN v[2] \ ks IN
                 IF rest = {} THEN Map(NoKeys) ELSE Map([q \in rest |-> v[2][q]])
PutAt(v, i, x)== Arr([v[2] EXCEPT ![i + 1] = x])         \* 0-based
Without(q, is)== LET RECURSIVE W(_)
                     W(i) == IF i > Len(q) THEN <<>>
                             ELSE (IF (i - 1) \in is THEN <<>> ELSE <<q[i]>>) \o W(i + 1)
                 IN W(1)

RECURSIVE HasCallback(_)
\* a Go callback somewhere in v: JSON has no text for it
HasCallback(v) == CASE v[1] = "f" -> TRUE
                    [] IsMap(v) -> \E k \in Keys(v) : HasCallback(At(v, k))
                    [] IsArr(v) -> \E i \in 1 .. Len(v[2]) : HasCallback(v[2][i])
                    [] OTHER -> FALSE

(* ---------------------------------------------------------------- text --- *)
AllChars == "\t\n\f\r !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~éñ中"
Ch(s, i)  == SubSeq(s, i, i)
Ord       == [c \in {Ch(AllChars, i) : i \in 1 .. Len(AllChars)} |->
                 CHOOSE i \in 1 .. Len(AllChars) : Ch(AllChars, i) = c]
OrdOf(c)  == IF c \in DOMAIN Ord THEN Ord[c] ELSE Len(AllChars) + 1

\* whether the order of a text is known here
Ordered(s) == \A i \in 1 .. Len(s) : Ch(s, i) \in DOMAIN Ord

RECURSIVE StrLessFrom(_, _, _)
StrLessFrom(a, b, i) ==
    IF i > Len(b) THEN FALSE
    ELSE IF i > Len(a) THEN TRUE
    ELSE LET x == OrdOf(Ch(a, i))  y == OrdOf(Ch(b, i)) IN
         IF x = y THEN StrLessFrom(a, b, i + 1) ELSE x < y
StrLess(a, b) == StrLessFrom(a, b, 1)

RECURSIVE InsertKey(_, _)
InsertKey(k, q) == IF q = <<>> THEN <<k>>
                   ELSE IF StrLess(k, q[1]) THEN <<k>> \o q
                   ELSE <<q[1]>> \o InsertKey(k, Tail(q))
RECURSIVE SortKeys(_)
SortKeys(S) == IF S = {} THEN <<>>
               ELSE IF Cardinality(S) = 1 THEN <<CHOOSE k \in S : TRUE>>
               ELSE LET k == CHOOSE k \in S : TRUE IN InsertKey(k, SortKeys(S \ {k}))

RECURSIVE InsertNum(_, _)
InsertNum(n, q) == IF q = <<>> THEN <<n>>
                   ELSE IF n < q[1] THEN <<n>> \o q ELSE <<q[1]>> \o InsertNum(n, Tail(q))
RECURSIVE SortNums(_)
SortNums(S) == IF S = {} THEN <<>>
               ELSE LET n == CHOOSE n \in S : TRUE IN InsertNum(n, SortNums(S \ {n}))


(* --------------------------------------------------------- occurrences --- *)
CountIn(q, x) == Cardinality({i \in 1 .. Len(q) : q[i] = x})
SameBag(p, q) == /\ Len(p) = Len(q)
                 /\ \A i \in 1 .. Len(p) : CountIn(p, p[i]) = CountIn(q, p[i])

(* every place in a value, as the sequence of keys and indices leading to it *)
RECURSIVE Places(_)
Places(v) ==
    {<<>>} \cup
    (IF IsMap(v) THEN UNION {{<<<<"S", k>>>> \o p : p \in Places(At(v, k))} : k \in Keys(v)}
     ELSE IF IsArr(v) THEN UNION {{<<<<"I", i - 1>>>> \o p : p \in Places(v[2][i])} : i \in 1 .. Len(v[2])}
     ELSE {})
RECURSIVE Follow(_, _)
Follow(v, p) == IF p = <<>> THEN v
                ELSE IF p[1][1] = "S" THEN
                        IF IsMap(v) /\ Has(v, p[1][2]) THEN Follow(At(v, p[1][2]), Tail(p)) ELSE <<"none", "">>
                ELSE IF IsArr(v) /\ p[1][2] + 1 \in 1 .. Len(v[2]) THEN Follow(v[2][p[1][2] + 1], Tail(p))
                     ELSE <<"none", "">>
RECURSIVE Replace(_, _, _)
Replace(v, p, x) == IF p = <<>> THEN x
                    ELSE IF p[1][1] = "S" THEN Put(v, p[1][2], Replace(At(v, p[1][2]), Tail(p), x))
                    ELSE PutAt(v, p[1][2], Replace(v[2][p[1][2] + 1], Tail(p), x))
RECURSIVE Size(_)
Size(v) == Cardinality(Places(v))
=============================================================================
