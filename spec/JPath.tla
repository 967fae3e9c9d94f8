------------------------------- MODULE JPath ------------------------------
(* The JSON path language: which texts are JSON paths, and which absolute    *)
(* paths (sequences of keys) a JSON path stands for.                         *)
(*                                                                          *)
(* A key is one of                                                          *)
(*   <<"S", name>>   property             <<"I", n>>      array index        *)
(*   <<"W", "">>     wildcard             <<"F", text>>   filter expression  *)
(*   <<"D", "">>     first descent        <<"R", name>>   recursive lookup   *)
(*   <<"L", lo, hi>> slice, each bound <<"n", n>> or the open end <<"e", "">> *)
(*   <<"E", "">>     an open end on its own (never produced by parsing)      *)
EXTENDS JVal

BadPath == <<"err", "">>            \* not a JSON path
NoTok   == <<>>                     \* not a token

Letters == {Ch("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_", i) : i \in 1 .. 53}
DigitOf == [c \in {"0","1","2","3","4","5","6","7","8","9"} |->
              CHOOSE d \in 0 .. 9 : ToString(d) = c]
Digits  == DOMAIN DigitOf
NameRest== Letters \cup Digits \cup {"-"}
Blanks  == {" ", "\t", "\n", "\f", "\r"}

Has1(s, i, S) == i <= Len(s) /\ Ch(s, i) \in S

(* index just after the longest run of characters of S that starts at i *)
RECURSIVE RunEnd(_, _, _)
RunEnd(s, i, S) == IF Has1(s, i, S) THEN RunEnd(s, i + 1, S) ELSE i

RECURSIVE ToNat(_, _, _)
ToNat(s, i, j) == IF j <= i THEN 0 ELSE ToNat(s, i, j - 1) * 10 + DigitOf[Ch(s, j - 1)]

(* numbers that do not fit are beyond what the specification describes *)
MaxDigits == 9

(* --- the bracket token starting at i: <<keys, next>> or NoTok ----------- *)
SignedEnd(s, i) == LET a == IF Has1(s, i, {"-"}) THEN i + 1 ELSE i
                       b == RunEnd(s, a, Digits)
                   IN IF b = a THEN 0 ELSE b           \* 0: no number here
Signed(s, i, j) == IF Ch(s, i) = "-" THEN 0 - ToNat(s, i + 1, j) ELSE ToNat(s, i, j)

RECURSIVE MoreIndices(_, _)
\* after a number: ", n" repeated; result <<indices, next>> or NoTok
MoreIndices(s, i) ==
    IF Has1(s, i, {"]"}) THEN <<<<>>, i + 1>>
    ELSE IF ~Has1(s, i, {","}) THEN NoTok
    ELSE LET a == RunEnd(s, i + 1, Blanks)
             b == RunEnd(s, a, Digits) IN
         IF b = a THEN NoTok
         ELSE LET more == MoreIndices(s, b) IN
              IF more = NoTok THEN NoTok
              ELSE <<<<<<"I", ToNat(s, a, b)>>>> \o more[1], more[2]>>

OpenEnd == <<"e", "">>
Bracket(s, i) ==                                   \* s[i] = "["
    IF Has1(s, i + 1, {"*"}) /\ Has1(s, i + 2, {"]"}) THEN <<<<<<"W", "">>>>, i + 3>>
    ELSE IF Has1(s, i + 1, {":"}) THEN
        LET b == SignedEnd(s, i + 2) IN
        IF b # 0 /\ Has1(s, b, {"]"})
        THEN <<<<<<"L", OpenEnd, Num(Signed(s, i + 2, b))>>>>, b + 1>> ELSE NoTok
    ELSE LET b == SignedEnd(s, i + 1) IN
        IF b = 0 THEN NoTok
        ELSE LET n == Signed(s, i + 1, b) IN
             IF Has1(s, b, {"]"}) THEN <<<<<<"I", n>>>>, b + 1>>
             ELSE IF Has1(s, b, {":"}) /\ Has1(s, b + 1, {"]"})
                  THEN <<<<<<"L", Num(n), OpenEnd>>>>, b + 2>>
             ELSE IF Has1(s, b, {":"}) /\ Ch(s, i + 1) # "-" THEN
                  LET c == RunEnd(s, b + 1, Digits) IN
                  IF c > b + 1 /\ Has1(s, c, {"]"})
                  THEN <<<<<<"L", Num(n), Num(ToNat(s, b + 1, c))>>>>, c + 1>> ELSE NoTok
             ELSE IF Ch(s, i + 1) # "-" THEN
                  LET more == MoreIndices(s, b) IN
                  IF more = NoTok THEN NoTok ELSE <<<<<<"I", n>>>> \o more[1], more[2]>>
             ELSE NoTok

(* --- a filter: from "[?(" up to the ")]" that closes it ------------------ *)
RECURSIVE CloseOf(_, _, _, _)
\* depth of open brackets before i, and the quote that i is within ("" for none); 0: never closed
CloseOf(s, i, depth, quote) ==
    IF i > Len(s) THEN 0
    ELSE LET c == Ch(s, i) IN
         IF quote # "" THEN
            IF c = "\\" THEN CloseOf(s, i + 2, depth, quote)
            ELSE CloseOf(s, i + 1, depth, IF c = quote THEN "" ELSE quote)
         ELSE IF c = "\"" \/ c = "'" THEN CloseOf(s, i + 1, depth, c)
         ELSE IF c = "(" \/ c = "[" THEN CloseOf(s, i + 1, depth + 1, "")
         ELSE IF c = ")" \/ c = "]" THEN IF depth = 1 THEN i ELSE CloseOf(s, i + 1, depth - 1, "")
         ELSE CloseOf(s, i + 1, depth, "")

(* brackets that do not match up: the filter then reaches to the last ")]" *)
RECURSIVE LastClose(_, _, _)
LastClose(s, i, best) == IF i > Len(s) THEN best
                         ELSE LastClose(s, i + 1, IF Ch(s, i) = "]" /\ Ch(s, i - 1) = ")" THEN i ELSE best)
FilterAt(s, i) ==                                  \* s[i .. i + 2] = "[?("
    LET last == LastClose(s, i + 4, 0)
        own  == CloseOf(s, i, 0, "")
        e    == IF own >= i + 4 /\ own <= last /\ Ch(s, own - 1) = ")" THEN own ELSE last IN
    IF last = 0 THEN NoTok
    ELSE <<<<<<"F", SubSeq(s, i + 3, e - 2)>>>>, e + 1>>

(* --- paths --------------------------------------------------------------- *)
Extend(paths, alts) == IF alts = <<>> THEN paths
                       ELSE IF paths = <<>> THEN [i \in 1 .. Len(alts) |-> <<alts[i]>>]
                       ELSE FlattenSeq([p \in 1 .. Len(paths) |->
                                [a \in 1 .. Len(alts) |-> Append(paths[p], alts[a])]])

RECURSIVE ParseFrom(_, _, _, _)
\* afterDot: a property may follow only after a dot
ParseFrom(s, i, paths, afterDot) ==
    IF RunEnd(s, i, Blanks) > Len(s) THEN <<"ok", paths>>
    ELSE LET dots == RunEnd(s, i, {"."}) - i
             name == RunEnd(s, i + dots, NameRest) IN
    IF dots = 2 /\ Has1(s, i + 2, Letters)
    THEN ParseFrom(s, name, Extend(paths, <<<<"R", SubSeq(s, i + 2, name - 1)>>>>), FALSE)
    ELSE IF dots > 0 /\ ~afterDot
    THEN LET RECURSIVE Firsts(_, _)
             Firsts(n, p) == IF n <= 2 THEN p ELSE Firsts(n - 1, Extend(p, <<<<"D", "">>>>))
         IN ParseFrom(s, i + dots, Firsts(dots, paths), TRUE)
    ELSE IF Has1(s, i, {"["}) THEN
         LET t == IF Has1(s, i + 1, {"?"}) /\ Has1(s, i + 2, {"("}) THEN FilterAt(s, i) ELSE Bracket(s, i) IN
         IF t = NoTok THEN BadPath ELSE ParseFrom(s, t[2], Extend(paths, t[1]), FALSE)
    ELSE IF afterDot /\ Has1(s, i, {"*"})
    THEN ParseFrom(s, i + 1, Extend(paths, <<<<"W", "">>>>), FALSE)
    ELSE IF afterDot /\ Has1(s, i, Letters)
    THEN LET e == RunEnd(s, i, NameRest) IN
         ParseFrom(s, e, Extend(paths, <<<<"S", SubSeq(s, i, e - 1)>>>>), FALSE)
    ELSE BadPath

(* <<"ok", the absolute paths>> or BadPath *)
Parse(s) == IF Has1(s, 1, {"$"}) THEN ParseFrom(s, 2, <<>>, FALSE) ELSE BadPath

(* --- and back: a text for an absolute path of keys (used by generators) --- *)
Bound(b) == IF b = OpenEnd THEN "" ELSE ToString(b[2])
KeyText(k) == CASE k[1] = "S" -> "." \o k[2]
                [] k[1] = "I" -> "[" \o ToString(k[2]) \o "]"
                [] k[1] = "W" -> "[*]"
                [] k[1] = "F" -> "[?(" \o k[2] \o ")]"
                [] k[1] = "R" -> ".." \o k[2]
                [] k[1] = "L" -> "[" \o Bound(k[2]) \o ":" \o Bound(k[3]) \o "]"
                [] OTHER -> "..."
RECURSIVE PathTextAfter(_, _)
PathTextAfter(prev, p) ==
    IF p = <<>> THEN ""
    ELSE (IF prev = "D" /\ p[1][1] = "S" THEN p[1][2]        \* "...name"
          ELSE IF prev = "D" /\ p[1][1] = "D" THEN "."       \* "...."
          ELSE KeyText(p[1])) \o PathTextAfter(p[1][1], Tail(p))
PathText(p) == "$" \o PathTextAfter("", p)
(* a recursive lookup directly after a first descent cannot be written down *)
Writable(p) == \A i \in 1 .. Len(p) - 1 : ~(p[i][1] = "D" /\ p[i + 1][1] = "R")
=============================================================================
