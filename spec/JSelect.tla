------------------------------ MODULE JSelect -----------------------------
(* What a JSON path selects from a document, filters included.               *)
(*                                                                          *)
(* ft is the table of the filter expressions in use: the text of a filter    *)
(* mapped to its syntax tree. A tree is                                      *)
(*   <<"is", operand>>                truthiness of an operand               *)
(*   <<"cmp", op, operand, operand>>  == === != !== < <= > >=                *)
(*   <<"type", operand, name>>        typeof operand === name                *)
(*   <<"not", t>> <<"and", t, t>> <<"or", t, t>>                             *)
(*   <<"raw", text, outcome>>         other JavaScript whose outcome ("t",    *)
(*                                    "f", "e", "h": never ends) is known from outside         *)
(* and an operand is <<"@", <<names>>>> (current node), <<"$", path, "">>    *)
(* (another JSON path), <<"k", value, quote>> (a literal).                   *)
EXTENDS JPath

Err     == <<"err", "">>
Unspec  == <<"unspec", "">>         \* outside what the specification describes
Bad(x)  == x[1] = "err" \/ x[1] = "unspec"
OkOf(q) == <<"ok", q>>

RECURSIVE GetAll(_, _, _), GetPath(_, _, _, _, _)

(* ---------------------------------------------------- rendering filters --- *)
RECURSIVE Dotted(_)
Dotted(ks) == IF ks = <<>> THEN "" ELSE "." \o ks[1] \o Dotted(Tail(ks))
LitText(v, q) == CASE v[1] = "n" -> ToString(v[2])
                   [] v[1] = "b" -> IF v[2] THEN "true" ELSE "false"
                   [] v[1] = "z" -> "null"
                   [] v[1] = "s" -> q \o v[2] \o q
                   [] OTHER -> "undefined"
OpText(o) == CASE o[1] = "@" -> "@" \o Dotted(o[2])
               [] o[1] = "$" -> " " \o o[2] \o " "
               [] OTHER -> LitText(o[2], o[3])
RECURSIVE FilterText(_)
FilterText(t) ==
    CASE t[1] = "is"   -> OpText(t[2])
      [] t[1] = "cmp"  -> OpText(t[3]) \o " " \o t[2] \o " " \o OpText(t[4])
      [] t[1] = "type" -> "typeof " \o OpText(t[2]) \o " === '" \o t[3] \o "'"
      [] t[1] = "not"  -> "!(" \o FilterText(t[2]) \o ")"
      [] t[1] = "and"  -> "(" \o FilterText(t[2]) \o ") && (" \o FilterText(t[3]) \o ")"
      [] t[1] = "or"   -> "(" \o FilterText(t[2]) \o ") || (" \o FilterText(t[3]) \o ")"
      [] t[1] = "raw"  -> t[2]
      [] OTHER -> "@"

(* --------------------------------------------------- evaluating filters --- *)
(* The four outcomes "t", "f", "e" (the expression fails) and "u" (a corner   *)
(* of JavaScript that the specification leaves open).                        *)
Undef  == <<"u", "">>
ThreeV(b) == IF b THEN "t" ELSE "f"

RECURSIVE Member(_, _)
Member(v, names) ==
    IF names = <<>> THEN v
    ELSE IF v = Undef \/ v = Null THEN Err
    ELSE IF IsMap(v) THEN Member(IF Has(v, names[1]) THEN At(v, names[1]) ELSE Undef, Tail(names))
    ELSE IF names[1] = "length" /\ IsArr(v) THEN Member(Num(Len(v[2])), Tail(names))
    ELSE IF names[1] = "length" /\ IsStr(v) THEN Member(Num(Len(v[2])), Tail(names))
    ELSE Member(Undef, Tail(names))

OperandValue(o, cur, root, ft) ==
    CASE o[1] = "@" -> Member(cur, o[2])
      [] o[1] = "k" -> o[2]
      [] OTHER -> LET g == GetAll(root, o[2], ft) IN
                  IF Bad(g) THEN g
                  ELSE IF Len(g[2]) = 1 THEN g[2][1].v
                  ELSE Arr([i \in 1 .. Len(g[2]) |-> g[2][i].v])

Truthy(v) == CASE v = Undef \/ v = Null -> "f"
               [] v[1] = "b" -> ThreeV(v[2])
               [] v[1] = "n" -> ThreeV(v[2] # 0)
               [] v[1] = "s" -> ThreeV(v[2] # "")
               [] v[1] = "d" -> "t"
               [] OTHER -> "t"

TypeOf(v) == CASE v = Undef -> "undefined" [] v[1] = "n" -> "number" [] v[1] = "d" -> "number"
               [] v[1] = "s" -> "string" [] v[1] = "b" -> "boolean" [] OTHER -> "object"

AllIn(s, S) == \A i \in 1 .. Len(s) : Ch(s, i) \in S
(* ToNumber: <<"n", n>>, "NaN" or "u" *)
NumOf(v) == CASE v[1] = "n" -> v
              [] v = Null -> Num(0)
              [] v[1] = "b" -> Num(IF v[2] THEN 1 ELSE 0)
              [] v[1] = "u" -> <<"nan", "">>
              [] v[1] = "s" -> IF v[2] = "" THEN Num(0)
                               ELSE IF AllIn(v[2], Digits) /\ Len(v[2]) <= MaxDigits THEN Num(ToNat(v[2], 1, Len(v[2]) + 1))
                               ELSE IF Ch(v[2], 1) \in (Letters \ {"I"}) THEN <<"nan", "">>
                               ELSE <<"open", "">>
              [] OTHER -> <<"open", "">>

StrictEq(a, b) == IF IsBox(a) /\ IsBox(b) THEN "u"
                  ELSE IF a[1] = "d" \/ b[1] = "d" THEN
                     (IF a[1] \notin {"n", "d"} \/ b[1] \notin {"n", "d"} THEN "f"
                      ELSE IF a = b THEN "t" ELSE "u")
                  ELSE ThreeV(a = b)
LooseEq(a, b) ==
    IF a[1] = b[1] THEN StrictEq(a, b)
    ELSE IF {a[1], b[1]} = {"u", "z"} THEN "t"
    ELSE IF a[1] \in {"u", "z"} \/ b[1] \in {"u", "z"} THEN "f"
    ELSE IF IsBox(a) \/ IsBox(b) THEN "u"
    ELSE LET x == NumOf(a)  y == NumOf(b) IN
         IF x[1] = "open" \/ y[1] = "open" THEN "u"
         ELSE IF x[1] = "nan" \/ y[1] = "nan" THEN "f"
         ELSE ThreeV(x = y)
Negate(x) == CASE x = "t" -> "f" [] x = "f" -> "t" [] OTHER -> x
Relation(op, a, b) ==
    IF IsBox(a) \/ IsBox(b) THEN "u"
    ELSE IF IsStr(a) /\ IsStr(b) THEN
        IF ~(Ordered(a[2]) /\ Ordered(b[2])) THEN "u" ELSE
        CASE op = "<"  -> ThreeV(StrLess(a[2], b[2]))
          [] op = "<=" -> ThreeV(~StrLess(b[2], a[2]))
          [] op = ">"  -> ThreeV(StrLess(b[2], a[2]))
          [] OTHER     -> ThreeV(~StrLess(a[2], b[2]))
    ELSE LET x == NumOf(a)  y == NumOf(b) IN
         IF x[1] = "nan" \/ y[1] = "nan" THEN "f"
         ELSE IF x[1] = "open" \/ y[1] = "open" THEN "u"
         ELSE CASE op = "<"  -> ThreeV(x[2] < y[2])
                [] op = "<=" -> ThreeV(x[2] <= y[2])
                [] op = ">"  -> ThreeV(x[2] > y[2])
                [] OTHER     -> ThreeV(x[2] >= y[2])
Compare(op, a, b) == CASE op = "===" -> StrictEq(a, b)
                       [] op = "!==" -> Negate(StrictEq(a, b))
                       [] op = "=="  -> LooseEq(a, b)
                       [] op = "!="  -> Negate(LooseEq(a, b))
                       [] OTHER -> Relation(op, a, b)

RECURSIVE Holds(_, _, _, _)
Holds(t, cur, root, ft) ==
    CASE t[1] = "is" -> LET v == OperandValue(t[2], cur, root, ft) IN
                        IF v[1] = "err" THEN "e" ELSE IF v[1] = "unspec" THEN "u" ELSE Truthy(v)
      [] t[1] = "type" -> LET v == OperandValue(t[2], cur, root, ft) IN
                          IF v[1] = "err" THEN "e" ELSE IF v[1] = "unspec" THEN "u"
                          ELSE ThreeV(TypeOf(v) = t[3])
      [] t[1] = "cmp" -> LET a == OperandValue(t[3], cur, root, ft)
                             b == OperandValue(t[4], cur, root, ft) IN
                         IF a[1] = "err" \/ b[1] = "err" THEN "e"
                         ELSE IF a[1] = "unspec" \/ b[1] = "unspec" THEN "u"
                         ELSE Compare(t[2], a, b)
      [] t[1] = "not" -> Negate(Holds(t[2], cur, root, ft))
      [] t[1] = "and" -> LET l == Holds(t[2], cur, root, ft) IN
                         IF l = "t" THEN Holds(t[3], cur, root, ft) ELSE l
      [] t[1] = "or"  -> LET l == Holds(t[2], cur, root, ft) IN
                         IF l = "f" THEN Holds(t[3], cur, root, ft) ELSE l
      [] t[1] = "raw" -> IF t[3] = "h" THEN "e" ELSE t[3]
      [] OTHER -> "u"

RECURSIVE PathsIn(_)
PathsIn(t) == LET Of(o) == IF o[1] = "$" THEN {o[2]} ELSE {} IN
              CASE t[1] \in {"is", "type"} -> Of(t[2])
                [] t[1] = "cmp" -> Of(t[3]) \cup Of(t[4])
                [] t[1] = "not" -> PathsIn(t[2])
                [] t[1] = "raw" -> {}
                [] OTHER -> PathsIn(t[2]) \cup PathsIn(t[3])

(* Does the filter look at the current node? (Other JavaScript is assumed not to, *)
(* as far as nodes with callbacks within are concerned.)                       *)
RECURSIVE Mentions(_)
Mentions(t) == CASE t[1] \in {"is", "type"} -> t[2][1] = "@"
                 [] t[1] = "cmp" -> t[3][1] = "@" \/ t[4][1] = "@"
                 [] t[1] = "not" -> Mentions(t[2])
                 [] t[1] = "raw" -> FALSE
                 [] OTHER -> Mentions(t[2]) \/ Mentions(t[3])

(* vals: a sequence of nodes. The set of positions that satisfy the filter,   *)
(* or Err, or Unspec. Paths within the filter are resolved even if there is    *)
(* no node to evaluate the filter on.                                        *)
Satisfying(text, vals, root, ft) ==
    IF text \notin DOMAIN ft THEN Unspec
    ELSE LET t  == ft[text]
             gs == TLCEval({GetAll(root, p, ft) : p \in PathsIn(t)})
             rs == TLCEval([i \in 1 .. Len(vals) |-> Holds(t, vals[i], root, ft)]) IN
         IF \E g \in gs : g[1] = "unspec" THEN Unspec
         ELSE IF \E g \in gs : g[1] = "err" THEN Err
         ELSE IF \E g \in gs : \E i \in DOMAIN g[2] : HasCallback(g[2][i].v) THEN Err
         ELSE IF Mentions(t) /\ \E i \in DOMAIN vals : HasCallback(vals[i]) THEN Err
         ELSE IF \E i \in DOMAIN rs : rs[i] = "u" THEN Unspec
         ELSE IF \E i \in DOMAIN rs : rs[i] = "e" THEN Err
         ELSE OkOf({i \in DOMAIN rs : rs[i] = "t"})

(* ------------------------------------------------------------- one step --- *)
(* every value under the given name, outermost first *)
RECURSIVE Named(_, _)
Named(v, k) ==
    IF IsMap(v) THEN
        LET ks == SortKeys(Keys(v)) IN
        FlattenSeq(TLCEval([i \in 1 .. Len(ks) |->
            (IF ks[i] = k THEN <<At(v, k)>> ELSE <<>>) \o Named(At(v, ks[i]), k)]))
    ELSE IF IsArr(v) THEN FlattenSeq(TLCEval([i \in 1 .. Len(v[2]) |-> Named(v[2][i], k)]))
    ELSE <<>>
Spread(q) == FlattenSeq(TLCEval([i \in 1 .. Len(q) |-> IF IsArr(q[i]) THEN q[i][2] ELSE <<q[i]>>]))

FirstKey(m) == LET boxes == {k \in Keys(m) : IsBox(At(m, k))} IN
               IF boxes = {} THEN Err ELSE OkOf(SortKeys(boxes)[1])

(* <<lo, hi>> within an array of length n, or Err *)
SliceOf(key, n) ==
    LET Norm(b, open) == IF b = OpenEnd THEN open ELSE IF b[2] < 0 THEN n + b[2] ELSE b[2]
        lo == Norm(key[2], 0)
        hi == Norm(key[3], n)
    IN IF 0 <= lo /\ lo <= hi /\ hi <= n THEN OkOf(<<lo, hi>>) ELSE Err

(* positions of q that are in the set I, in order *)
Pick(q, I) == LET RECURSIVE P(_)
                  P(i) == IF i > Len(q) THEN <<>> ELSE (IF i \in I THEN <<q[i]>> ELSE <<>>) \o P(i + 1)
              IN P(1)

(* the value that one key leads to: an array value stands for several nodes *)
Step(v, key, root, ft) ==
    CASE key[1] = "E" -> Err
      [] IsMap(v) /\ key[1] = "S" -> IF Has(v, key[2]) THEN At(v, key[2]) ELSE Err
      [] IsMap(v) /\ key[1] = "W" -> LET ks == SortKeys(Keys(v)) IN Arr([i \in 1 .. Len(ks) |-> At(v, ks[i])])
      [] IsMap(v) /\ key[1] = "F" ->
            LET ks == SortKeys(Keys(v))
                vs == TLCEval([i \in 1 .. Len(ks) |-> At(v, ks[i])])
                r  == Satisfying(key[2], vs, root, ft) IN
            IF Bad(r) THEN r ELSE Arr(Pick(vs, r[2]))
      [] IsMap(v) /\ key[1] = "D" -> LET k == FirstKey(v) IN IF Bad(k) THEN k ELSE At(v, k[2])
      [] IsArr(v) /\ key[1] = "S" ->
            LET with == {i \in 1 .. Len(v[2]) : IsMap(v[2][i]) /\ Has(v[2][i], key[2])} IN
            LET q == Pick(v[2], with) IN Arr([i \in 1 .. Len(q) |-> At(q[i], key[2])])
      [] IsArr(v) /\ key[1] = "I" -> IF key[2] >= 0 /\ key[2] < Len(v[2]) THEN v[2][key[2] + 1] ELSE Err
      [] IsArr(v) /\ key[1] = "W" -> v
      [] IsArr(v) /\ key[1] = "F" ->
            LET r == Satisfying(key[2], v[2], root, ft) IN IF Bad(r) THEN r ELSE Arr(Pick(v[2], r[2]))
      [] IsArr(v) /\ key[1] = "L" ->
            LET b == SliceOf(key, Len(v[2])) IN
            IF Bad(b) THEN b ELSE Arr(SubSeq(v[2], b[2][1] + 1, b[2][2]))
      [] IsBox(v) /\ key[1] = "R" -> Arr(Spread(Named(v, key[2])))
      [] OTHER -> Err

GetPath(v, path, i, root, ft) ==
    IF i > Len(path) THEN v
    ELSE LET x == TLCEval(Step(v, path[i], root, ft)) IN
         IF Bad(x) THEN x ELSE GetPath(x, path, i + 1, root, ft)

(* ----------------------------------------------------------- selections --- *)
(* The nodes that a list of absolute paths denotes, in order: an array is     *)
(* unwrapped to one node for each of its elements.                           *)
GetPaths(root, paths, ft) ==
    LET vs == TLCEval([i \in 1 .. Len(paths) |-> GetPath(root, paths[i], 1, root, ft)]) IN
    IF \E i \in DOMAIN vs : vs[i][1] = "unspec" THEN Unspec
    ELSE IF \E i \in DOMAIN vs : vs[i][1] = "err" THEN Err
    ELSE OkOf(TLCEval(FlattenSeq([i \in 1 .. Len(paths) |->
            IF IsArr(vs[i])
            THEN [j \in 1 .. Len(vs[i][2]) |-> [p |-> Append(paths[i], <<"I", j - 1>>), v |-> vs[i][2][j]]]
            ELSE <<[p |-> paths[i], v |-> vs[i]]>>])))

GetAll(root, text, ft) == LET p == Parse(text) IN
                          IF p = BadPath THEN Err ELSE GetPaths(root, p[2], ft)
ValuesOf(nodes) == TLCEval([i \in 1 .. Len(nodes) |-> nodes[i].v])
=============================================================================
