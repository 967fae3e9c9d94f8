------------------------------ MODULE MC_Paths ----------------------------
(* Random documents, and every JSON path up to a length over them (a machine   *)
(* that extends a path key by key); with a second definition of what a path     *)
(* denotes, which is given in terms of the places of the document and not of a  *)
(* walk through its values. MC_Select and MC_Update state laws over these.      *)
EXTENDS JUpdate, Json, Randomization
CONSTANTS NDocs, Depth, Widest,      \* how many documents, how deep, how many elements an array has at most
          NEmit,                     \* for how many of the documents the paths are performed on the implementation
          MaxLen, Focus              \* the length of the paths, and which keys they are made of

Names == {"a", "b", "c"}

(* ------------------------------------------------------- random documents --- *)
(* Every scalar is another number, so that places can be told apart.            *)
RECURSIVE Shape(_, _), Items(_, _), Object(_, _), Leaves(_), Finish(_, _)
Items(n, d) == IF n = 0 THEN <<>> ELSE Append(Items(n - 1, d), Shape(d, RandomElement(1 .. 10)))
Object(ks, d) == IF ks = {} THEN Map(NoKeys)
                 ELSE LET k == CHOOSE x \in ks : TRUE IN Put(Object(ks \ {k}, d), k, Shape(d, RandomElement(1 .. 10)))
SomeNames == {k \in Names : RandomElement(1 .. 10) <= 6}
Shape(d, c) == IF d = 0 \/ c <= 2 THEN Num(0)
               ELSE IF c <= 6 THEN Object(SomeNames, d - 1)
               ELSE Arr(Items(RandomElement(0 .. Widest), d - 1))
Leaves(v) == Cardinality({p \in Places(v) : ~IsBox(Follow(v, p))})
Finish(v, n) ==
    IF ~IsBox(v) THEN Num(n)
    ELSE LET ks == IF IsMap(v) THEN SortKeys(Keys(v)) ELSE <<>>
             RECURSIVE Each(_, _, _)
             Each(x, i, k) ==
                IF IsMap(v) THEN IF i > Len(ks) THEN x
                                 ELSE Each(Put(x, ks[i], Finish(At(v, ks[i]), k)), i + 1, k + Leaves(At(v, ks[i])))
                ELSE IF i > Len(v[2]) THEN x
                     ELSE Each(Arr(Append(x[2], Finish(v[2][i], k))), i + 1, k + Leaves(v[2][i]))
         IN Each(IF IsMap(v) THEN Map(NoKeys) ELSE Arr(<<>>), 1, n)
RandomDoc(i) == TLCEval(Finish(Object(SomeNames \cup {RandomElement(Names)}, Depth - 1), 1))
Docs == TLCEval({RandomDoc(i) : i \in 1 .. NDocs})

(* ------------------------------------------------------------------- keys --- *)
Cur(ns) == <<"@", ns>>
Lit(n)  == <<"k", Num(n), "">>
Filters == {<<"is", Cur(<<"a">>)>>, <<"cmp", ">", Cur(<<"a">>), Lit(3)>>, <<"cmp", "==", Cur(<<>>), Lit(2)>>,
            <<"type", Cur(<<"b">>), "object">>, <<"not", <<"is", Cur(<<"b">>)>>>>,
            <<"and", <<"is", Cur(<<"a">>)>>, <<"not", <<"is", Cur(<<"b">>)>>>>>>,
            <<"or", <<"is", Cur(<<"a">>)>>, <<"cmp", "<=", Cur(<<>>), Lit(4)>>>>,
            <<"cmp", "!==", Cur(<<"a">>), <<"$", "$.a", "">>>>, <<"is", Cur(<<"a", "b">>)>>}
FT == [t \in {FilterText(f) : f \in Filters} |-> CHOOSE f \in Filters : FilterText(f) = t]
S(k) == <<"S", k>>
Plain == {S("a"), S("b"), S("c"), <<"I", 0>>, <<"I", 1>>, <<"W", "">>}
B(n) == Num(n)
Slices == {<<"L", OpenEnd, B(n)>> : n \in {0, 1, 2, 3, -1, -2}} \cup {<<"L", B(n), OpenEnd>> : n \in {0, 1, 2, 3, -1, -2, -4}}
          \cup {<<"L", B(x), B(y)>> : x \in 0 .. 3, y \in 0 .. 4}
KeySet == CASE Focus = "plain"    -> Plain \cup {<<"D", "">>, <<"I", 2>>}
            [] Focus = "lookups"  -> {S("a"), S("b"), <<"I", 0>>, <<"W", "">>, <<"R", "a">>, <<"R", "b">>, <<"R", "c">>}
            [] Focus = "slices"   -> {S("a"), S("b"), S("c"), <<"W", "">>, <<"I", 0>>, <<"I", 2>>, <<"I", -1>>} \cup Slices
            [] Focus = "filters"  -> {S("a"), S("b"), <<"I", 0>>, <<"W", "">>} \cup {<<"F", t>> : t \in DOMAIN FT}
            [] OTHER -> Plain \cup {<<"D", "">>, <<"R", "a">>, <<"R", "b">>, <<"L", B(1), OpenEnd>>, <<"L", OpenEnd, B(-1)>>, <<"L", B(0), B(2)>>,
                                    <<"F", "@.a">>, <<"F", "!(@.b)">>}

VARIABLES doc, path, emit
vars == <<doc, path, emit>>

(* --------------------------------------- the places that a path denotes --- *)
(* One place <<"one", p>>, or several <<"some", <<p, ..>>>>, or Err.           *)
RECURSIVE PlaceLess(_, _)
PlaceLess(p, q) == IF p = <<>> THEN q # <<>>
                   ELSE IF q = <<>> THEN FALSE
                   ELSE IF p[1] = q[1] THEN PlaceLess(Tail(p), Tail(q))
                   ELSE IF p[1][1] = "S" THEN StrLess(p[1][2], q[1][2]) ELSE p[1][2] < q[1][2]
SortPlaces(P) == SetToSortSeq(P, PlaceLess)
Below(v) == {p \in Places(v) : Len(p) = 1}
ChildrenOf(x) == IF x[1] = "some" THEN x[2]
                 ELSE LET P == TLCEval(SortPlaces({x[2] \o c : c \in Below(Follow(doc, x[2]))})) IN P
ListLike(x) == x[1] = "some" \/ IsArr(Follow(doc, x[2]))
Object1(x)  == x[1] = "one" /\ IsMap(Follow(doc, x[2]))
Where(q, P(_)) == SelectSeq(q, P)
Denote1(x, key) ==
    LET kids == ChildrenOf(x)
        box  == x[1] = "some" \/ IsBox(Follow(doc, x[2])) IN
    CASE key[1] = "S" /\ Object1(x) -> IF Has(Follow(doc, x[2]), key[2]) THEN <<"one", Append(x[2], key)>> ELSE Err
      [] key[1] = "S" /\ ListLike(x) ->
            LET with == Where(kids, LAMBDA p : IsMap(Follow(doc, p)) /\ Has(Follow(doc, p), key[2])) IN
            <<"some", [i \in 1 .. Len(with) |-> Append(with[i], key)]>>
      [] key[1] = "I" /\ ListLike(x) -> IF key[2] \in 0 .. Len(kids) - 1 THEN <<"one", kids[key[2] + 1]>> ELSE Err
      [] key[1] = "W" /\ box -> <<"some", kids>>
      [] key[1] = "F" /\ box ->
            LET bad == {i \in 1 .. Len(kids) : Holds(FT[key[2]], Follow(doc, kids[i]), doc, FT) = "e"}
                open == {i \in 1 .. Len(kids) : Holds(FT[key[2]], Follow(doc, kids[i]), doc, FT) = "u"} IN
            IF \E t \in PathsIn(FT[key[2]]) : GetAll(doc, t, FT) = Err THEN Err
            ELSE IF open # {} THEN Unspec ELSE IF bad # {} THEN Err
            ELSE <<"some", Where(kids, LAMBDA p : Holds(FT[key[2]], Follow(doc, p), doc, FT) = "t")>>
      [] key[1] = "D" /\ Object1(x) ->
            LET boxes == Where(kids, LAMBDA p : IsBox(Follow(doc, p))) IN IF boxes = <<>> THEN Err ELSE <<"one", boxes[1]>>
      [] key[1] = "L" /\ ListLike(x) ->
            LET n  == Len(kids)
                lo == IF key[2] = OpenEnd THEN 0 ELSE IF key[2][2] < 0 THEN n + key[2][2] ELSE key[2][2]
                hi == IF key[3] = OpenEnd THEN n ELSE IF key[3][2] < 0 THEN n + key[3][2] ELSE key[3][2] IN
            IF lo < 0 \/ lo > hi \/ hi > n THEN Err
            ELSE <<"some", [i \in 1 .. hi - lo |-> kids[lo + i]]>>
      [] key[1] = "R" /\ box ->
            LET roots == IF x[1] = "some" THEN {kids[i] : i \in 1 .. Len(kids)} ELSE {x[2]}
                found == UNION {{r \o p : p \in {q \in Places(Follow(doc, r)) : q # <<>> /\ Last(q) = S(key[2])}} : r \in roots}
                inOrder == IF x[1] = "one" THEN SortPlaces(found)
                           ELSE FlattenSeq([i \in 1 .. Len(kids) |->
                                   SortPlaces({kids[i] \o p : p \in {q \in Places(Follow(doc, kids[i])) : q # <<>> /\ Last(q) = S(key[2])}})]) IN
            <<"some", FlattenSeq([i \in 1 .. Len(inOrder) |->
                  IF IsArr(Follow(doc, inOrder[i])) THEN ChildrenOf(<<"one", inOrder[i]>>) ELSE <<inOrder[i]>>])>>
      [] OTHER -> Err
RECURSIVE Denote(_)
Denote(p) == IF p = <<>> THEN <<"one", <<>>>>
             ELSE LET x == TLCEval(Denote(SubSeq(p, 1, Len(p) - 1))) IN IF Bad(x) THEN x ELSE TLCEval(Denote1(x, Last(p)))
(* the values at them, an array standing for its elements *)
Denoted(p) == LET x == Denote(p) IN
              IF Bad(x) THEN x
              ELSE LET ps == IF ListLike(x) THEN ChildrenOf(x) ELSE <<x[2]>> IN
                   OkOf([i \in 1 .. Len(ps) |-> Follow(doc, ps[i])])

(* ---------------------------------------------------------- the machine --- *)
Init == \E D \in {Docs} : \E E \in {RandomSubset(IF NEmit < Cardinality(D) THEN NEmit ELSE Cardinality(D), D)} :
            doc \in D /\ path = <<>> /\ emit = (doc \in E)
Next == /\ Len(path) < MaxLen
        /\ ~Bad(GetPath(doc, path, 1, doc, FT))
        /\ \E k \in KeySet : /\ (IF path = <<>> THEN TRUE ELSE ~(k[1] = "R" /\ Last(path)[1] = "D"))
                             /\ path' = Append(path, k)
        /\ UNCHANGED <<doc, emit>>
Spec == Init /\ [][Next]_vars
=============================================================================
