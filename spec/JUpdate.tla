------------------------------ MODULE JUpdate -----------------------------
(* Setting, deleting, pushing and popping at the places a path denotes.      *)
EXTENDS JSelect

Delete == <<"delete", "">>          \* in the place of a value: remove the place

(* the result of applying an update to every one of a sequence of keys/indices of a box *)
RECURSIVE SetAt(_, _, _, _, _, _), SetNamed(_, _, _, _, _, _)

(* one child: what becomes of it *)
Child(v, path, i, val, root, ft) ==
    IF i > Len(path) THEN val ELSE SetAt(v, path, i, val, root, ft)

RECURSIVE SetKeys(_, _, _, _, _, _, _)
SetKeys(m, ks, path, i, val, root, ft) ==
    IF ks = <<>> THEN m
    ELSE LET last == i > Len(path) IN
         IF last /\ val = Delete THEN SetKeys(Drop(m, {ks[1]}), Tail(ks), path, i, val, root, ft)
         ELSE LET x == IF last THEN val ELSE SetAt(At(m, ks[1]), path, i, val, root, ft) IN
              IF Bad(x) THEN x ELSE SetKeys(Put(m, ks[1], x), Tail(ks), path, i, val, root, ft)
RECURSIVE SetElems(_, _, _, _, _, _, _)
SetElems(a, is, path, i, val, root, ft) ==          \* is: 0-based, ascending
    IF i > Len(path) /\ val = Delete THEN Arr(Without(a[2], Range(is)))
    ELSE IF is = <<>> THEN a
    ELSE LET x == IF i > Len(path) THEN val ELSE SetAt(a[2][is[1] + 1], path, i, val, root, ft) IN
         IF Bad(x) THEN x ELSE SetElems(PutAt(a, is[1], x), Tail(is), path, i, val, root, ft)

Counting(lo, hi) == TLCEval([j \in 1 .. (IF hi > lo THEN hi - lo ELSE 0) |-> lo + j - 1])

(* v after setting below it: path[i ..] are the keys still to follow *)
SetAt(v, path, i, val, root, ft) ==
    IF i > Len(path) THEN v
    ELSE LET key == path[i] IN
    CASE key[1] = "E" -> Err
      [] IsMap(v) /\ key[1] = "S" ->
            IF ~Has(v, key[2]) /\ i < Len(path) THEN Err
            ELSE SetKeys(v, <<key[2]>>, path, i + 1, val, root, ft)
      [] IsMap(v) /\ key[1] = "W" -> SetKeys(v, SortKeys(Keys(v)), path, i + 1, val, root, ft)
      [] IsMap(v) /\ key[1] = "F" ->
            LET ks == SortKeys(Keys(v))
                r  == Satisfying(key[2], [j \in 1 .. Len(ks) |-> At(v, ks[j])], root, ft) IN
            IF Bad(r) THEN r ELSE SetKeys(v, Pick(ks, r[2]), path, i + 1, val, root, ft)
      [] IsMap(v) /\ key[1] = "D" ->
            LET k == FirstKey(v) IN IF Bad(k) THEN k ELSE SetKeys(v, <<k[2]>>, path, i + 1, val, root, ft)
      [] IsArr(v) /\ key[1] = "S" ->
            LET with == {j \in 1 .. Len(v[2]) : IsMap(v[2][j]) /\ Has(v[2][j], key[2])}
                RECURSIVE Each(_, _)
                Each(a, j) == IF j > Len(v[2]) THEN a
                              ELSE IF j \notin with THEN Each(a, j + 1)
                              ELSE LET x == SetKeys(v[2][j], <<key[2]>>, path, i + 1, val, root, ft) IN
                                   IF Bad(x) THEN x ELSE Each(PutAt(a, j - 1, x), j + 1)
            IN Each(v, 1)
      [] IsArr(v) /\ key[1] = "I" ->
            IF key[2] < 0 \/ key[2] >= Len(v[2]) THEN Err
            ELSE SetElems(v, <<key[2]>>, path, i + 1, val, root, ft)
      [] IsArr(v) /\ key[1] = "W" -> SetElems(v, Counting(0, Len(v[2])), path, i + 1, val, root, ft)
      [] IsArr(v) /\ key[1] = "F" ->
            LET r == Satisfying(key[2], v[2], root, ft) IN
            IF Bad(r) THEN r
            ELSE SetElems(v, SortNums({j - 1 : j \in r[2]}), path, i + 1, val, root, ft)
      [] IsArr(v) /\ key[1] = "L" ->
            LET b == SliceOf(key, Len(v[2])) IN
            IF Bad(b) THEN b ELSE SetElems(v, Counting(b[2][1], b[2][2]), path, i + 1, val, root, ft)
      [] IsBox(v) /\ key[1] = "R" -> SetNamed(v, key[2], path, i + 1, val, <<root, ft>>)
      [] OTHER -> Err

(* recursive lookup: first within each child, then the child itself if it has the name *)
SetNamed(v, k, path, i, val, env) ==
    IF IsMap(v) THEN
        LET ks == SortKeys(Keys(v))
            RECURSIVE Each(_, _)
            Each(m, j) ==
                IF j > Len(ks) THEN m
                ELSE LET inner == SetNamed(At(v, ks[j]), k, path, i, val, env) IN
                     IF Bad(inner) THEN inner
                     ELSE LET m1 == Put(m, ks[j], inner)
                              m2 == IF ks[j] = k THEN SetKeys(m1, <<k>>, path, i, val, env[1], env[2]) ELSE m1 IN
                          IF Bad(m2) THEN m2 ELSE Each(m2, j + 1)
        IN Each(v, 1)
    ELSE IF IsArr(v) THEN
        LET RECURSIVE Each(_, _)
            Each(a, j) == IF j > Len(v[2]) THEN a
                          ELSE LET x == SetNamed(v[2][j], k, path, i, val, env) IN
                               IF Bad(x) THEN x ELSE Each(PutAt(a, j - 1, x), j + 1)
        IN Each(v, 1)
    ELSE v

(* ------------------------------------------------ all paths of an update --- *)
(* The paths are applied from left to right; a failure stops at that path.     *)
(* The result: [root, class ("ok", "err", "unspec"), path that failed]         *)
FansOut(v, key) == \/ key[1] \in {"W", "F", "L", "R"}
                   \/ IsArr(v) /\ key[1] = "S"
(* A filter below a key that fans out is evaluated while the update is under    *)
(* way. Nothing is said about an update that itself changes what a path within  *)
(* such a filter stands for.                                                    *)
RECURSIVE FirstFan(_, _, _)
FirstFan(v, path, i) ==
    IF i > Len(path) \/ ~IsBox(v) THEN Len(path)
    ELSE LET key == path[i] IN
    IF FansOut(v, key) THEN i
    ELSE IF IsMap(v) /\ key[1] = "S" /\ Has(v, key[2]) THEN FirstFan(At(v, key[2]), path, i + 1)
    ELSE IF IsMap(v) /\ key[1] = "D" /\ ~Bad(FirstKey(v)) THEN FirstFan(At(v, FirstKey(v)[2]), path, i + 1)
    ELSE IF IsArr(v) /\ key[1] = "I" /\ key[2] \in 0 .. Len(v[2]) - 1 THEN FirstFan(v[2][key[2] + 1], path, i + 1)
    ELSE Len(path)
LateFilters(root, path) == {j \in FirstFan(root, path, 1) + 1 .. Len(path) : path[j][1] = "F"}
MidWay(root, x, path, ft) ==
    LET ps == UNION {PathsIn(ft[path[j][2]]) : j \in LateFilters(root, path)} IN
    /\ ps # {}
    /\ Bad(x) \/ \E p \in ps : GetAll(root, p, ft) # GetAll(x, p, ft)
RECURSIVE SetPathsFrom(_, _, _, _, _)
SetPathsFrom(root, paths, i, val, ft) ==
    IF i > Len(paths) THEN [root |-> root, class |-> "ok", failed |-> <<>>]
    ELSE LET x == SetAt(root, paths[i], 1, val, root, ft) IN
         IF MidWay(root, x, paths[i], ft) THEN [root |-> root, class |-> "unspec", failed |-> paths[i]]
         ELSE IF Bad(x) THEN [root |-> root, class |-> x[1], failed |-> paths[i]]
         ELSE SetPathsFrom(x, paths, i + 1, val, ft)
(* setting null deletes *)
SetPaths(root, paths, val, ft) == SetPathsFrom(root, paths, 1, IF val[1] = "z" THEN Delete ELSE val, ft)
SetAll(root, text, val, ft) ==
    LET p == Parse(text) IN
    IF p = BadPath THEN [root |-> root, class |-> "err", failed |-> <<>>]
    ELSE SetPaths(root, p[2], val, ft)

(* What a failed update may have left behind: the paths before the failing one *)
(* are applied. Of the failing path, only what lies at or below the first key   *)
(* that fans out over several places may have changed (an update is not rolled  *)
(* back), and only for places that the path leads through.                     *)
RECURSIVE FailFrame(_, _, _, _)
FailFrame(pre, post, path, i) ==
    IF i > Len(path) \/ pre = post THEN pre = post
    ELSE LET key == path[i] IN
    IF ~IsBox(pre) THEN pre = post
    ELSE IF FansOut(pre, key) THEN Kind(post) = Kind(pre)
    ELSE IF IsMap(pre) THEN
        LET k == IF key[1] = "S" THEN key[2]
                 ELSE IF key[1] = "D" /\ ~Bad(FirstKey(pre)) THEN FirstKey(pre)[2] ELSE "" IN
        IF ~Has(pre, k) THEN pre = post
        ELSE /\ IsMap(post) /\ Keys(post) = Keys(pre)
             /\ \A q \in Keys(pre) : q = k \/ At(pre, q) = At(post, q)
             /\ FailFrame(At(pre, k), At(post, k), path, i + 1)
    ELSE IF key[1] # "I" \/ key[2] < 0 \/ key[2] >= Len(pre[2]) THEN pre = post
         ELSE /\ IsArr(post) /\ Len(post[2]) = Len(pre[2])
              /\ \A q \in 1 .. Len(pre[2]) : q = key[2] + 1 \/ pre[2][q] = post[2][q]
              /\ FailFrame(pre[2][key[2] + 1], post[2][key[2] + 1], path, i + 1)

(* ----------------------------------------------------------- push and pop --- *)
(* q after inserting val so that it ends up at each of the given positions *)
PushInto(q, val, is) ==
    LET at   == IF is = <<>> THEN {Len(q)} ELSE Range(is)
        top  == CHOOSE m \in at : \A o \in at : o <= m
        len  == IF top + 1 > Len(q) + Cardinality(at) THEN top + 1 ELSE Len(q) + Cardinality(at)
        from(j) == j - Cardinality({o \in at : o < j})      \* how many old elements come before position j
    IN TLCEval([j \in 1 .. len |-> IF (j - 1) \in at THEN val
                                   ELSE IF from(j - 1) < Len(q) THEN q[from(j - 1) + 1] ELSE Null])
PopAt(q, is)   == (IF is = <<>> THEN {0} ELSE Range(is)) \cap (0 .. Len(q) - 1)
Popped(q, is)  == Pick(q, {j + 1 : j \in PopAt(q, is)})
PopRest(q, is) == Without(q, PopAt(q, is))

(* [root, class, ret] *)
PushAll(root, text, val, is, ft) ==
    LET g == GetAll(root, text, ft) IN
    IF Bad(g) THEN [root |-> root, class |-> g[1], ret |-> <<>>, failed |-> <<>>]
    ELSE IF g[2] = <<>> THEN [root |-> root, class |-> "err", ret |-> <<>>, failed |-> <<>>]
    \* nothing is said about pushing before the start
    ELSE IF \E i \in Range(is) : i < 0 THEN [root |-> root, class |-> "unspec", ret |-> <<>>, failed |-> <<>>]
    ELSE LET s == SetAll(root, text, Arr(PushInto(ValuesOf(g[2]), val, is)), ft) IN
         [root |-> s.root, class |-> s.class, ret |-> <<>>, failed |-> s.failed]
PopAll(root, text, is, ft) ==
    LET g == GetAll(root, text, ft) IN
    IF Bad(g) THEN [root |-> root, class |-> g[1], ret |-> <<>>, failed |-> <<>>]
    ELSE IF g[2] = <<>> THEN [root |-> root, class |-> "err", ret |-> <<>>, failed |-> <<>>]
    ELSE LET q == ValuesOf(g[2])
             s == SetAll(root, text, Arr(PopRest(q, is)), ft) IN
         [root |-> s.root, class |-> s.class, ret |-> Popped(q, is), failed |-> s.failed]
=============================================================================
