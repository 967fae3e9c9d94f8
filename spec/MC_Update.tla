------------------------------ MODULE MC_Update ---------------------------
(* What updates do to a document: the recursive definitions of JUpdate against  *)
(* substitution and removal at the set of places that a path leads to, and laws *)
(* which tie setting, deleting, pushing, popping and reading together.          *)
EXTENDS MC_Paths

(* ------------------------------------- the places that an update is made at --- *)
(* Unlike a read, an update follows each of several places on its own, an array  *)
(* that a path ends at is one place, and a last property may be new.             *)
Kids(p) == TLCEval(SortPlaces({p \o c : c \in Below(Follow(doc, p))}))
Lead(p, key, last) ==
    LET v == Follow(doc, p)
        One(q) == <<"ok", <<q>>>>
        Many(q) == <<"ok", q>> IN
    CASE key[1] = "S" /\ IsMap(v) -> IF last \/ Has(v, key[2]) THEN One(Append(p, key)) ELSE Err
      [] key[1] = "S" /\ IsArr(v) ->
            LET with == Where(Kids(p), LAMBDA q : IsMap(Follow(doc, q)) /\ Has(Follow(doc, q), key[2])) IN
            Many([i \in 1 .. Len(with) |-> Append(with[i], key)])
      [] key[1] = "I" /\ IsArr(v) -> IF key[2] \in 0 .. Len(v[2]) - 1 THEN One(Append(p, key)) ELSE Err
      [] key[1] = "W" /\ IsBox(v) -> Many(Kids(p))
      [] key[1] \in {"F", "D", "L"} /\ IsBox(v) ->
            LET x == Denote1(<<"one", p>>, key) IN IF Bad(x) THEN x ELSE IF x[1] = "one" THEN One(x[2]) ELSE Many(x[2])
      [] key[1] = "R" /\ IsBox(v) -> Many(SortPlaces({p \o q : q \in {q \in Places(v) : q # <<>> /\ Last(q) = S(key[2])}}))
      [] OTHER -> Err
Prefixed(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Antichain(q) == \A i, j \in 1 .. Len(q) : i # j => ~Prefixed(q[i], q[j])
RECURSIVE LeadAll(_, _, _)
LeadAll(q, i, keys) ==                                    \* q: the places so far; keys[i ..]: still to follow
    IF i > Len(keys) THEN <<"ok", q>>
    ELSE IF ~Antichain(q) /\ keys[i][1] \in {"F", "D"} THEN Unspec        \* may look at what the update has changed already
    ELSE LET xs == TLCEval([j \in 1 .. Len(q) |-> Lead(q[j], keys[i], i = Len(keys))]) IN
         IF \E j \in DOMAIN xs : xs[j][1] = "unspec" THEN Unspec
         ELSE IF \E j \in DOMAIN xs : xs[j][1] = "err" THEN Err
         ELSE LET all == TLCEval(FlattenSeq([j \in DOMAIN xs |-> xs[j][2]])) IN
              IF Cardinality(Range(all)) # Len(all) THEN Unspec           \* reached twice
              ELSE LeadAll(all, i + 1, keys)
Targets == LeadAll(<<<<>>>>, 1, path)

(* v with x at each of the places T (the outermost count); p: where v is *)
RECURSIVE Subst(_, _, _, _)
Subst(v, p, T, x) ==
    IF p \in T THEN x
    ELSE IF ~\E t \in T : Prefixed(p, t) THEN v
    ELSE IF IsMap(v) THEN
        LET new == {Last(t)[2] : t \in {u \in T : Len(u) = Len(p) + 1 /\ Prefixed(p, u)}} IN
        Map([k \in Keys(v) \cup new |-> Subst(IF Has(v, k) THEN At(v, k) ELSE Null, Append(p, S(k)), T, x)])
    ELSE Arr([i \in 1 .. Len(v[2]) |-> Subst(v[2][i], Append(p, <<"I", i - 1>>), T, x)])
RECURSIVE Prune(_, _, _)
Prune(v, p, T) ==
    IF IsMap(v) THEN LET keep == {k \in Keys(v) : Append(p, S(k)) \notin T} IN
                     IF keep = {} THEN Map(NoKeys) ELSE Map([k \in keep |-> Prune(At(v, k), Append(p, S(k)), T)])
    ELSE IF IsArr(v) THEN
        LET keep == Pick([i \in 1 .. Len(v[2]) |-> i], {i \in 1 .. Len(v[2]) : Append(p, <<"I", i - 1>>) \notin T}) IN
        Arr([j \in 1 .. Len(keep) |-> Prune(v[2][keep[j]], Append(p, <<"I", keep[j] - 1>>), T)])
    ELSE v

(* ------------------------------------------------------------------ the laws --- *)
New  == Num(999)
Box  == Map([n |-> Num(998), w |-> Arr(<<Num(997), Map(NoKeys)>>)])
Sets(x) == SetPaths(doc, <<path>>, x, FT)
Some == path # <<>>
AgreesWith(r, t, want) == CASE t[1] = "unspec" -> TRUE
                            [] t[1] = "err"    -> r.class \in {"err", "unspec"}
                            [] OTHER           -> \/ r.class = "ok" /\ r.root = want
                                                  \/ r.class = "unspec" /\ LateFilters(doc, path) # {}
Setting1  == Some => \A x \in {New, Box} : AgreesWith(Sets(x), Targets, Subst(doc, <<>>, Range(Targets[2]), x))
Deleting1 == Some => AgreesWith(Sets(Delete), Targets, Prune(doc, <<>>, Range(Targets[2])))
NullDeletes == Some => Sets(Null) = Sets(Delete)
\* what was set is read back, by every path whose meaning the update cannot have changed
Steady == \A i \in 1 .. Len(path) : path[i][1] \notin {"F", "D"}
Same(t) == LET d == Denote(path) IN
           ~Bad(d) /\ t[1] = "ok" /\ t[2] = (IF d[1] = "one" THEN <<d[2]>> ELSE d[2]) /\ Antichain(t[2])
Readback == Some /\ Steady => LET t == Targets  r == Sets(New) IN
            ~Same(t) \/ (LET g == GetPaths(r.root, <<path>>, FT) IN ~Bad(g) /\ ValuesOf(g[2]) = [i \in 1 .. Len(t[2]) |-> New])
\* setting again changes nothing, and what was set before does not matter
Twice == Some /\ Steady => LET r == Sets(New) IN
         r.class # "ok" \/ Targets[1] # "ok" \/ ~Antichain(Targets[2]) \/ SetPaths(r.root, <<path>>, New, FT).root = r.root
Overwritten == Some /\ Steady => LET r == Sets(Box)  t == Targets IN
         r.class # "ok" \/ t[1] # "ok" \/ ~Antichain(t[2]) \/ (\E i \in DOMAIN path : path[i][1] = "R")
         \/ SetPaths(r.root, <<path>>, New, FT).root = Sets(New).root
\* pushing and popping, where the path leads to one array
ArrayAt == LET t == Targets IN IF Denote(path)[1] = "one" /\ t[1] = "ok" /\ Len(t[2]) = 1 /\ t[2][1] # <<>> /\ Same(t) THEN Follow(doc, t[2][1]) ELSE Null
IsOne == LET a == ArrayAt IN IsArr(a) /\ a[2] # <<>>
Text == PathText(path)
Simple == \A i \in DOMAIN path : path[i][1] \in {"S", "I", "D"}
PushPop == Some /\ Steady /\ Simple => LET a == ArrayAt IN ~IsOne \/
    \A i \in 0 .. Len(a[2]) :
        LET r == PushAll(doc, Text, New, <<i>>, FT)
            b == PopAll(r.root, Text, <<i>>, FT) IN
        r.class = "ok" /\ b.class = "ok" /\ b.root = doc /\ b.ret = <<New>>
Appending == Some /\ Steady /\ Simple => LET a == ArrayAt  r == PushAll(doc, Text, New, <<>>, FT) IN
    ~IsOne \/ r.root = Subst(doc, <<>>, {Targets[2][1]}, Arr(Append(a[2], New)))
PushMany == Some /\ Steady /\ Simple => LET a == ArrayAt IN ~IsOne \/
    \A I \in (SUBSET (0 .. Len(a[2]) + 1)) \ {{}} :
        LET q == PushInto(a[2], New, SetToSortSeq(I, LAMBDA x, y : x > y)) IN
        /\ \A i \in I : q[i + 1] = New
        /\ LET rest == Without(q, I) IN SubSeq(rest, 1, Len(a[2])) = a[2] /\ \A j \in Len(a[2]) + 1 .. Len(rest) : rest[j] = Null
PopMany == Some /\ Steady /\ Simple => LET a == ArrayAt IN ~IsOne \/
    \A I \in (SUBSET (-1 .. Len(a[2]))) \ {{}} :
        LET is == SetToSortSeq(I, LAMBDA x, y : x > y)
            b == PopAll(doc, Text, is, FT) IN
        /\ b.class = "ok"
        /\ b.ret = Pick(a[2], {i + 1 : i \in I})
        /\ b.root = Subst(doc, <<>>, {Targets[2][1]}, Arr(Pick(a[2], {i \in 1 .. Len(a[2]) : (i - 1) \notin I})))

Emitted == emit /\ Some => PrintT("@@OP " \o ToJson([doc |-> doc, path |-> Text]))
=============================================================================
