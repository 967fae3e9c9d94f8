----------------------------- MODULE MC_Adding -----------------------------
(* Sets of paths that are extended by keys, again and again.                       *)
EXTENDS JPath, Json, Randomization
CONSTANTS MostKeys, Most, Chosen, Sample
Keys1 == {<<"S", "a">>, <<"S", "b">>, <<"I", 0>>, <<"W", "">>, <<"R", "c">>, <<"L", Num(0), OpenEnd>>, <<"D", "">>, <<"F", "@.a">>}
Lists == UNION {[1 .. n -> Keys1] : n \in 0 .. MostKeys}
VARIABLES paths, adds, emit
vars == <<paths, adds, emit>>
Init == paths = <<>> /\ adds = <<>> /\ emit = FALSE
Next == /\ Len(adds) < Most
        /\ \E ks \in RandomSubset(Chosen, Lists) :
              adds' = Append(adds, ks) /\ paths' = Extend(paths, ks) /\ emit' = (RandomElement(1 .. Sample) = 1)
Spec == Init /\ [][Next]_vars
(* ------------------------------------------------------------------- laws --- *)
Given == SelectSeq(adds, LAMBDA ks : ks # <<>>)       \* no keys: nothing happens
RECURSIVE Times(_)
Times(ks) == IF ks = <<>> THEN 1 ELSE Len(ks[1]) * Times(Tail(ks))
\* as many paths as combinations, each key in turn under each path in turn: the last keys change fastest
CrossProduct == IF Given = <<>> THEN paths = <<>> ELSE
    /\ Len(paths) = Times(Given)
    /\ \A n \in DOMAIN paths : \A j \in 1 .. Len(Given) :
          paths[n][j] = Given[j][(((n - 1) \div Times(SubSeq(Given, j + 1, Len(Given)))) % Len(Given[j])) + 1]
SameLength == \A n \in DOMAIN paths : Len(paths[n]) = Len(Given)
\* the paths there were are prefixes of those there are, in their order
Grows == [][adds' # adds => IF Last(adds') = <<>> THEN paths' = paths
            ELSE LET w == Len(Last(adds')) IN
                 \A n \in DOMAIN paths' : paths # <<>> => SubSeq(paths'[n], 1, Len(paths'[n]) - 1) = paths[((n - 1) \div w) + 1]]_vars
Emitted == emit => PrintT("@@OP " \o ToJson([adds |-> adds]))
=============================================================================
