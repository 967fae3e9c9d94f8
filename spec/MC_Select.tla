------------------------------ MODULE MC_Select ---------------------------
(* What a path selects: the walk of JSelect against the places denoted, and    *)
(* laws of selections, for every path over random documents.                   *)
EXTENDS MC_Paths

Nodes == GetPaths(doc, <<path>>, FT)
(* ------------------------------------------------------------- the laws --- *)
\* the walk and the places agree
Selection == LET g == Nodes  d == Denoted(path) IN
             IF Bad(g) THEN g = d ELSE d = OkOf(ValuesOf(g[2]))
\* every node carries a path of its own that leads to it
NodePaths == LET g == Nodes IN
             ~Bad(g) => \A i \in 1 .. Len(g[2]) : GetPath(doc, g[2][i].p, 1, doc, FT) = g[2][i].v
\* what is written down is understood as it was meant
RoundTrip == path # <<>> => Parse(PathText(path)) = <<"ok", <<path>>>>
\* a filter selects a part of what the wildcard selects, a lookup nothing but values of the name
Narrowing == path # <<>> /\ Last(path)[1] = "F" =>
             LET all == Denote(Append(SubSeq(path, 1, Len(path) - 1), <<"W", "">>))  some == Denote(path) IN
             Bad(some) \/ \E I \in SUBSET (1 .. Len(all[2])) : Pick(all[2], I) = some[2]
\* wildcards are the union of what the single keys select
Union == path # <<>> /\ Last(path)[1] = "W" =>
         LET up == SubSeq(path, 1, Len(path) - 1)
             x  == Denote(up)
             v  == GetPath(doc, up, 1, doc, FT) IN
         Bad(x) \/ ~IsBox(v) \/
         ValuesOf(Nodes[2]) = IF IsMap(v) THEN LET ks == SortKeys(Keys(v)) IN [i \in 1 .. Len(ks) |-> At(v, ks[i])] ELSE v[2]

Emitted == emit /\ path # <<>> => PrintT("@@OP " \o ToJson([doc |-> doc, path |-> PathText(path)]))
=============================================================================
