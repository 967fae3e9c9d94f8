-------------------------------- MODULE JDom ------------------------------
(* The JSON-DOM: a set of documents and what the operations of the library   *)
(* do to them. A document is [root |-> an object, arr |-> whether the JSON    *)
(* text has an array at its root], where an array root is kept under the key  *)
(* "array" of root. Each operation is an operator                             *)
(*     X(d, arguments, ft, st) = [d |-> document afterwards, c |-> class,       *)
(*                                v |-> result, ...]                           *)
(* where the class is "ok", "err" or "unspec", and an action of the state      *)
(* machine below. The operators are also what the traces recorded from the     *)
(* implementation are judged by (JTrace).                                      *)
EXTENDS JScripts

EmptyDoc     == [root |-> Map(NoKeys), arr |-> FALSE]
DocOf(v)     == IF IsArr(v) THEN [root |-> Map("array" :> v), arr |-> TRUE] ELSE [root |-> v, arr |-> FALSE]
(* the JSON value that a document stands for *)
ValueOf(d)   == IF ~d.arr THEN d.root ELSE IF Has(d.root, "array") THEN At(d.root, "array") ELSE Null
SameDoc(a, b)== a.arr = b.arr /\ a.root = b.root

Out(d, c, v) == TLCEval([d |-> d, c |-> c, v |-> v, failed |-> <<>>])

(* ------------------------------------------------------------ operations --- *)
Load(d, v)         == IF IsBox(v) THEN Out(DocOf(v), "ok", <<>>) ELSE Out(d, "err", <<>>)
Get(d, path, ft)   == LET g == GetAll(d.root, path, ft) IN Out(d, g[1], g[2])
GetAbs(d, ps, ft)  == LET g == GetPaths(d.root, ps, ft) IN Out(d, g[1], g[2])
Set(d, path, v, ft)== LET r == SetAll(d.root, path, v, ft) IN
                      TLCEval([d |-> [d EXCEPT !.root = r.root], c |-> r.class, v |-> <<>>, failed |-> r.failed])
SetAbs(d, ps, v, ft)== LET r == SetPaths(d.root, ps, v, ft) IN
                      TLCEval([d |-> [d EXCEPT !.root = r.root], c |-> r.class, v |-> <<>>, failed |-> r.failed])
Push(d, path, v, is, ft) == LET r == PushAll(d.root, path, v, is, ft) IN
                      TLCEval([d |-> [d EXCEPT !.root = r.root], c |-> r.class, v |-> <<>>, failed |-> r.failed])
Pop(d, path, is, ft) == LET r == PopAll(d.root, path, is, ft) IN
                      TLCEval([d |-> [d EXCEPT !.root = r.root], c |-> r.class, v |-> r.ret, failed |-> r.failed])
ScriptText(lang, src) == Prefix \o lang \o "\n" \o src
Markup(d, path, lang, src, ft) ==
                      IF lang \notin {"js", "go"} THEN Out(d, "err", <<>>)
                      ELSE Set(d, path, Str(ScriptText(lang, src)), ft)
Strip(d)           == IF BadBelow(d.root) THEN Out(d, "err", <<>>)
                      ELSE Out([d EXCEPT !.root = Stripped(d.root)], "ok", <<>>)
Find(d)            == IF BadBelow(d.root) THEN Out(d, "err", <<>>) ELSE Out(d, "ok", HasScript(d.root))
Clone(d, clear)    == IF clear THEN [root |-> Map(NoKeys), arr |-> d.arr] ELSE d
Run(d, ft, st)     == LET r == RunDoc(d.root, ft, st) IN
                      [d |-> [d EXCEPT !.root = r.s], c |-> IF r.class = "fail" THEN "err" ELSE r.class,
                       v |-> <<r.code>>, failed |-> <<>>]
Marshal(d)         == IF HasCallback(ValueOf(d)) THEN Out(d, "err", <<>>) ELSE Out(d, "ok", <<ValueOf(d)>>)
(* Eval: text to text, all or nothing *)
Eval(v, ft, st)    == IF ~IsBox(v) THEN Out(EmptyDoc, "err", <<>>)
                      ELSE LET r == Run(DocOf(v), ft, st) IN
                           IF r.c = "ok" THEN Out(r.d, "ok", <<ValueOf(r.d)>>) ELSE Out(r.d, r.c, r.v)

(* --------------------------------------------------------- state machine --- *)
CONSTANTS Handles,      \* names of the documents
          Values,       \* values to load, set and push
          Paths,        \* JSON path texts
          FilterTable, ScriptTable
VARIABLES docs, last    \* last: the operation that was performed and its result
vars == <<docs, last>>

Did(op, h, arg, o) == last' = [op |-> op, h |-> h, arg |-> arg, c |-> o.c, v |-> o.v]
Becomes(h, o)      == docs' = [docs EXCEPT ![h] = o.d]

Init == /\ docs = [h \in Handles |-> EmptyDoc]
        /\ last = [op |-> "init", h |-> "", arg |-> <<>>, c |-> "ok", v |-> <<>>]

DoLoad(h, v)   == LET o == Load(docs[h], v) IN Becomes(h, o) /\ Did("load", h, <<v>>, o)
DoGet(h, p)    == LET o == Get(docs[h], p, FilterTable) IN UNCHANGED docs /\ Did("get", h, <<p>>, o)
DoSet(h, p, v) == LET o == Set(docs[h], p, v, FilterTable) IN
                  o.c = "ok" /\ Becomes(h, o) /\ Did("set", h, <<p, v>>, o)
DoPush(h, p, v, is) == LET o == Push(docs[h], p, v, is, FilterTable) IN
                  o.c = "ok" /\ Becomes(h, o) /\ Did("push", h, <<p, v, is>>, o)
DoPop(h, p, is)== LET o == Pop(docs[h], p, is, FilterTable) IN
                  o.c = "ok" /\ Becomes(h, o) /\ Did("pop", h, <<p, is>>, o)
DoStrip(h)     == LET o == Strip(docs[h]) IN o.c = "ok" /\ Becomes(h, o) /\ Did("strip", h, <<>>, o)
DoRun(h)       == LET o == Run(docs[h], FilterTable, ScriptTable) IN
                  o.c = "ok" /\ Becomes(h, o) /\ Did("run", h, <<>>, o)
DoClone(h, g)  == /\ docs' = [docs EXCEPT ![g] = Clone(docs[h], FALSE)]
                  /\ last' = [op |-> "clone", h |-> g, arg |-> <<h>>, c |-> "ok", v |-> <<>>]
=============================================================================
