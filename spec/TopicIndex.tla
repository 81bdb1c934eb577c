----------------------------- MODULE TopicIndex -----------------------------
(* Topic index: zope.index.topic.index.TopicIndex with PythonFilteredSet.    *)
(*                                                                           *)
(* objs: filter objects (identified by integers), each with its expression   *)
(* and the set of ids it holds; flt maps a filter name to the object the     *)
(* index holds under that name.  sat[expr][object] tells whether the         *)
(* expression is satisfied: "T", "F", or "E" when its evaluation fails.      *)
EXTENDS Util

TInit0 == [objs |-> <<>>, flt |-> <<>>]

\* a new filter object f with expression x, not in the index
TNew(s, f, x) == [s EXCEPT !.objs = With(@, f, [expr |-> x, ids |-> {}])]
TAdd(s, name, f) == [s EXCEPT !.flt = With(@, name, f)]
TDel(s, name) == [s EXCEPT !.flt = Without(@, name)]
TSetExpr(s, f, x) == [s EXCEPT !.objs[f].expr = x]
TClear(s) == [s EXCEPT !.flt = <<>>]

TIn(s) == Range(s.flt)
TMap(s, F(_)) ==
  [s EXCEPT !.objs = [f \in DOMAIN @ |-> IF f \in TIn(s) THEN F(@[f]) ELSE @[f]]]
TClearFilters(s) == TMap(s, LAMBDA o : [o EXCEPT !.ids = {}])
TIndex(s, sat, d, obj) ==
  TMap(s, LAMBDA o : [o EXCEPT !.ids = IF sat[o.expr][obj] = "T" THEN @ \cup {d} ELSE @ \ {d}])
TUnindex(s, d) == TMap(s, LAMBDA o : [o EXCEPT !.ids = @ \ {d}])

TIds(s, name) == s.objs[s.flt[name]].ids

TSearch(s, names, opr) ==
  LET known == names \cap DOMAIN s.flt
  IN IF known = {} THEN {}
     ELSE IF opr = "or" THEN UNION {TIds(s, n) : n \in known}
          ELSE {d \in TIds(s, CHOOSE n \in known : TRUE) : \A n \in known : d \in TIds(s, n)}
=============================================================================
