------------------------------- MODULE MCTopic ------------------------------
(* Small universe: two filter names, filter object f goes by name f % 2;     *)
(* hist records, per filter object, the last object each document was        *)
(* indexed with while the filter was in the index (the property's wording).  *)
EXTENDS TopicIndex, TLC, Json
CONSTANTS Ids, Objs, Exprs, Sat, Flts, Emit
VARIABLES st, hist, act

Init == /\ st = [objs |-> [f \in Flts |-> [expr |-> f % Cardinality(Exprs), ids |-> {}]],
                 flt |-> <<>>]
        /\ hist = [f \in Flts |-> <<>>]
        /\ act = <<"init">>
In(f) == f \in TIn(st)
Next ==
  \/ \E f \in Flts : st' = TAdd(st, f % 2, f) /\ hist' = hist /\ act' = <<"add", f % 2, f>>
  \/ \E n \in DOMAIN st.flt : st' = TDel(st, n) /\ hist' = hist /\ act' = <<"del", n>>
  \/ \E d \in Ids, o \in Objs :
       /\ st' = TIndex(st, Sat, d, o)
       \* what matters is whether the object satisfied the expression then
       /\ hist' = [f \in Flts |-> IF In(f) THEN With(hist[f], d, Sat[st.objs[f].expr][o] = "T") ELSE hist[f]]
       /\ act' = <<"index", d, o>>
  \/ \E d \in Ids :
       /\ st' = TUnindex(st, d)
       /\ hist' = [f \in Flts |-> IF In(f) THEN Without(hist[f], d) ELSE hist[f]]
       /\ act' = <<"unindex", d>>
  \/ /\ st' = TClearFilters(st)
     /\ hist' = [f \in Flts |-> IF In(f) THEN <<>> ELSE hist[f]]
     /\ act' = <<"clearfilters">>
  \/ \E f \in Flts, x \in Exprs :
       x # st.objs[f].expr /\ st' = TSetExpr(st, f, x) /\ hist' = hist /\ act' = <<"setexpr", f, x>>
  \/ st' = TClear(st) /\ hist' = hist /\ act' = <<"clear">>
Spec == Init /\ [][Next]_<<st, hist, act>>
View == <<st, hist>>

Membership == \A f \in Flts : st.objs[f].ids = {d \in DOMAIN hist[f] : hist[f][d]}
SearchLaws ==
  \A q \in SUBSET {0, 1, 7} :
    /\ TSearch(st, q, "and") = TSearch(st, q \cap DOMAIN st.flt, "and")
    /\ q \cap DOMAIN st.flt # {} => TSearch(st, q, "and") \subseteq TSearch(st, q, "or")
    /\ \A d \in Ids : d \in TSearch(st, q, "or") <=> \E n \in q \cap DOMAIN st.flt : d \in TIds(st, n)
\* context.even, context.boom(), context.nobool for objects 0, 1, 2, 5 of the
\* driver of the topic index
SatDef == 0 :> (0 :> "T" @@ 1 :> "F" @@ 2 :> "T" @@ 3 :> "F") @@
          1 :> (0 :> "F" @@ 1 :> "E" @@ 2 :> "T" @@ 3 :> "F") @@
          2 :> (0 :> "E" @@ 1 :> "T" @@ 2 :> "T" @@ 3 :> "T")
Key(s) == <<Pairs(s.objs), Pairs(s.flt)>>
EmitT == Emit => PrintT("@@T " \o ToJson(<<Key(st), act', Key(st')>>))
=============================================================================
