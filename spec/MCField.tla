------------------------------ MODULE MCField -------------------------------
(* Exhaustive exploration of the field index over small constants.           *)
EXTENDS FieldIndex, TLC, Json
CONSTANTS Ids, Vals, Emit
VARIABLES st, act

Init == st = FInit /\ act = <<"init">>
Next ==
  \/ \E d \in Ids, v \in Vals : st' = FIndex(st, d, v) /\ act' = <<"index", d, v>>
  \/ \E d \in Ids : st' = FUnindex(st, d) /\ act' = <<"unindex", d>>
  \/ st' = FClear(st) /\ act' = <<"clear">>
Spec == Init /\ [][Next]_<<st, act>>
View == st

Bounds == {<<1, 0>>} \cup {<<0, v>> : v \in (Vals \cup {-1})}

Consistent == FConsistent(st)
ApplyExact == \A lo, hi \in Bounds : FApply(st, lo, hi) = AMatch(FDocs(st), lo, hi)
CountsExact == st.num = ACount(FDocs(st)) /\ FWordCount(st) = AWords(FDocs(st))
Extra == {90, 91, 92, 93, 94}
SortExact ==
  \A c \in SUBSET Ids, x \in {{}, Extra} : \A lim \in 0..(Cardinality(Ids) + 1) :
    LET coll == c \cup x IN
    /\ \A rev \in BOOLEAN :
         /\ AIsSorted(FDocs(st), coll, rev, lim, FSort(st, coll, rev, lim))
         /\ AIsSorted(FDocs(st), coll, rev, lim, FSortFull(st, coll, rev, lim))
         /\ lim > 0 => AIsSorted(FDocs(st), coll, rev, lim, FSortNBest(st, coll, rev, lim))
    /\ AIsSorted(FDocs(st), coll, FALSE, lim, FSortLazy(st, coll, lim))
\* the contents depend on the last operation on each document only (C29):
\* two operations on different documents commute, and reindexing absorbs
Forgetful ==
  \A d \in Ids, v, w \in Vals :
    /\ FIndex(FIndex(st, d, v), d, w) = FIndex(st, d, w)
    /\ FUnindex(FIndex(st, d, v), d) = FUnindex(st, d)
    /\ \A e \in Ids \ {d} : FIndex(FIndex(st, d, v), e, w) = FIndex(FIndex(st, e, w), d, v)

EmitT == Emit => PrintT("@@T " \o ToJson(<<Pairs(st.rev), act', Pairs(st'.rev)>>))
=============================================================================
