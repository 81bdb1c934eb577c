------------------------------ MODULE TopicTxn ------------------------------
(* Filters are added and removed by one session at a time only.              *)
EXTENDS TopicTrace, TxnTrace

TMerge(cfg, base, view, db) ==
  IF db = base THEN view
  ELSE [db EXCEPT !.ix.objs = [f \in DOMAIN @ |->
          IF f \in DOMAIN base.ix.objs /\ f \in DOMAIN view.ix.objs
          THEN [@[f] EXCEPT !.ids = SetOverlay(base.ix.objs[f].ids, view.ix.objs[f].ids, @)]
          ELSE @[f]]]
TDocs2(cfg, s) ==
  LET O == s.ix.objs
  IN [d \in UNION {O[f].ids : f \in DOMAIN O} |-> {f \in DOMAIN O : d \in O[f].ids}]
=============================================================================
