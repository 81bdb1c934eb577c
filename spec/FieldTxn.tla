------------------------------ MODULE FieldTxn ------------------------------
EXTENDS FieldTrace, TxnTrace

RECURSIVE FOf(_, _, _)
FOf(s, docs, ds) ==
  IF ds = {} THEN s ELSE LET d == CHOOSE x \in ds : TRUE IN FOf(FIndex(s, d, docs[d]), docs, ds \ {d})
FMerge(cfg, base, view, db) ==
  IF db = base THEN view
  ELSE LET docs == Overlay(FDocs(base.ix), FDocs(view.ix), FDocs(db.ix))
       IN [db EXCEPT !.ix = FOf(FInit, docs, DOMAIN docs)]
FDocs2(cfg, s) == LET m == FDocs(s.ix) IN [d \in DOMAIN m |-> {m[d]}]
=============================================================================
