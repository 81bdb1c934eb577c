----------------------------- MODULE KeywordTxn -----------------------------
EXTENDS KeywordTrace, TxnTrace

RECURSIVE KOf(_, _, _)
KOf(s, docs, ds) ==
  IF ds = {} THEN s ELSE LET d == CHOOSE x \in ds : TRUE IN KOf(KIndex(s, d, docs[d]), docs, ds \ {d})
KMerge(cfg, base, view, db) ==
  IF db = base THEN view
  ELSE LET docs == Overlay(KDocs(base.ix), KDocs(view.ix), KDocs(db.ix))
           th == IF view.ix.th # base.ix.th THEN view.ix.th ELSE db.ix.th
       IN [db EXCEPT !.ix = KOf([KInit EXCEPT !.th = th], docs, DOMAIN docs)]
KDocs2(cfg, s) == KDocs(s.ix)
=============================================================================
