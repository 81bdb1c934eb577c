------------------------------- MODULE LexTxn -------------------------------
EXTENDS LexTrace, TxnTrace

LMerge(cfg, base, view, db) ==
  IF db = base THEN view ELSE [db EXCEPT !.known = Overlay(base.known, view.known, db.known)]
LDocs2(cfg, s) == <<>>
=============================================================================
