------------------------------ MODULE TextTxn -------------------------------
EXTENDS TextTrace, TxnTrace

XMerge(cfg, base, view, db) ==
  IF db = base THEN view ELSE [db EXCEPT !.docs = Overlay(base.docs, view.docs, db.docs)]
XDocs2(cfg, s) == [d \in DOMAIN s.docs |-> Range(s.docs[d])]
=============================================================================
