---------------------------- MODULE KeywordIndex ----------------------------
(* Keyword index: zope.index.keyword.index.KeywordIndex and                  *)
(* CaseInsensitiveKeywordIndex.                                              *)
(*                                                                           *)
(* Keywords are integers (after normalization), documents too.  fwd maps a   *)
(* keyword to the non-empty set of its documents, kind tells whether that    *)
(* posting set is stored as a Set ("S") or a TreeSet ("T"), rev maps a       *)
(* document to its non-empty set of keywords.                                *)
EXTENDS Util

KInit == [fwd |-> <<>>, kind |-> <<>>, rev |-> <<>>, num |-> 0, th |-> 64]
KDocs(s) == s.rev

KRemove(s, w, d) ==
  LET set == s.fwd[w] \ {d}
  IN IF set = {} THEN [s EXCEPT !.fwd = Without(@, w), !.kind = Without(@, w)]
     ELSE [s EXCEPT !.fwd[w] = set]

KInsert(s, w, d) ==
  LET set == Get(s.fwd, w, {}) \cup {d}
      k == Get(s.kind, w, "S")
  IN [s EXCEPT !.fwd = With(@, w, set),
               !.kind = With(@, w, IF Cardinality(set) >= s.th THEN "T" ELSE k)]

RECURSIVE KRemoveAll(_, _, _), KInsertAll(_, _, _)
KRemoveAll(s, ws, d) ==
  IF ws = {} THEN s
  ELSE LET w == CHOOSE x \in ws : \A y \in ws : x <= y
       IN KRemoveAll(KRemove(s, w, d), ws \ {w}, d)
KInsertAll(s, ws, d) ==
  IF ws = {} THEN s
  ELSE LET w == CHOOSE x \in ws : \A y \in ws : x <= y
       IN KInsertAll(KInsert(s, w, d), ws \ {w}, d)

KUnindex(s, d) ==
  IF d \notin DOMAIN s.rev THEN s
  ELSE LET s1 == KRemoveAll(s, s.rev[d], d)
       IN [s1 EXCEPT !.rev = Without(@, d), !.num = @ - 1]

\* index document d with the set ws of normalized keywords
KIndex(s, d, ws) ==
  IF ws = {} THEN KUnindex(s, d)
  ELSE IF d \notin DOMAIN s.rev
       THEN LET s1 == KInsertAll(s, ws, d)
            IN [s1 EXCEPT !.rev = With(@, d, ws), !.num = @ + 1]
       ELSE LET old == s.rev[d]
                s1 == KRemoveAll(s, old \ ws, d)
                s2 == KInsertAll(s1, ws \ old, d)
            IN [s2 EXCEPT !.rev[d] = ws]

KClear(s) == [KInit EXCEPT !.th = s.th]
KThreshold(s, n) == [s EXCEPT !.th = n]
KOptimize(s) ==
  [s EXCEPT !.kind = [w \in DOMAIN s.fwd |->
     IF Cardinality(s.fwd[w]) >= s.th THEN "T" ELSE "S"]]

\* search for a set q of normalized keywords
KSearch(s, q, opr) ==
  IF opr = "or" THEN UNION {Get(s.fwd, w, {}) : w \in q}
  ELSE IF q = {} THEN {}
       ELSE {d \in Get(s.fwd, CHOOSE w \in q : TRUE, {}) :
               \A w \in q : d \in Get(s.fwd, w, {})}

-----------------------------------------------------------------------------
(* The abstract meaning of the answers, over the contents only.              *)
AKSearch(docs, q, opr) ==
  IF opr = "or" THEN {d \in DOMAIN docs : docs[d] \cap q # {}}
  ELSE {d \in DOMAIN docs : q # {} /\ q \subseteq docs[d]}
AKWords(docs) == Cardinality(UNION {docs[d] : d \in DOMAIN docs})

KConsistent(s) ==
  /\ s.num = Cardinality(DOMAIN s.rev)
  /\ DOMAIN s.kind = DOMAIN s.fwd
  /\ DOMAIN s.fwd = UNION {s.rev[d] : d \in DOMAIN s.rev}
  /\ \A w \in DOMAIN s.fwd : s.fwd[w] = {d \in DOMAIN s.rev : w \in s.rev[d]}
  /\ \A d \in DOMAIN s.rev : s.rev[d] # {}
=============================================================================
