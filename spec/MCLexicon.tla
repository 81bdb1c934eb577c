----------------------------- MODULE MCLexicon ------------------------------
(* Lexicons over few words and ids: every admissible numbering stays one to  *)
(* one and never changes.                                                    *)
EXTENDS Lexicon, TLC
CONSTANTS Ws, Wids, MaxText
VARIABLE known

Texts == UNION {[1..n -> Ws] : n \in 0..MaxText}
Init == known = <<>>
Next == \E t \in Texts : \E r \in [DOMAIN t -> Wids] :
          Admits(known, t, r) /\ known' = Learn(known, t, r)
Spec == Init /\ [][Next]_known

NumberingOk == OneToOne(known) /\ 0 \notin Range(known)
Stable == [][\A w \in DOMAIN known : w \in DOMAIN known' /\ known'[w] = known[w]]_known
Repeatable == \A t \in Texts : \A r \in [DOMAIN t -> Wids] :
  Admits(known, t, r) => \A u \in [DOMAIN t -> Wids] :
    Admits(Learn(known, t, r), t, u) => u = r
=============================================================================
