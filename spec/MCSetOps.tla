------------------------------ MODULE MCSetOps ------------------------------
(* Pairwise merging against the definition, and independence of the order of *)
(* the inputs, for all lists of small mappings.                              *)
EXTENDS SetOps, TLC
CONSTANTS Keys, Values, Weights, MaxLen
VARIABLE L

Maps == UNION {[K -> Values] : K \in SUBSET Keys}
Inputs == {[none |-> FALSE, m |-> m, w |-> w] : m \in Maps, w \in Weights}
          \cup {[none |-> TRUE, m |-> <<>>, w |-> 1]}
Init == L = <<>>
Next == Len(L) < MaxLen /\ \E x \in Inputs : L' = Append(L, x)
Spec == Init /\ [][Next]_L

Some == SelectSeq(L, LAMBDA x : ~x.none)
UnionExact == Some = L => MergeUnion(L) = SOUnion(L)
InterExact == MergeInter(Some) = SOInter(L)
OrderFree ==
  \A i \in DOMAIN L : i > 1 =>
    LET M == [j \in DOMAIN L |-> IF j = i THEN L[1] ELSE IF j = 1 THEN L[i] ELSE L[j]]
    IN SOUnion(M) = SOUnion(L) /\ SOInter(M) = SOInter(L)
=============================================================================
