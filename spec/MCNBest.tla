------------------------------ MODULE MCNBest -------------------------------
(* The chooser against the whole history of additions, and the two parallel  *)
(* lists of the code against the chooser.                                    *)
EXTENDS NBest, TLC, Json
CONSTANTS Caps, Scores, MaxOps, Emit
VARIABLES cap, list, impl, added, popped, hist

Init == /\ cap \in Caps
        /\ list = <<>> /\ impl = [scores |-> <<>>, items |-> <<>>]
        /\ added = <<>> /\ popped = 0 /\ hist = <<>>
Add(x) ==
  LET it == Len(added) + 1
  IN /\ list' = NBAdd(list, cap, it, x)
     /\ impl' = NBImplAdd(impl, cap, it, x)
     /\ added' = Append(added, <<it, x>>)
     /\ hist' = Append(hist, x)
     /\ UNCHANGED <<cap, popped>>
Pop ==
  /\ list # <<>>
  /\ list' = NBPop(list) /\ impl' = NBImplPop(impl)
  /\ popped' = popped + 1 /\ hist' = Append(hist, -1)
  /\ UNCHANGED <<cap, added>>
Next == Len(added) + popped < MaxOps /\ (Pop \/ \E x \in Scores : Add(x))
Spec == Init /\ [][Next]_<<cap, list, impl, added, popped, hist>>

Refines == NBImplList(impl) = list
NBestOfAll == popped = 0 => list = NBFirst(added, cap)
Ordered ==
  /\ Len(list) <= cap
  /\ \A i, j \in DOMAIN list : i < j =>
       list[i][2] > list[j][2] \/ (list[i][2] = list[j][2] /\ list[i][1] < list[j][1])
\* complete histories, -1 standing for a removal
EmitT == (Emit /\ Len(hist') = MaxOps) => PrintT("@@S " \o ToJson(<<cap, hist'>>))
=============================================================================
