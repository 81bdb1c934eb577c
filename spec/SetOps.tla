------------------------------- MODULE SetOps -------------------------------
(* zope.index.text.setops: weighted unions and intersections of a sequence   *)
(* of mappings with weights.  An input is [none |-> BOOLEAN, m |-> mapping,  *)
(* w |-> weight].                                                            *)
EXTENDS Util

Having(L, k) == {i \in DOMAIN L : k \in DOMAIN L[i].m}
Weighted(L, k) == SumSet([i \in DOMAIN L |-> IF k \in DOMAIN L[i].m THEN L[i].w * L[i].m[k] ELSE 0],
                         DOMAIN L)
SOUnion(L) == [k \in UNION {DOMAIN L[i].m : i \in DOMAIN L} |-> Weighted(L, k)]
SOInter(L0) ==
  LET L == SelectSeq(L0, LAMBDA x : ~x.none)
  IN IF L = <<>> THEN <<>>
     ELSE [k \in {k \in DOMAIN L[1].m : Having(L, k) = DOMAIN L} |-> Weighted(L, k)]

\* as the code does it: two mappings at a time, the smallest first
WUnion(x, y, wx, wy) ==
  [k \in DOMAIN x \cup DOMAIN y |->
     (IF k \in DOMAIN x THEN wx * x[k] ELSE 0) + (IF k \in DOMAIN y THEN wy * y[k] ELSE 0)]
WInter(x, y, wx, wy) == [k \in DOMAIN x \cap DOMAIN y |-> wx * x[k] + wy * y[k]]
Size(x) == Cardinality(DOMAIN x.m)
\* index of an input of least size, the first (last) such
FirstLeast(L) == CHOOSE i \in DOMAIN L : \A j \in DOMAIN L :
                   Size(L[i]) < Size(L[j]) \/ (Size(L[i]) = Size(L[j]) /\ i <= j)
LastLeast(L) == CHOOSE i \in DOMAIN L : \A j \in DOMAIN L :
                   Size(L[i]) < Size(L[j]) \/ (Size(L[i]) = Size(L[j]) /\ i >= j)
Drop(L, i) == [j \in 1..(Len(L) - 1) |-> IF j < i THEN L[j] ELSE L[j + 1]]
Scaled(x) == [k \in DOMAIN x.m |-> x.w * x.m[k]]
RECURSIVE MergeUnion(_)
MergeUnion(L) ==
  IF Len(L) = 0 THEN <<>>
  ELSE IF Len(L) = 1 THEN Scaled(L[1])
  ELSE LET i == LastLeast(L)      \* NBest lists equal sizes oldest first
           L1 == Drop(L, i)
           j == LastLeast(L1)
       IN MergeUnion(Append(Drop(L1, j),
            [none |-> FALSE, w |-> 1, m |-> WUnion(L[i].m, L1[j].m, L[i].w, L1[j].w)]))
RECURSIVE MergeInter(_)
MergeInter(L) ==
  IF Len(L) = 0 THEN <<>>
  ELSE IF Len(L) = 1 THEN Scaled(L[1])
  ELSE LET i == FirstLeast(L)
           L1 == Drop(L, i)
           j == FirstLeast(L1)
           m == WInter(L[i].m, L1[j].m, L[i].w, L1[j].w)
       IN MergeInter(<<[none |-> FALSE, w |-> 1, m |-> m]>> \o Drop(L1, j))
=============================================================================
