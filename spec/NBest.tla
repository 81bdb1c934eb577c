------------------------------- MODULE NBest --------------------------------
(* zope.index.nbest.  The chooser is the sequence of its <<item, score>>     *)
(* pairs from best to worst.                                                 *)
EXTENDS Util

NBAdd(list, cap, item, score) ==
  IF Len(list) = cap /\ score <= list[cap][2] THEN list
  ELSE LET k == Cardinality({i \in DOMAIN list : list[i][2] >= score})
           new == SubSeq(list, 1, k) \o <<<<item, score>>>> \o SubSeq(list, k + 1, Len(list))
       IN SubSeq(new, 1, Min2(cap, Len(new)))

RECURSIVE NBAddMany(_, _, _)
NBAddMany(list, cap, ps) ==
  IF ps = <<>> THEN list ELSE NBAddMany(NBAdd(list, cap, ps[1][1], ps[1][2]), cap, Tail(ps))

NBPop(list) == SubSeq(list, 1, Len(list) - 1)

\* the meaning: the cap first of all pairs added, by descending score and,
\* among equal scores, in the order they were added
RECURSIVE NBSorted(_)
NBSorted(ps) ==
  IF ps = <<>> THEN <<>>
  ELSE LET i == CHOOSE i \in DOMAIN ps : \A j \in DOMAIN ps :
                   ps[j][2] < ps[i][2] \/ (ps[j][2] = ps[i][2] /\ i <= j)
       IN <<ps[i]>> \o NBSorted([j \in 1..(Len(ps) - 1) |-> IF j < i THEN ps[j] ELSE ps[j + 1]])
NBFirst(ps, cap) == SubSeq(NBSorted(ps), 1, Min2(cap, Len(ps)))

\* the code keeps two parallel ascending lists and inserts with bisect_left
RECURSIVE Bisect(_, _, _, _)
Bisect(s, x, lo, hi) ==      \* 0-based positions
  IF lo >= hi THEN lo
  ELSE LET mid == (lo + hi) \div 2
       IN IF s[mid + 1] < x THEN Bisect(s, x, mid + 1, hi) ELSE Bisect(s, x, lo, mid)
NBImplAdd(st, cap, item, score) ==
  LET n == Len(st.scores)
      i == Bisect(st.scores, score, 0, n)
      ins(s, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
      cut(s) == IF n = cap THEN Tail(s) ELSE s
  IN IF n >= cap /\ score <= st.scores[1] THEN st
     ELSE [scores |-> cut(ins(st.scores, score)), items |-> cut(ins(st.items, item))]
NBImplPop(st) == [scores |-> Tail(st.scores), items |-> Tail(st.items)]
NBImplList(st) ==
  LET n == Len(st.items) IN [i \in 1..n |-> <<st.items[n + 1 - i], st.scores[n + 1 - i]>>]
=============================================================================
