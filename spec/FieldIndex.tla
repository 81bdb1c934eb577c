----------------------------- MODULE FieldIndex -----------------------------
(* Field index: zope.index.field.index.FieldIndex and the sorting mixin      *)
(* zope.index.field.sorting.SortingIndexMixin.                               *)
(*                                                                           *)
(* Documents are integers, values are integers too: the rank of the value in *)
(* the total order of the values in use.  The state has the three parts of   *)
(* the implementation: the forward map (value -> non-empty set of docids),   *)
(* the reverse map (docid -> value) and the counter.  The abstract content   *)
(* of an index is its reverse map, FDocs.                                    *)
EXTENDS Util

FInit == [fwd |-> <<>>, rev |-> <<>>, num |-> 0]
FDocs(s) == s.rev

FUnindex(s, d) ==
  IF d \notin DOMAIN s.rev THEN s
  ELSE LET v == s.rev[d]
           set == s.fwd[v] \ {d}
       IN [fwd |-> IF set = {} THEN Without(s.fwd, v) ELSE With(s.fwd, v, set),
           rev |-> Without(s.rev, d),
           num |-> s.num - 1]

FIndex(s, d, v) ==
  IF d \in DOMAIN s.rev /\ d \in Get(s.fwd, v, {}) THEN s
  ELSE LET s1 == [s EXCEPT !.fwd = With(@, v, Get(@, v, {}) \cup {d})]
           s2 == FUnindex(s1, d)
       IN [s2 EXCEPT !.num = @ + 1, !.rev = With(@, d, v)]

FClear(s) == FInit

\* A bound is <<open, value>>.
FInRange(v, lo, hi) == (lo[1] = 1 \/ v >= lo[2]) /\ (hi[1] = 1 \/ v <= hi[2])

FApply(s, lo, hi) ==
  UNION {s.fwd[v] : v \in {w \in DOMAIN s.fwd : FInRange(w, lo, hi)}}

FWordCount(s) == Cardinality(DOMAIN s.fwd)

-----------------------------------------------------------------------------
(* The abstract meaning of the answers, over the contents only.              *)
AMatch(docs, lo, hi) == {d \in DOMAIN docs : FInRange(docs[d], lo, hi)}
ACount(docs) == Cardinality(DOMAIN docs)
AWords(docs) == Cardinality({docs[d] : d \in DOMAIN docs})

\* out lists the lim (0: all) first indexed ids of coll in the order of values
AIsSorted(docs, coll, rev, lim, out) ==
  LET idx == coll \cap DOMAIN docs
      n == IF lim = 0 THEN Cardinality(idx) ELSE Min2(lim, Cardinality(idx))
      Before(a, b) == IF rev THEN docs[a] >= docs[b] ELSE docs[a] <= docs[b]
  IN /\ Len(out) = n
     /\ Range(out) \subseteq idx
     /\ Cardinality(Range(out)) = n
     /\ \A i \in 1..(n - 1) : Before(out[i], out[i + 1])
     /\ n > 0 => \A d \in idx \ Range(out) : Before(out[n], d)

FConsistent(s) ==
  /\ s.num = Cardinality(DOMAIN s.rev)
  /\ \A v \in DOMAIN s.fwd : s.fwd[v] # {} /\ s.fwd[v] = {d \in DOMAIN s.rev : s.rev[d] = v}
  /\ \A d \in DOMAIN s.rev : s.rev[d] \in DOMAIN s.fwd

-----------------------------------------------------------------------------
(* The three sorting strategies of the implementation, as algorithms over    *)
(* its state.  They are interchangeable: each satisfies AIsSorted.           *)
Trunc(seq, lim) == IF lim = 0 \/ lim >= Len(seq) THEN seq ELSE SubSeq(seq, 1, lim)

RECURSIVE InsertBy(_, _, _)
\* stable insertion of x into the ordered sequence q; le is a relation
InsertBy(q, x, le) ==
  IF q = <<>> THEN <<x>>
  ELSE IF le[<<Head(q), x>>] THEN <<Head(q)>> \o InsertBy(Tail(q), x, le)
       ELSE <<x>> \o q

RECURSIVE SortBy(_, _)
SortBy(q, le) ==
  IF q = <<>> THEN <<>>
  ELSE InsertBy(SortBy(SubSeq(q, 1, Len(q) - 1), le), q[Len(q)], le)

FIndexed(s, coll) == SelectSeq(Asc(coll), LAMBDA d : d \in DOMAIN s.rev)

FSortFull(s, coll, rev, lim) ==
  LET D == DOMAIN s.rev
  IN Trunc(SortBy(FIndexed(s, coll),
           IF rev THEN [p \in D \X D |-> s.rev[p[1]] >= s.rev[p[2]]]
                  ELSE [p \in D \X D |-> s.rev[p[1]] <= s.rev[p[2]]]), lim)

FSortLazy(s, coll, lim) ==
  LET vs == Asc(DOMAIN s.fwd)
  IN Trunc(Concat([i \in DOMAIN vs |-> Asc(s.fwd[vs[i]] \cap coll)]), lim)

PairLE(s, a, b) == s.rev[a] < s.rev[b] \/ (s.rev[a] = s.rev[b] /\ a <= b)

PairOrder(s) ==
  [p \in (DOMAIN s.rev) \X (DOMAIN s.rev) |-> PairLE(s, p[1], p[2])]

RECURSIVE NSmallest(_, _, _)
\* result is an ordered sequence of at most lim ids; q the ids still to come
NSmallest(s, q, result) ==
  IF q = <<>> THEN result
  ELSE IF PairLE(s, result[Len(result)], Head(q)) THEN NSmallest(s, Tail(q), result)
       ELSE NSmallest(s, Tail(q),
              LET r == InsertBy(result, Head(q), PairOrder(s))
              IN SubSeq(r, 1, Len(r) - 1))

FSortNBest(s, coll, rev, lim) ==
  LET q == FIndexed(s, coll)
      n == Min2(lim, Len(q))
  IN IF rev
     THEN Trunc(SortBy(q, [p \in (DOMAIN s.rev) \X (DOMAIN s.rev) |-> PairLE(s, p[2], p[1])]), lim)
     ELSE IF q = <<>> THEN <<>>
          ELSE NSmallest(s, SubSeq(q, n + 1, Len(q)),
                 SortBy(SubSeq(q, 1, n), PairOrder(s)))

FSort(s, coll, rev, lim) ==
  LET rlen == Cardinality(coll)
      lazy == 100 * rlen > s.num * (rlen + 100)
      nbest == lim # 0 /\ lim * 4 < rlen
  IN IF s.num = 0 \/ coll = {} THEN <<>>
     ELSE IF nbest THEN FSortNBest(s, coll, rev, lim)
     ELSE IF lazy /\ ~rev THEN FSortLazy(s, coll, lim)
     ELSE FSortFull(s, coll, rev, lim)
=============================================================================
