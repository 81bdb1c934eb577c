-------------------------------- MODULE Util --------------------------------
(* Small helpers shared by every specification module.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}

Restrict(f, S) == [x \in S |-> f[x]]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Get(f, x, default) == IF x \in DOMAIN f THEN f[x] ELSE default

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

NoDups(s) == Cardinality(Range(s)) = Len(s)

\* a function given as a sequence of pairs <<key, value>>
FromPairs(ps) ==
  [k \in {ps[i][1] : i \in DOMAIN ps} |->
     (CHOOSE i \in DOMAIN ps : ps[i][1] = k /\ \A j \in DOMAIN ps : j > i => ps[j][1] # k) ]
PairsFn(ps) ==
  LET pos == FromPairs(ps) IN [k \in DOMAIN pos |-> ps[pos[k]][2]]

Pairs(f) == {<<x, f[x]>> : x \in DOMAIN f}

FN == INSTANCE Functions
\* sum of f[x] over x in S
SumSet(f, S) == FN!FoldFunctionOnSet(+, 0, f, S)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

\* ascending sequence of a set of integers
SQ == INSTANCE SequencesExt
Asc(S) == SQ!SetToSortSeq(S, LAMBDA a, b : a < b)

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

\* results in recorded traces are records [k |-> kind, v |-> value]
IsIds(r, S) == r.k = "ids" /\ NoDups(r.v) /\ Range(r.v) = S
IsInt(r, n) == r.k = "int" /\ r.v = n
IsExc(r, names) == r.k = "exc" /\ r.v \in names
IsBool(r, b) == r.k = "bool" /\ r.v = b

Clause(name, ok) == IF ok THEN {} ELSE {name}
=============================================================================
