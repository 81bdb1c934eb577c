------------------------------- MODULE Store --------------------------------
(* The indexes as graphs of persistent objects: what each update reads and   *)
(* writes, and how an object database merges concurrent changes of one       *)
(* object (BTrees conflict resolution).                                      *)
(*                                                                           *)
(* A store maps object ids to objects [t, m, n]: t is "M" (a map m), "S" or  *)
(* "T" (a set or tree set, as a map m to 0) or "L" (a length n).             *)
EXTENDS Util

FWD == 1
REV == 2
NUM == 3
TOT == 4
Map(m) == [t |-> "M", m |-> m, n |-> 0]
SetObj(t, S) == [t |-> t, m |-> [x \in S |-> 0], n |-> 0]
Length(n) == [t |-> "L", m |-> <<>>, n |-> n]
Empty == With(With(With(With(<<>>, FWD, Map(<<>>)), REV, Map(<<>>)), NUM, Length(0)), TOT, Length(0))

\* merging, given the object both transactions started from
Changed(a, b) ==
  {k \in DOMAIN a.m \cup DOMAIN b.m :
     (k \in DOMAIN a.m) # (k \in DOMAIN b.m) \/ (k \in DOMAIN a.m /\ a.m[k] # b.m[k])}
Resolve(old, com, new) ==
  IF old.t = "L" THEN [ok |-> TRUE, v |-> Length(com.n + new.n - old.n)]
  ELSE LET ours == Changed(old, new)
           theirs == Changed(old, com)
           m == [k \in (DOMAIN com.m \ ours) \cup (DOMAIN new.m \cap ours) |->
                   IF k \in ours THEN new.m[k] ELSE com.m[k]]
       IN [ok |-> /\ ours \cap theirs = {}
                  /\ DOMAIN com.m # {} /\ DOMAIN new.m # {} /\ DOMAIN m # {},
           v |-> [old EXCEPT !.m = m]]

\* commit of view, which started from base, when the database is db
Written(base, view) == {o \in DOMAIN view : o \notin DOMAIN base \/ base[o] # view[o]}
CommitStore(base, db, view) ==
  LET ws == Written(base, view)
      stale == {o \in ws : o \in DOMAIN base /\ db[o] # base[o]}
      res == [o \in stale |-> Resolve(base[o], db[o], view[o])]
  IN [ok |-> \A o \in stale : res[o].ok,
      db |-> [o \in DOMAIN db \cup ws |->
                IF o \in stale THEN res[o].v ELSE IF o \in ws THEN view[o] ELSE db[o]]]

Fresh(v, base) == CHOOSE o \in base..(base + 99) : o \notin DOMAIN v /\
                    \A p \in base..(o - 1) : p \in DOMAIN v
Put(v, o, k, x) == [v EXCEPT ![o].m = With(@, k, x)]
Del(v, o, k) == [v EXCEPT ![o].m = Without(@, k)]
Change(v, o, n) == [v EXCEPT ![o].n = @ + n]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y

-----------------------------------------------------------------------------
(* Keyword index.  Converting a set replaces the object; the replaced one is *)
(* emptied when fix holds, so that a concurrent change of it conflicts.      *)
KwConvert(v, b, w, t, fix) ==
  LET o == v[FWD].m[w]
      n == Fresh(v, b)
      v1 == With(v, n, [v[o] EXCEPT !.t = t])
      v2 == IF fix THEN [v1 EXCEPT ![o].m = <<>>] ELSE v1
  IN Put(v2, FWD, w, n)
RECURSIVE KwInsert(_, _, _, _, _, _), KwRemove(_, _, _), KwOptimizeAll(_, _, _, _, _)
KwInsert(v, b, th, fix, d, ws) ==
  IF ws = {} THEN v
  ELSE LET w == Least(ws)
           n == Fresh(v, b)
           v1 == IF w \in DOMAIN v[FWD].m THEN Put(v, v[FWD].m[w], d, 0)
                 ELSE Put(With(v, n, SetObj("S", {d})), FWD, w, n)
           o == v1[FWD].m[w]
           v2 == IF v1[o].t = "S" /\ Cardinality(DOMAIN v1[o].m) >= th
                 THEN KwConvert(v1, b, w, "T", fix) ELSE v1
       IN KwInsert(v2, b, th, fix, d, ws \ {w})
KwRemove(v, d, ws) ==
  IF ws = {} THEN v
  ELSE LET w == Least(ws)
           v1 == Del(v, v[FWD].m[w], d)
       IN KwRemove(IF v1[v[FWD].m[w]].m = <<>> THEN Del(v1, FWD, w) ELSE v1, d, ws \ {w})
KwUnindexO(v, d) ==
  IF d \notin DOMAIN v[REV].m THEN v
  ELSE Change(Del(KwRemove(v, d, v[REV].m[d]), REV, d), NUM, -1)
KwIndexO(v, b, th, fix, d, ws) ==
  IF ws = {} THEN KwUnindexO(v, d)
  ELSE IF d \notin DOMAIN v[REV].m
       THEN Change(Put(KwInsert(v, b, th, fix, d, ws), REV, d, ws), NUM, 1)
       ELSE LET old == v[REV].m[d]
            IN Put(KwInsert(KwRemove(v, d, old \ ws), b, th, fix, d, ws \ old), REV, d, ws)
KwOptimizeAll(v, b, th, fix, ws) ==
  IF ws = {} THEN v
  ELSE LET w == Least(ws)
           o == v[FWD].m[w]
           t == IF Cardinality(DOMAIN v[o].m) >= th THEN "T" ELSE "S"
       IN KwOptimizeAll(IF v[o].t = t THEN v ELSE KwConvert(v, b, w, t, fix), b, th, fix, ws \ {w})
KwOptimizeO(v, b, th, fix) == KwOptimizeAll(v, b, th, fix, DOMAIN v[FWD].m)
KwDocs(v) == v[REV].m
KwFwd(v) == [w \in DOMAIN v[FWD].m |-> DOMAIN v[v[FWD].m[w]].m]
KwGood(v) ==
  LET docs == KwDocs(v)
  IN /\ v[NUM].n = Cardinality(DOMAIN docs)
     /\ KwFwd(v) = [w \in UNION {docs[d] : d \in DOMAIN docs} |-> {d \in DOMAIN docs : w \in docs[d]}]

-----------------------------------------------------------------------------
(* Field index: one value per document, tree sets only.                      *)
FdUnindexO(v, d) ==
  IF d \notin DOMAIN v[REV].m THEN v
  ELSE Change(KwRemove(Del(v, REV, d), d, {v[REV].m[d]}), NUM, -1)
FdIndexO(v, b, d, x) ==
  IF d \in DOMAIN v[REV].m /\ v[REV].m[d] = x THEN v
  ELSE LET n == Fresh(v, b)
           v1 == IF x \in DOMAIN v[FWD].m THEN Put(v, v[FWD].m[x], d, 0)
                 ELSE Put(With(v, n, SetObj("T", {d})), FWD, x, n)
       IN Put(Change(FdUnindexO(v1, d), NUM, 1), REV, d, x)
FdGood(v) ==
  LET docs == v[REV].m
  IN /\ v[NUM].n = Cardinality(DOMAIN docs)
     /\ KwFwd(v) = [x \in Range(docs) |-> {d \in DOMAIN docs : docs[d] = x}]

-----------------------------------------------------------------------------
(* Text index: FWD maps words to postings: [k |-> "D", p |-> map, o |-> 0]   *)
(* stored inside the map object, or [k |-> "B", p |-> <<>>, o |-> object] in *)
(* an object of its own.  NUM counts documents, TOT their words.             *)
TxPost(v, w) == LET x == v[FWD].m[w] IN IF x.k = "D" THEN x.p ELSE v[x.o].m
TxAdd(v, b, cut, w, d, f) ==
  IF w \notin DOMAIN v[FWD].m
  THEN Put(v, FWD, w, [k |-> "D", p |-> With(<<>>, d, f), o |-> 0])
  ELSE LET x == v[FWD].m[w]
           n == Fresh(v, b)
       IN IF x.k = "B" THEN Put(v, x.o, d, f)
          ELSE IF Cardinality(DOMAIN x.p) = cut
               THEN Put(With(v, n, Map(With(x.p, d, f))), FWD, w, [k |-> "B", p |-> <<>>, o |-> n])
               ELSE Put(v, FWD, w, [x EXCEPT !.p = With(@, d, f)])
TxDel(v, w, d) ==
  LET x == v[FWD].m[w]
      left == DOMAIN TxPost(v, w) \ {d}
      v1 == IF x.k = "B" THEN Del(v, x.o, d) ELSE Put(v, FWD, w, [x EXCEPT !.p = Without(@, d)])
  IN IF left = {} THEN Del(v1, FWD, w) ELSE v1
Count(t, w) == Cardinality({i \in DOMAIN t : t[i] = w})
RECURSIVE TxAddAll(_, _, _, _, _, _), TxDelAll(_, _, _)
TxAddAll(v, b, cut, ws, d, t) ==
  IF ws = {} THEN v
  ELSE LET w == Least(ws) IN TxAddAll(TxAdd(v, b, cut, w, d, Count(t, w)), b, cut, ws \ {w}, d, t)
TxDelAll(v, ws, d) ==
  IF ws = {} THEN v ELSE LET w == Least(ws) IN TxDelAll(TxDel(v, w, d), ws \ {w}, d)
TxUnindexO(v, d) ==
  IF d \notin DOMAIN v[REV].m THEN v
  ELSE LET t == v[REV].m[d]
       IN Change(Change(Del(TxDelAll(v, Range(t), d), REV, d), NUM, -1), TOT, -Len(t))
TxIndexO(v, b, cut, d, t) ==
  IF d \notin DOMAIN v[REV].m
  THEN Change(Change(Put(TxAddAll(v, b, cut, Range(t), d, t), REV, d, t), NUM, 1), TOT, Len(t))
  ELSE LET old == v[REV].m[d]
           v1 == TxDelAll(v, Range(old) \ Range(t), d)
           v2 == TxAddAll(v1, b, cut, {w \in Range(t) : Count(old, w) # Count(t, w)}, d, t)
       IN Change(Put(v2, REV, d, t), TOT, Len(t) - Len(old))
TxGood(v) ==
  LET docs == v[REV].m
      ws == UNION {Range(docs[d]) : d \in DOMAIN docs}
      with(w) == {d \in DOMAIN docs : Count(docs[d], w) > 0}
  IN /\ v[NUM].n = Cardinality(DOMAIN docs)
     /\ v[TOT].n = SumSet([d \in DOMAIN docs |-> Len(docs[d])], DOMAIN docs)
     /\ DOMAIN v[FWD].m = ws
     /\ \A w \in ws : TxPost(v, w) = [d \in with(w) |-> Count(docs[d], w)]

-----------------------------------------------------------------------------
(* Topic index: FWD maps filters to their sets.  A document is given by the  *)
(* set of filters it satisfies; there is no other record of documents.       *)
TpAll(v) == DOMAIN v[FWD].m
TpIndexO(v, d, fs) ==
  [o \in DOMAIN v |->
     IF \E f \in TpAll(v) : v[FWD].m[f] = o
     THEN LET f == CHOOSE f \in TpAll(v) : v[FWD].m[f] = o
          IN [v[o] EXCEPT !.m = IF f \in fs THEN With(@, d, 0) ELSE Without(@, d)]
     ELSE v[o]]
RECURSIVE TpNew(_, _)
TpNew(v, fs) == IF fs = {} THEN v
                ELSE LET f == Least(fs) IN TpNew(Put(With(v, 10 + f, SetObj("S", {})), FWD, f, 10 + f), fs \ {f})
=============================================================================
