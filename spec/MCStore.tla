------------------------------ MODULE MCStore -------------------------------
(* Sessions updating an index stored in an object database, for each kind of *)
(* index.  adb and the sessions' a-parts carry the meaning: a map from       *)
(* documents to their values, transactions being atomic changes of entries.  *)
(* A topic index has no record of documents: its entries are <<filter, doc>>.*)
(* With Emit, histories are printed in which all sessions begin first and    *)
(* make their updates in the order of their numbers.                         *)
EXTENDS Store, TLC, Json
CONSTANTS Kind, Ids, Vals, Inits, Th, Fix, Sessions, MaxOps, Emit
VARIABLES db, adb, ver, bulk, ses, hist, init

vars == <<db, adb, ver, bulk, ses, hist, init>>
\* values of documents per kind: keyword sets, fields, texts, satisfied filters
Val(x) == CASE Kind = "kwd" -> <<{0}, {0, 1}, {1}>>[x]
            [] Kind = "field" -> x
            [] Kind = "text" -> <<<<0>>, <<0, 1>>, <<1, 1>>>>[x]
            [] Kind = "topic" -> <<{0}, {0, 1}, {1}>>[x]
ObjIndex(v, b, d, x) ==
  CASE Kind = "kwd" -> KwIndexO(v, b, Th, Fix, d, Val(x))
    [] Kind = "field" -> FdIndexO(v, b, d, Val(x))
    [] Kind = "text" -> TxIndexO(v, b, Th, d, Val(x))
    [] Kind = "topic" -> TpIndexO(v, d, Val(x))
ObjUnindex(v, d) ==
  CASE Kind = "kwd" -> KwUnindexO(v, d)
    [] Kind = "field" -> FdUnindexO(v, d)
    [] Kind = "text" -> TxUnindexO(v, d)
    [] Kind = "topic" -> TpIndexO(v, d, {})
ObjEmpty == IF Kind = "topic" THEN TpNew(Empty, {0, 1}) ELSE Empty

\* the same on the meaning
Entries(d, fs) == {<<f, d>> : f \in fs}
AUnindex(a, d) ==
  IF Kind = "topic" THEN [k \in {x \in DOMAIN a : x[2] # d} |-> 0] ELSE Without(a, d)
AIndex(a, d, x) ==
  IF Kind = "topic" THEN [k \in DOMAIN AUnindex(a, d) \cup Entries(d, Val(x)) |-> 0]
  ELSE With(a, d, Val(x))

\* initial contents: sequences of <<doc, value>>
RECURSIVE Fill(_, _)
Fill(v, ps) == IF ps = <<>> THEN v ELSE Fill(ObjIndex(v, 100, ps[1][1], ps[1][2]), Tail(ps))
RECURSIVE AFill(_, _)
AFill(a, ps) == IF ps = <<>> THEN a ELSE AFill(AIndex(a, ps[1][1], ps[1][2]), Tail(ps))
InitsDef == << <<>>, <<<<0, 1>>>>, <<<<0, 2>>, <<1, 1>>>>, <<<<0, 1>>, <<1, 1>>>> >>
InitsPop == << <<<<0, 2>>, <<1, 2>>>>, <<<<0, 1>>, <<1, 3>>, <<2, 2>>>> >>
Max11 == <<1, 1>>
Max12 == <<1, 2>>
Max22 == <<2, 2>>
Max111 == <<1, 1, 1>>

Idle == [on |-> FALSE, base |-> <<>>, view |-> <<>>, abase |-> <<>>, aview |-> <<>>,
         ver |-> 0, ops |-> 0, done |-> FALSE, adds |-> TRUE]
Init == /\ init \in DOMAIN Inits
        /\ db = Fill(ObjEmpty, Inits[init]) /\ adb = AFill(<<>>, Inits[init])
        /\ ver = 0 /\ bulk = 0 /\ ses = [s \in Sessions |-> Idle] /\ hist = <<>>

Log(x) == hist' = IF Emit THEN Append(hist, x) ELSE <<>>
Begin(s) ==
  /\ ~ses[s].on /\ ~ses[s].done /\ (Emit => \A t \in Sessions : t < s => ses[t].on)
  /\ ses' = [ses EXCEPT ![s] = [on |-> TRUE, base |-> db, view |-> db, abase |-> adb, aview |-> adb,
                                ver |-> ver, ops |-> 0, done |-> FALSE, adds |-> TRUE]]
  /\ Log(<<"begin", s>>) /\ UNCHANGED <<db, adb, ver, bulk, init>>
\* does the update merely add a document, under values used by documents enough
EntryDocs(a) == IF Kind = "topic" THEN {k[2] : k \in DOMAIN a} ELSE DOMAIN a
Users(a, w) == IF Kind = "topic" THEN {k[2] : k \in {x \in DOMAIN a : x[1] = w}}
               ELSE {d \in DOMAIN a : w \in (IF Kind = "field" THEN {a[d]} ELSE a[d])}
Values(x) == IF Kind = "field" THEN {x} ELSE Val(x)
Adds(s, x) ==
  /\ Kind # "text" /\ x[1] = "index"
  /\ x[3] \notin EntryDocs(ses[s].abase) \cup EntryDocs(ses[s].aview)
  /\ \A w \in Values(x[4]) : Cardinality(Users(ses[s].abase, w)) >= (IF Kind = "kwd" THEN Th ELSE 1)
Op(s, view, aview, x) ==
  /\ ses[s].on /\ ses[s].ops < MaxOps[s]
  /\ Emit => \A t \in Sessions : IF t < s THEN ses[t].done \/ ses[t].ops > 0 ELSE ses[t].on /\ (t > s => ses[t].ops = 0)
  /\ ses' = [ses EXCEPT ![s].view = view, ![s].aview = aview, ![s].ops = @ + 1,
                     ![s].adds = @ /\ Adds(s, x)]
  /\ Log(x) /\ UNCHANGED <<db, adb, ver, bulk, init>>
\* the documents the transaction changed, on top of what is committed now
Overlay(base, view, cur) ==
  LET ch == {d \in DOMAIN base \cup DOMAIN view :
               (d \in DOMAIN base) # (d \in DOMAIN view) \/ (d \in DOMAIN base /\ base[d] # view[d])}
  IN [d \in (DOMAIN cur \ ch) \cup (DOMAIN view \cap ch) |-> IF d \in ch THEN view[d] ELSE cur[d]]
Commit(s) ==
  /\ ses[s].on /\ ses[s].ops > 0
  /\ LET r == CommitStore(ses[s].base, db, ses[s].view)
     IN /\ IF r.ok THEN /\ db' = r.db /\ ver' = ver + 1
                        /\ bulk' = IF ses[s].adds THEN bulk ELSE ver + 1
                        /\ adb' = Overlay(ses[s].abase, ses[s].aview, adb)
           ELSE UNCHANGED <<db, adb, ver, bulk>>
        /\ Log(<<"commit", s>>)
  /\ ses' = [ses EXCEPT ![s] = [Idle EXCEPT !.done = TRUE]] /\ UNCHANGED init
Abort(s) ==
  /\ ses[s].on /\ ses[s].ops > 0 /\ ~Emit
  /\ ses' = [ses EXCEPT ![s] = [Idle EXCEPT !.done = TRUE]]
  /\ Log(<<"abort", s>>) /\ UNCHANGED <<db, adb, ver, bulk, init>>
Next == \E s \in Sessions :
  \/ Begin(s) \/ Commit(s) \/ Abort(s)
  \/ \E d \in Ids :
       \/ \E x \in Vals : Op(s, ObjIndex(ses[s].view, 100 * (s + 1), d, x), AIndex(ses[s].aview, d, x),
                             <<"index", s, d, x>>)
       \/ Op(s, ObjUnindex(ses[s].view, d), AUnindex(ses[s].aview, d), <<"unindex", s, d>>)
  \/ Kind = "kwd" /\ Op(s, KwOptimizeO(ses[s].view, 100 * (s + 1), Th, Fix), ses[s].aview, <<"optimize", s>>)
Spec == Init /\ [][Next]_vars

\* the graph of objects v stands for the meaning a
Means(v, a) ==
  CASE Kind = "kwd" -> KwGood(v) /\ KwDocs(v) = a
    [] Kind = "field" -> FdGood(v) /\ v[REV].m = a
    [] Kind = "text" -> TxGood(v) /\ v[REV].m = a
    [] Kind = "topic" -> DOMAIN a = {<<f, d>> \in TpAll(v) \X Ids : d \in DOMAIN v[v[FWD].m[f]].m}
\* what is committed is what the committed transactions made of it
Committed == Means(db, adb)
\* what a session sees is what it began with and its own changes
Views == \A s \in Sessions : ses[s].on => Means(ses[s].view, ses[s].aview)
\* a transaction without concurrent commits does not fail
NoSpurious == \A s \in Sessions : (ses[s].on /\ ses[s].ver = ver) =>
                CommitStore(ses[s].base, db, ses[s].view).ok
\* concurrent additions of different documents all commit
NoNeedless == \A s \in Sessions :
  (/\ ses[s].on /\ ses[s].adds /\ bulk <= ses[s].ver
   /\ (EntryDocs(ses[s].aview) \ EntryDocs(ses[s].abase)) \cap EntryDocs(adb) = {}) =>
     CommitStore(ses[s].base, db, ses[s].view).ok
EmitT == (Emit /\ \A s \in Sessions : ses'[s].done) => PrintT("@@S " \o ToJson(<<init, hist'>>))
=============================================================================
