------------------------------ MODULE TxnTrace ------------------------------
(* Conformance of recorded executions of indexes stored in an object         *)
(* database and used by sessions, each with its own connection, transactions *)
(* and savepoints.  Generic over the kind of index:                          *)
(*   CInit(cfg), CStep(cfg, state, event)  as in the trace module of a kind  *)
(*   CMerge(cfg, base, view, db)           db with the changes from base to  *)
(*                                         view applied to it                *)
(*   CDocs(cfg, state)                     document -> set of its values     *)
(*   CUse                                  additions under a value in use by *)
(*                                         so many documents can be merged   *)
(* cfg.n indexes are stored; the events of index i (from 0) by session s are *)
(* judged on the view session s has of it.  A session sees what was          *)
(* committed when its transaction began, and its own changes.                *)
EXTENDS TraceRun, Util

CONSTANTS CInit(_), CStep(_, _, _), CMerge(_, _, _, _), CDocs(_, _), CUse

\* Events that touch nothing persistent.
Passive == {"counts", "has", "words", "search", "searchbad", "glob", "phrase", "apply", "tree", "applybad",
            "sort", "getids", "hold", "reread", "pure", "twin", "term", "parse", "element", "getwid",
            "getword", "items", "isglob", "query"}

\* A session that merely adds documents to a populated index: they are new to
\* it, and their values were already used by enough documents when it began.
\* Concurrent additions of different documents commit, all of them, as long
\* as no node of a tree has to split (which cfg.calm promises).
Addition(cfg, base, before, after, d) ==
  LET b == CDocs(cfg, base)
      a == CDocs(cfg, after)
  IN /\ d \notin DOMAIN b /\ d \notin DOMAIN CDocs(cfg, before)
     /\ \A v \in Get(a, d, {}) : Cardinality({x \in DOMAIN b : v \in b[x]}) >= CUse
Apart(cfg, base, view, db) ==
  \A d \in DOMAIN CDocs(cfg, view) \ DOMAIN CDocs(cfg, base) : d \notin DOMAIN CDocs(cfg, db)

\* g: what is committed (db), the number of commits so far (ver) and up to the
\* last one that was not merely an addition (bulk), the open sessions
TxInit(cfg) == [db |-> [i \in 0..(cfg.n - 1) |-> CInit(cfg)], ver |-> 0, bulk |-> 0, ses |-> <<>>]

TxStep(cfg, g, e) ==
  LET s == e.s
      z == g.ses[s]
      Go(ses) == [g EXCEPT !.ses = ses]
      Plain(gg) == [st |-> gg, bad |-> {}]
      End(gg, bad) == [st |-> [gg EXCEPT !.ses = Without(@, s)], bad |-> bad]
  IN CASE e.op = "begin" ->
            Plain(Go(With(g.ses, s, [base |-> g.db, view |-> g.db, ver |-> g.ver,
                                     wrote |-> FALSE, adds |-> TRUE, sps |-> <<>>])))
       [] e.op = "commit" ->
            IF e.r = "ok"
            THEN End([g EXCEPT !.ver = IF z.wrote THEN @ + 1 ELSE @,
                               !.bulk = IF z.adds THEN @ ELSE g.ver + 1,
                               !.db = [i \in DOMAIN @ |-> CMerge(cfg, z.base[i], z.view[i], @[i])]],
                     Clause("txn.readonly", z.wrote \/ ~e.stored))
            ELSE IF e.r = "conflict"
            THEN End(g, Clause("txn.spurious", z.wrote /\ g.ver # z.ver) \cup
                        Clause("txn.needless", ~(/\ cfg.calm /\ z.adds /\ g.bulk <= z.ver
                                                 /\ \A i \in DOMAIN g.db : Apart(cfg, z.base[i], z.view[i], g.db[i]))))
            ELSE End(g, {"txn.failure"})
       [] e.op \in {"abort", "commitfail"} -> End(g, {})
       [] e.op = "savepoint" -> Plain(Go([g.ses EXCEPT ![s].sps = With(@, e.k, z.view)]))
       [] e.op = "rollback" ->
            [st |-> Go([g.ses EXCEPT ![s].view = z.sps[e.k]]), bad |-> Clause("txn.rollback", e.r = "ok")]
       [] e.op \in {"evict", "gc", "reconnect", "restart"} ->
            [st |-> g, bad |-> Clause("txn." \o e.op, e.r = "ok")]
       [] e.op = "lexicon" -> [st |-> g, bad |-> Clause("txn.lexicon", e.r = "ok")]
       [] OTHER ->
            LET r == CStep(cfg, z.view[e.i], e)
                gg == Go([g.ses EXCEPT ![s].view[e.i] = r.st, ![s].wrote = @ \/ e.op \notin Passive,
                             ![s].adds = @ /\ (\/ e.op \in Passive
                                               \/ /\ cfg.calm /\ e.op = "index"
                                                  /\ Addition(cfg, z.base[e.i], z.view[e.i], r.st, e.d))])
            IN IF "x" \in DOMAIN r THEN [st |-> gg, bad |-> r.bad, x |-> r.x]
               ELSE [st |-> gg, bad |-> r.bad]

\* the entries of cur, except that those which differ between base and view
\* are as in view
Overlay(base, view, cur) ==
  LET ch == {d \in DOMAIN base \cup DOMAIN view :
               (d \in DOMAIN base) # (d \in DOMAIN view) \/ (d \in DOMAIN base /\ base[d] # view[d])}
  IN [d \in (DOMAIN cur \ ch) \cup (DOMAIN view \cap ch) |-> IF d \in ch THEN view[d] ELSE cur[d]]
SetOverlay(base, view, cur) == (cur \ (base \ view)) \cup (view \ base)
=============================================================================
