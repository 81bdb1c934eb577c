------------------------------- MODULE MCSave -------------------------------
(* One session changing an index in an object database: commits, aborts,     *)
(* savepoints and rollbacks, eviction of the cache and new connections.  The *)
(* index is the map of its documents to values.  saved is a savepoint.       *)
EXTENDS Util, TLC, Json
CONSTANTS Ids, Vals, Emit
VARIABLES db, view, saved, last

vars == <<db, view, saved, last>>
None == <<>>
Init == db = <<>> /\ view = <<>> /\ saved = None /\ last = <<"start">>

Index(d, x) == view' = With(view, d, x) /\ last' = <<"index", d, x>> /\ UNCHANGED <<db, saved>>
Unindex(d) == d \in DOMAIN view /\ view' = Without(view, d) /\ last' = <<"unindex", d>> /\ UNCHANGED <<db, saved>>
Savepoint == saved' = <<view>> /\ last' = <<"savepoint">> /\ UNCHANGED <<db, view>>
Rollback == saved # None /\ view' = saved[1] /\ last' = <<"rollback">> /\ UNCHANGED <<db, saved>>
Commit == db' = view /\ saved' = None /\ last' = <<"commit">> /\ UNCHANGED view
Abort(how) == view' = db /\ saved' = None /\ last' = <<how>> /\ UNCHANGED db
Evict == last' = <<"evict">> /\ UNCHANGED <<db, view, saved>>

Next == \/ \E d \in Ids : Unindex(d) \/ \E x \in Vals : Index(d, x)
        \/ Savepoint \/ Rollback \/ Commit \/ Evict
        \/ \E how \in {"abort", "commitfail", "reconnect"} : Abort(how)
Spec == Init /\ [][Next]_vars

\* committed contents change by commits only, and then become what was seen
Durable == [][db' # db => last' = <<"commit">> /\ db' = view]_vars
\* whatever ends a transaction without committing leaves what was committed
Atomic == [][last'[1] \in {"abort", "commitfail", "reconnect"} => view' = db]_vars
Rolled == [][last' = <<"rollback">> => view' = saved[1]]_vars
Evicted == [][last' = <<"evict">> => view' = view]_vars

View == <<db, view, saved>>
\* maps as sequences, which print alike however they came about
Show(f) == [d \in 1..Cardinality(Ids) |-> Get(f, d - 1, 0)]
St(a, b, c) == <<Show(a), Show(b), IF c = None THEN <<>> ELSE Show(c[1])>>
EmitT == Emit => PrintT("@@T " \o ToJson(<<St(db, view, saved), last', St(db', view', saved')>>))
=============================================================================
