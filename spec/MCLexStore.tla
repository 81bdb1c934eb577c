----------------------------- MODULE MCLexStore -----------------------------
(* Sessions numbering words in a lexicon stored in an object database: FWD   *)
(* maps words to their ids, REV ids to words, NUM counts them.  The id of a  *)
(* new word is any that the session does not see in use.  seen holds every   *)
(* pair a session was ever told in a transaction that was committed.         *)
EXTENDS Store, TLC
CONSTANTS Ws, Wids, Sessions, MaxOps
VARIABLES db, ver, ses, seen
vars == <<db, ver, ses, seen>>

Idle == [on |-> FALSE, base |-> <<>>, view |-> <<>>, ver |-> 0, ops |-> 0, told |-> {}, tx |-> 0]
Init == db = Empty /\ ver = 0 /\ seen = {} /\ ses = [s \in Sessions |-> Idle]

Begin(s) == /\ ~ses[s].on /\ ses[s].tx < 2
            /\ ses' = [ses EXCEPT ![s] = [on |-> TRUE, base |-> db, view |-> db, ver |-> ver, ops |-> 0,
                                          told |-> {}, tx |-> @.tx + 1]]
            /\ UNCHANGED <<db, ver, seen>>
Source(s, w) ==
  /\ ses[s].on /\ ses[s].ops < MaxOps
  /\ LET v == ses[s].view
     IN IF w \in DOMAIN v[FWD].m
        THEN ses' = [ses EXCEPT ![s].told = @ \cup {<<w, v[FWD].m[w]>>}, ![s].ops = @ + 1]
        ELSE \E n \in Wids \ DOMAIN v[REV].m :
               ses' = [ses EXCEPT ![s].view = Change(Put(Put(v, FWD, w, n), REV, n, w), NUM, 1),
                                  ![s].told = @ \cup {<<w, n>>}, ![s].ops = @ + 1]
  /\ UNCHANGED <<db, ver, seen>>
End(s) == ses' = [ses EXCEPT ![s] = [Idle EXCEPT !.tx = ses[s].tx]]
Commit(s) ==
  /\ ses[s].on /\ ses[s].ops > 0 /\ End(s)
  /\ LET r == CommitStore(ses[s].base, db, ses[s].view)
     IN IF r.ok THEN db' = r.db /\ seen' = seen \cup ses[s].told
                     /\ ver' = IF ses[s].view = ses[s].base THEN ver ELSE ver + 1
        ELSE UNCHANGED <<db, ver, seen>>
Abort(s) == ses[s].on /\ ses[s].ops > 0 /\ End(s) /\ UNCHANGED <<db, ver, seen>>
Next == \E s \in Sessions : Begin(s) \/ Commit(s) \/ Abort(s) \/ \E w \in Ws : Source(s, w)
Spec == Init /\ [][Next]_vars

Good(v) == /\ \A w \in DOMAIN v[FWD].m : v[FWD].m[w] \in DOMAIN v[REV].m /\ v[REV].m[v[FWD].m[w]] = w
           /\ DOMAIN v[REV].m = Range(v[FWD].m)
           /\ v[NUM].n = Cardinality(DOMAIN v[FWD].m)
Committed == Good(db)
Views == \A s \in Sessions : ses[s].on => Good(ses[s].view)
\* what was told in a committed transaction stays true
Kept == \A p \in seen : p[1] \in DOMAIN db[FWD].m /\ db[FWD].m[p[1]] = p[2]
NoSpurious == \A s \in Sessions : (ses[s].on /\ ses[s].ver = ver) =>
                CommitStore(ses[s].base, db, ses[s].view).ok
=============================================================================
