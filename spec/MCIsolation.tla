---------------------------- MODULE MCIsolation -----------------------------
(* Results as objects: queries on an index, while callers keep, change and   *)
(* read results again.  The heap holds sets of docids; the index owns the    *)
(* cell 0, results are references to cells.  With Aliasing the index hands   *)
(* out its own set, as it must not: TLC then finds Isolated violated.        *)
EXTENDS Util, TLC, Json
CONSTANTS Ids, Handles, Aliasing, Emit
VARIABLES heap, ref, want, docs, act

Init == heap = With(<<>>, 0, {}) /\ ref = <<>> /\ want = <<>> /\ docs = {} /\ act = <<"init">>
Cell(h) == IF Aliasing THEN 0 ELSE h

Index(d) == /\ docs' = docs \cup {d} /\ heap' = [heap EXCEPT ![0] = @ \cup {d}]
            /\ act' = <<"index", d>> /\ UNCHANGED <<ref, want>>
Unindex(d) == /\ docs' = docs \ {d} /\ heap' = [heap EXCEPT ![0] = @ \ {d}]
              /\ act' = <<"unindex", d>> /\ UNCHANGED <<ref, want>>
Hold(h) == /\ ref' = With(ref, h, Cell(h))
           /\ heap' = With(heap, Cell(h), heap[0])
           /\ want' = With(want, h, docs)
           /\ act' = <<"hold", h>> /\ UNCHANGED docs
Mutate(h, d) ==
  /\ h \in DOMAIN ref
  /\ LET new == IF d < 0 THEN {} ELSE IF d \in want[h] THEN want[h] \ {d} ELSE want[h] \cup {d}
     IN heap' = [heap EXCEPT ![ref[h]] = new] /\ want' = [want EXCEPT ![h] = new]
  /\ act' = <<"mutate", h, d>> /\ UNCHANGED <<ref, docs>>
Next == \/ \E d \in Ids : Index(d) \/ Unindex(d)
        \/ \E h \in Handles : Hold(h) \/ \E d \in Ids \cup {-1} : Mutate(h, d)
Spec == Init /\ [][Next]_<<heap, ref, want, docs, act>>
View == <<heap, ref, want, docs>>

\* results are what the callers left them, answers what was indexed
Isolated == /\ heap[0] = docs
            /\ \A h \in DOMAIN ref : heap[ref[h]] = want[h]
Key(d, w) == <<d, Pairs(w)>>
EmitT == Emit => PrintT("@@T " \o ToJson(<<Key(docs, want), act', Key(docs', want')>>))
=============================================================================
