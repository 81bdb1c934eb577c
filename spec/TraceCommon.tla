---------------------------- MODULE TraceCommon -----------------------------
(* Events every trace of an index may contain, besides its own operations:   *)
(*   rejected  an update that raised: the answers before and after it        *)
(*   accepted  an update that might or (e.must) has to raise, but did not    *)
(*   hold      a result obtained by a query, kept by the caller under e.h    *)
(*   mutate    the caller changed the result kept under e.h: it now is e.r   *)
(*   reread    the result kept under e.h is read again, giving e.r           *)
(*             (all in canonical text form)                                  *)
(*   pure      all answers before and after a query, and its result when     *)
(*             asked twice                                                   *)
(*   twin      answers of the index and of an index built anew from the      *)
(*             contents, in canonical text form, scores as scaled integers   *)
EXTENDS Util, TLC

Near(a, b) == /\ Len(a) = Len(b)
              /\ \A i \in DOMAIN a : Abs(a[i] - b[i]) <= 3 + Abs(b[i]) \div 100000

CommonStep(held, e) ==
  CASE e.op = "rejected" -> [held |-> held, bad |-> Clause("rejected", e.before = e.after)]
    [] e.op = "accepted" -> [held |-> held, bad |-> Clause("rejected", ~e.must)]
    [] e.op \in {"hold", "mutate"} -> [held |-> With(held, e.h, e.r), bad |-> {}]
    [] e.op = "reread" ->
         [held |-> held, bad |-> Clause("isolation", e.h \in DOMAIN held /\ held[e.h] = e.r)]
    [] e.op = "pure" ->
         [held |-> held, bad |-> Clause("pure", e.a = e.b /\ e.r1 = e.r2)]
    [] e.op = "twin" ->
         [held |-> held, bad |-> Clause("twin." \o e.kind, e.a = e.b /\ Near(e.as, e.bs))]
    [] OTHER -> [held |-> held, bad |-> {"unknown event " \o e.op}]
=============================================================================
