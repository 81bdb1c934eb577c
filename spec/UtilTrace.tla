----------------------------- MODULE UtilTrace ------------------------------
(* Conformance of recorded executions of NBest, the weighted set operations  *)
(* and the two codes.                                                        *)
EXTENDS NBest, SetOps, Codes, TraceRun, TraceCommon

UTInit(cfg) == [cap |-> 0, best |-> <<>>, m |-> -1, items |-> <<>>, bits |-> <<>>, held |-> <<>>]

In(x) == [none |-> x.none, m |-> PairsFn(x.m), w |-> x.w]
IsMap(r, f) == r.k = "map" /\ Cardinality({r.v[i][1] : i \in DOMAIN r.v}) = Len(r.v)
               /\ PairsFn(r.v) = f
IsList(r, s) == r.k = "list" /\ r.v = s

UTStep(cfg, s, e) ==
  LET Same(bad) == [st |-> s, bad |-> bad]
      Best(b, bad) == [st |-> [s EXCEPT !.best = b], bad |-> bad]
  IN CASE e.op = "nbnew" ->
            IF e.n < 1 THEN Same(Clause("nbest.new", IsExc(e.r, {"ValueError"})))
            ELSE [st |-> [s EXCEPT !.cap = e.n, !.best = <<>>], bad |-> Clause("nbest.new", e.r.k = "none")]
       [] e.op = "nbadd" -> Best(NBAddMany(s.best, s.cap, e.ps), Clause("nbest.add", e.r.k = "none"))
       [] e.op = "nbpop" ->
            IF s.best = <<>> THEN Same(Clause("nbest.pop", IsExc(e.r, {"IndexError"})))
            ELSE Best(NBPop(s.best), Clause("nbest.pop", IsList(e.r, s.best[Len(s.best)])))
       [] e.op = "nbget" ->
            Same(Clause("nbest.best", IsList(e.r, s.best)) \cup
                 Clause("nbest.len", IsInt(e.n, Len(s.best)) /\ IsInt(e.cap, s.cap)))
       [] e.op = "union" ->
            LET L == [i \in DOMAIN e.l |-> In(e.l[i])]
            IN Same(Clause("setops.union", IsMap(e.r, SOUnion(L))) \cup Clause("setops.args", e.args))
       [] e.op = "inter" ->
            LET L == [i \in DOMAIN e.l |-> In(e.l[i])]
            IN Same(Clause("setops.inter", IsMap(e.r, SOInter(L))) \cup Clause("setops.args", e.args))
       [] e.op = "wenc" ->
            Same(Clause("wid.encode", IsList(e.c, WidEncode(128, e.ws))) \cup
                 Clause("wid.decode", IsList(e.r, e.ws)))
       [] e.op = "rnew" ->
            IF e.m \in 0..16
            THEN [st |-> [s EXCEPT !.m = e.m, !.items = <<>>], bad |-> Clause("rice.new", e.r.k = "none")]
            ELSE Same(Clause("rice.new", IsExc(e.r, {"ValueError"})))
       [] e.op = "radd" ->
            IF e.v >= 1
            THEN [st |-> [s EXCEPT !.items = Append(@, e.v)], bad |-> Clause("rice.append", e.r.k = "none")]
            ELSE Same(Clause("rice.append", IsExc(e.r, {"ValueError"})))
       [] e.op = "rget" ->
            Same(Clause("rice.list", IsList(e.r, s.items)) \cup Clause("rice.len", IsInt(e.n, Len(s.items))))
       [] e.op = "rbits" ->
            LET b == RiceEncode(s.m, s.items)    \* padded with zeros
            IN Same(Clause("rice.bits", e.r.k = "list" /\ Len(e.r.v) >= Len(b) /\
                           \A i \in DOMAIN e.r.v : e.r.v[i] = (IF i <= Len(b) THEN b[i] ELSE 0)))
       [] e.op = "renc" ->
            IF e.m \in 0..16 /\ \A i \in DOMAIN e.l : e.l[i] >= 1
            THEN Same(Clause("rice.encode", IsList(e.r, e.l) /\ IsInt(e.n, Len(e.l))) \cup
                      Clause("rice.args", e.args))
            ELSE Same(Clause("rice.encode", IsExc(e.r, {"ValueError"})))
       [] e.op = "delta" ->
            IF Increasing(e.l)
            THEN Same(Clause("rice.delta", IsList(e.r, e.l)) \cup Clause("rice.args", e.args))
            ELSE Same(Clause("rice.delta", IsExc(e.r, {"ValueError"})))
       [] e.op = "bnew" -> [st |-> [s EXCEPT !.bits = <<>>], bad |-> Clause("bits.new", e.r.k = "none")]
       [] e.op = "badd" ->
            [st |-> [s EXCEPT !.bits = Append(@, e.v)], bad |-> Clause("bits.append", e.r.k = "none")]
       [] e.op = "bset" ->
            [st |-> [s EXCEPT !.bits[e.i + 1] = e.v], bad |-> Clause("bits.set", e.r.k = "none")]
       [] e.op = "bget" ->
            Same(Clause("bits.get", IsList(e.r, s.bits) /\ IsInt(e.n, Len(s.bits))))
       [] OTHER -> LET r == CommonStep(s.held, e)
                   IN [st |-> [s EXCEPT !.held = r.held], bad |-> r.bad]
=============================================================================
