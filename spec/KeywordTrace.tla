---------------------------- MODULE KeywordTrace ----------------------------
(* Conformance of recorded executions of keyword indexes.  A keyword as      *)
(* spelled by the caller is 100 * class + spelling: the spellings of a class *)
(* differ in case only.  The case-insensitive index sees the class, the      *)
(* other one every spelling as a keyword of its own.                         *)
EXTENDS KeywordIndex, TraceRun, TraceCommon

Norm(cfg, k) == IF cfg.ci THEN k \div 100 ELSE k
NormSet(cfg, ks) == {Norm(cfg, ks[i]) : i \in DOMAIN ks}

KTInit(cfg) == [ix |-> KInit, held |-> <<>>]

KTStep(cfg, s, e) ==
  LET docs == KDocs(s.ix)
      Same(bad) == [st |-> s, bad |-> bad]
      Upd(ix, bad) == [st |-> [s EXCEPT !.ix = ix], bad |-> bad]
      Done == Clause("update", e.r.k = "none")
  IN CASE e.op = "index" ->
            Upd(KIndex(s.ix, e.d, NormSet(cfg, e.ks)), Done \cup Clause("args", e.args))
       [] e.op = "unindex" -> Upd(KUnindex(s.ix, e.d), Done)
       [] e.op = "clear" -> Upd(KClear(s.ix), Done)
       [] e.op = "thresh" -> Upd(KThreshold(s.ix, e.n), {})
       [] e.op = "optimize" -> Upd(KOptimize(s.ix), Clause("optimize", e.r.k = "none"))
       [] e.op = "counts" ->
            Same(Clause("count.docs", IsInt(e.n, Cardinality(DOMAIN docs))) \cup
                 Clause("count.words", IsInt(e.w, AKWords(docs))))
       [] e.op = "has" -> Same(Clause("count.has", IsBool(e.r, e.d \in DOMAIN docs)))
       [] e.op = "search" ->
            Same(Clause("search." \o e.opr,
                        IsIds(e.r, AKSearch(docs, NormSet(cfg, e.q), e.opr))) \cup
                 Clause("args", e.args))
       [] e.op = "searchbad" -> Same(Clause("search.type", IsExc(e.r, {"TypeError"})))
       [] OTHER -> LET r == CommonStep(s.held, e)
                   IN [st |-> [s EXCEPT !.held = r.held], bad |-> r.bad]
=============================================================================
