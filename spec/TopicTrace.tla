----------------------------- MODULE TopicTrace -----------------------------
(* Conformance of recorded executions of TopicIndex.  cfg.sat is a sequence  *)
(* (per expression, from 1) of sequences (per object, from 1).               *)
EXTENDS TopicIndex, TraceRun, TraceCommon

TTInit(cfg) == [ix |-> TInit0, held |-> <<>>]
SatOf(cfg) == [x \in 0..(Len(cfg.sat) - 1) |->
                [o \in 0..(Len(cfg.sat[x + 1]) - 1) |-> cfg.sat[x + 1][o + 1]]]

TTStep(cfg, s, e) ==
  LET Same(bad) == [st |-> s, bad |-> bad]
      Upd(ix, bad) == [st |-> [s EXCEPT !.ix = ix], bad |-> bad]
      Done == Clause("update", e.r.k = "none")
  IN CASE e.op = "new" -> Upd(TNew(s.ix, e.f, e.x), Done)
       [] e.op = "add" -> Upd(TAdd(s.ix, e.name, e.f), Done)
       [] e.op = "del" ->
            IF e.name \in DOMAIN s.ix.flt THEN Upd(TDel(s.ix, e.name), Done)
            ELSE Same(Clause("update", IsExc(e.r, {"KeyError"})))
       [] e.op = "setexpr" -> Upd(TSetExpr(s.ix, e.f, e.x), Done)
       [] e.op = "index" -> Upd(TIndex(s.ix, SatOf(cfg), e.d, e.o), Done \cup Clause("args", e.args))
       [] e.op = "unindex" -> Upd(TUnindex(s.ix, e.d), Done)
       [] e.op = "clearfilters" -> Upd(TClearFilters(s.ix), Done)
       [] e.op = "clear" -> Upd(TClear(s.ix), Done)
       [] e.op = "getids" -> Same(Clause("filter.ids", IsIds(e.r, s.ix.objs[e.f].ids)))
       [] e.op = "search" ->
            Same(Clause("search." \o e.opr, IsIds(e.r, TSearch(s.ix, Range(e.q), e.opr))) \cup
                 Clause("args", e.args))
       [] e.op = "searchbad" -> Same(Clause("search.type", IsExc(e.r, {"TypeError"})))
       [] OTHER -> LET r == CommonStep(s.held, e)
                   IN [st |-> [s EXCEPT !.held = r.held], bad |-> r.bad]
=============================================================================
