----------------------------- MODULE FieldTrace -----------------------------
(* Conformance of recorded executions of FieldIndex.                         *)
EXTENDS FieldIndex, TraceRun, TraceCommon

FTInit(cfg) == [ix |-> FInit, held |-> <<>>]

FTStep(cfg, s, e) ==
  LET docs == FDocs(s.ix)
      Same(bad) == [st |-> s, bad |-> bad]
      Upd(ix, bad) == [st |-> [s EXCEPT !.ix = ix], bad |-> bad]
  IN CASE e.op = "index" -> Upd(FIndex(s.ix, e.d, e.v), Clause("update", e.r.k = "none"))
       [] e.op = "unindex" -> Upd(FUnindex(s.ix, e.d), Clause("update", e.r.k = "none"))
       [] e.op = "clear" -> Upd(FClear(s.ix), Clause("update", e.r.k = "none"))
       [] e.op = "counts" ->
            Same(Clause("count.docs", IsInt(e.n, ACount(docs))) \cup
                 Clause("count.words", IsInt(e.w, AWords(docs))))
       [] e.op = "apply" ->
            Same(Clause("apply", IsIds(e.r, AMatch(docs, e.lo, e.hi))) \cup
                 Clause("args", e.args))
       [] e.op = "applybad" -> Same(Clause("apply.type", IsExc(e.r, {"TypeError"})))
       [] e.op = "sort" ->
            Same((IF e.lim < 0
                  THEN Clause("sort.limit", IsExc(e.r, {"ValueError"}))
                  ELSE Clause("sort", e.r.k = "list" /\
                         AIsSorted(docs, Range(e.c), e.rev, e.lim, e.r.v))) \cup
                 Clause("args", e.args))
       [] OTHER -> LET r == CommonStep(s.held, e)
                   IN [st |-> [s EXCEPT !.held = r.held], bad |-> r.bad]
=============================================================================
