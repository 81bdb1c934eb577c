----------------------------- MODULE TextTrace ------------------------------
(* Conformance of recorded executions of text indexes.  Texts and queries    *)
(* are sequences of tokens, numbers into cfg.toks, which tells for each      *)
(* token what kind of query token it is and the words analysis leaves of it. *)
(* cfg.chars: the code points of each word.  Both count from 0.              *)
EXTENDS TextIndex, TraceRun, TraceCommon

XTInit(cfg) == [docs |-> <<>>, held |-> <<>>]

TokWords(cfg, ts) == Concat([i \in DOMAIN ts |-> cfg.toks[ts[i] + 1].words])
Chars(cfg) == [w \in 0..(Len(cfg.chars) - 1) |-> cfg.chars[w + 1]]

\* the tree of an event: its atoms and phrases are texts
RECURSIVE TreeOf(_, _)
TreeOf(cfg, t) ==
  CASE t[1] = "NOT" -> <<"NOT", TreeOf(cfg, t[2])>>
    [] t[1] \in {"AND", "OR"} -> <<t[1], [i \in DOMAIN t[2] |-> TreeOf(cfg, t[2][i])]>>
    [] t[1] = "ATOM" -> <<"TERM", TokWords(cfg, t[2])>>
    [] t[1] = "PHRASE" -> <<"PHRASE", TokWords(cfg, t[2])>>
    [] OTHER -> t

\* does the recorded result have the right documents, each with a score
IsRes(r, x) == IF x.none THEN r.k = "none" ELSE IsIds(r, DOMAIN x.res)

XTStep(cfg, s, e) ==
  LET docs == s.docs
      Same(bad) == [st |-> s, bad |-> bad]
      Upd(ds, bad) == [st |-> [s EXCEPT !.docs = ds], bad |-> bad]
      \* x: what the query has to yield
      Answer(clause, x) ==
        LET bad == Clause(clause, IsRes(e.r, x)) \cup Clause("positive", e.pos)
        IN IF e.r.k = "ids" /\ bad = {} /\ "sc" \in DOMAIN e
           THEN [st |-> s, bad |-> bad, x |-> [op |-> e.op, sc |-> e.sc, q |-> e.qw, of |-> XScores(docs, x.res)]]
           ELSE Same(bad)
  IN CASE e.op = "index" ->
            LET ws == TokWords(cfg, e.t)
            IN Upd(With(docs, e.d, ws),
                   Clause("update", e.r.k # "exc") \cup Clause("args", e.args) \cup
                   Clause("count.indexed", e.r.k # "int" \/ IsInt(e.r, Len(ws))))
       [] e.op = "unindex" -> Upd(Without(docs, e.d), Clause("update", e.r.k = "none"))
       \* the documents lo, lo + step, ... below hi, all with this text
       [] e.op = "bulk" ->
            LET ws == TokWords(cfg, e.t)
                ds == {d \in e.ds[1]..(e.ds[2] - 1) : (d - e.ds[1]) % e.ds[3] = 0}
            IN IF e.un
               THEN Upd([d \in DOMAIN docs \ ds |-> docs[d]], Clause("update", e.r.k = "none"))
               ELSE Upd([d \in DOMAIN docs \cup ds |-> IF d \in ds THEN ws ELSE docs[d]],
                        Clause("update", e.r.k = "int") \cup
                        Clause("count.indexed", IsInt(e.r, Len(ws))))
       [] e.op = "clear" -> Upd(<<>>, Clause("update", e.r.k = "none"))
       [] e.op = "counts" ->
            Same(Clause("count.docs", IsInt(e.n, Cardinality(DOMAIN docs))) \cup
                 Clause("count.words", IsInt(e.w, Cardinality(Vocabulary(docs)))))
       [] e.op = "has" -> Same(Clause("count.has", IsBool(e.r, e.d \in DOMAIN docs)))
       [] e.op = "words" ->
            Same(Clause("count.text", IF e.d \in DOMAIN docs THEN e.r.k = "list" /\ e.r.v = docs[e.d]
                                      ELSE e.r.k = "exc"))
       [] e.op = "search" -> Answer("search.term", XTerm(docs, TokWords(cfg, e.t)))
       [] e.op = "glob" ->
            IF GlobLegal(e.p) THEN Answer("search.glob", XGlob(docs, Chars(cfg), e.p))
            ELSE Same(Clause("search.glob", IsExc(e.r, {"QueryError"})))
       [] e.op = "phrase" -> Answer("search.phrase", XPhrase(docs, TokWords(cfg, e.t)))
       [] e.op = "apply" ->
            LET p == ParseTokens([i \in DOMAIN e.q |-> cfg.toks[e.q[i] + 1]])
            IN IF p.ok THEN Answer("apply", XEval(docs, Chars(cfg), p.t))
               ELSE Same(Clause("apply", IsExc(e.r, {"ParseError"})))
       [] e.op = "tree" ->
            LET t == TreeOf(cfg, e.q)
            IN IF XBad(t) THEN Same(Clause("tree", IsExc(e.r, {"QueryError"})))
               ELSE Answer("tree", XEval(docs, Chars(cfg), t))
       \* as a version without length objects stored it
       [] e.op = "legacy" -> Same({})
       [] OTHER -> LET r == CommonStep(s.held, e)
                   IN [st |-> [s EXCEPT !.held = r.held], bad |-> r.bad]
=============================================================================
