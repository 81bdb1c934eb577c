------------------------------ MODULE LexTrace ------------------------------
(* Conformance of recorded executions of Lexicon, the splitters and pipeline *)
(* elements, and the query parser.  All strings are code point sequences.    *)
EXTENDS Lexicon, Parser, TraceRun, TraceCommon

LTInit(cfg) == [known |-> <<>>, ct |-> CharTable(cfg.tab), stop |-> Range(cfg.stop), held |-> <<>>,
                lag |-> FALSE]

LTStep(cfg, s, e) ==
  LET Same(bad) == [st |-> s, bad |-> bad]
      Pipe(glob, ws) == Analyze(s.ct, s.stop, cfg.pipe, glob, ws)
      Wid(w) == WidOf(s.known, w)
  IN CASE e.op = "source" ->
            \* e.ws: the words of the ids returned, as the lexicon spells them
            [st |-> IF e.r.k = "list" THEN [s EXCEPT !.known = Learn(@, e.ws, e.r.v)] ELSE s,
             bad |-> Clause("analysis.source", e.r.k = "list" /\ e.ws = Pipe(FALSE, e.t)) \cup
                     Clause("wid.source", e.r.k = "list" /\ Admits(s.known, e.ws, e.r.v))]
       [] e.op = "term" ->
            Same(Clause("term", e.r.k = "list" /\
                   LET ws == Pipe(FALSE, e.t) IN e.r.v = [i \in DOMAIN ws |-> Wid(ws[i])]))
       [] e.op = "parse" ->
            Same(Clause("analysis.parse", e.r.k = "words" /\ e.r.v = Pipe(TRUE, e.t)))
       [] e.op = "element" ->
            Same(Clause("analysis.element", e.r.k = "words" /\
                        e.r.v = Element(s.ct, s.stop, e.el, e.glob, e.t)))
       [] e.op = "getwid" -> Same(Clause("wid.get", IsInt(e.r, Wid(e.w))))
       [] e.op = "getword" ->
            Same(Clause("wid.word",
                 IF e.n \in Range(s.known) THEN e.r.k = "word" /\ Wid(e.r.v) = e.n
                 ELSE IsExc(e.r, {"KeyError"})))
       \* the word counter falls behind (as it may in a damaged database),
       \* or gets lost (as in one written by an old version)
       [] e.op = "lag" -> [st |-> [s EXCEPT !.lag = TRUE], bad |-> {}]
       [] e.op = "legacy" -> [st |-> [s EXCEPT !.lag = FALSE], bad |-> {}]
       [] e.op = "counts" ->
            Same(Clause("wid.count", e.r.k = "int" /\
                        (s.lag \/ IsInt(e.r, Cardinality(DOMAIN s.known)))))
       [] e.op = "items" ->
            Same(Clause("wid.items",
                 /\ OneToOne(s.known)
                 /\ e.items.k = "list" /\ NoDups(e.items.v) /\ Range(e.items.v) = Pairs(s.known)
                 /\ e.words.k = "list" /\ NoDups(e.words.v) /\ Range(e.words.v) = DOMAIN s.known
                 /\ e.wids.k = "list" /\ NoDups(e.wids.v) /\ Range(e.wids.v) = Range(s.known)))
       [] e.op = "glob" ->
            Same(Clause("glob",
                 IF ~GlobLegal(e.p) THEN IsExc(e.r, {"QueryError"})
                 ELSE e.r.k = "list" /\ NoDups(e.r.v) /\
                      Range(e.r.v) = {s.known[w] : w \in {v \in DOMAIN s.known : GlobMatch(e.p, v)}}))
       [] e.op = "isglob" -> Same(Clause("glob.is", IsBool(e.r, IsGlob(e.w))))
       [] e.op = "query" ->
            LET p == ParseString(s.ct, s.stop, cfg.pipe, e.q)
            IN Same(IF p.ok
                    THEN Clause("parser.tree", e.r.k = "tree" /\ e.r.v = p.t) \cup
                         (IF e.r.k # "tree" THEN {}
                          ELSE Clause("parser.terms", e.terms = Terms(p.t)) \cup
                               Clause("parser.ignored", e.ig = p.ig))
                    ELSE Clause("parser.error", IsExc(e.r, {"ParseError"})))
       [] OTHER -> LET r == CommonStep(s.held, e)
                   IN [st |-> [s EXCEPT !.held = r.held], bad |-> r.bad]
=============================================================================
