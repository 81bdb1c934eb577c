----------------------------- MODULE TextIndex ------------------------------
(* Full text indexes: zope.index.text.baseindex / okapiindex / cosineindex   *)
(* and zope.index.text.textindex.                                            *)
(*                                                                           *)
(* Words are integers (what the lexicon makes of them is in Lexicon and      *)
(* Analysis).  First the meaning of every answer as a function of docs, the  *)
(* map from documents to their current sequences of words.  Scores are       *)
(* symbolic: a result maps a document to the sequence of query words that    *)
(* contribute to its score, with repetition.                                 *)
EXTENDS Parser

Has(docs, d, w) == \E i \in DOMAIN docs[d] : docs[d][i] = w
Freq(docs, d, w) == Cardinality({i \in DOMAIN docs[d] : docs[d][i] = w})
DocsWith(docs, w) == {d \in DOMAIN docs : Has(docs, d, w)}
Vocabulary(docs) == UNION {Range(docs[d]) : d \in DOMAIN docs}
TotalLen(docs) == SumSet([d \in DOMAIN docs |-> Len(docs[d])], DOMAIN docs)

Occurs(p, s) == \E i \in 0..(Len(s) - Len(p)) : \A j \in DOMAIN p : s[i + j] = p[j]

None == [none |-> TRUE, res |-> <<>>]
\* TLCEval: a function TLC has not evaluated is evaluated at each application
Res(f) == [none |-> FALSE, res |-> TLCEval(f)]

\* any of the words ws
XTerm(docs, ws) ==
  IF ws = <<>> THEN None
  ELSE Res([d \in UNION {DocsWith(docs, ws[i]) : i \in DOMAIN ws} |->
              SelectSeq(ws, LAMBDA w : Has(docs, d, w))])
\* chars maps a word to its code points
XGlob(docs, chars, p) ==
  LET ws == Asc({w \in Vocabulary(docs) : GlobMatch(p, chars[w])})
  IN IF ws = <<>> THEN Res(<<>>) ELSE XTerm(docs, ws)
XPhrase(docs, ws) ==
  IF ws = <<>> THEN Res(<<>>)
  ELSE Res([d \in {e \in DOMAIN docs : Occurs(ws, docs[e])} |-> ws])

RECURSIVE MeetAll(_), JoinAll(_)
Meet(f, g) == [d \in DOMAIN f \cap DOMAIN g |-> f[d] \o g[d]]
Join2(f, g) == [d \in DOMAIN f \cup DOMAIN g |-> Get(f, d, <<>>) \o Get(g, d, <<>>)]
MeetAll(rs) == IF Len(rs) = 0 THEN <<>> ELSE IF Len(rs) = 1 THEN rs[1]
               ELSE Meet(rs[1], MeetAll(Tail(rs)))
JoinAll(rs) == IF Len(rs) = 0 THEN <<>> ELSE IF Len(rs) = 1 THEN rs[1]
               ELSE Join2(rs[1], JoinAll(Tail(rs)))

\* evaluation of a parse tree; atoms hold single words
RECURSIVE XEval(_, _, _)
XKids(docs, chars, ts) ==
  LET rs == [i \in DOMAIN ts |-> XEval(docs, chars, IF IsNot(ts[i]) THEN ts[i][2] ELSE ts[i])]
      some == SelectSeq(rs, LAMBDA r : ~r.none)
  IN [i \in DOMAIN some |-> some[i].res]
XEval(docs, chars, t) ==
  CASE t[1] = "AND" ->
         LET poss == SelectSeq(t[2], LAMBDA k : ~IsNot(k))
             nots == SelectSeq(t[2], LAMBDA k : IsNot(k))
             f == MeetAll(XKids(docs, chars, poss))
             g == JoinAll(XKids(docs, chars, nots))
         IN Res([d \in DOMAIN f \ DOMAIN g |-> f[d]])
    [] t[1] = "OR" -> Res(JoinAll(XKids(docs, chars, t[2])))
    [] t[1] = "ATOM" -> XTerm(docs, <<t[2]>>)
    [] t[1] = "TERM" -> XTerm(docs, t[2])
    [] t[1] = "PHRASE" -> XPhrase(docs, t[2])
    [] t[1] = "GLOB" -> XGlob(docs, chars, t[2])

\* a tree that can't be evaluated: NOT has a meaning in AND only
RECURSIVE XBad(_)
XBad(t) ==
  CASE t[1] = "NOT" -> TRUE
    [] t[1] = "AND" -> \E i \in DOMAIN t[2] : XBad(IF IsNot(t[2][i]) THEN t[2][i][2] ELSE t[2][i])
    [] t[1] = "OR" -> \E i \in DOMAIN t[2] : XBad(t[2][i])
    [] t[1] = "GLOB" -> ~GlobLegal(t[2])
    [] OTHER -> FALSE

\* the numbers a score is computed from: number of documents and of words in
\* them; per query word in how many documents it is; per document its length,
\* the frequencies of all its words, and the contributing words with theirs
XScores(docs, f) ==
  LET ws == UNION {Range(f[d]) : d \in DOMAIN f}
      n == TLCEval([w \in ws |-> Cardinality(DocsWith(docs, w))])
  IN [N |-> Cardinality(DOMAIN docs), T |-> TotalLen(docs),
      res |-> {<<d, Len(docs[d]),
                 [i \in DOMAIN f[d] |-> <<n[f[d][i]], Freq(docs, d, f[d][i])>>],
                 {<<w, Freq(docs, d, w)>> : w \in Range(docs[d])}>> : d \in DOMAIN f}]

-----------------------------------------------------------------------------
(* The incremental state: wi, word -> document -> frequency, with the kind   *)
(* of storage of each of its maps ("D" up to cut entries, then "B"); dw,     *)
(* document -> words; counters.  Updates as the code makes them.             *)
XInit == [wi |-> <<>>, kind |-> <<>>, dw |-> <<>>, nd |-> 0, nw |-> 0, tot |-> 0]

XAddInfo(s, cut, w, d, f) ==
  IF w \notin DOMAIN s.wi
  THEN [s EXCEPT !.wi = With(@, w, With(<<>>, d, f)), !.kind = With(@, w, "D"), !.nw = @ + 1]
  ELSE [s EXCEPT !.kind[w] = IF @ = "D" /\ Cardinality(DOMAIN s.wi[w]) = cut THEN "B" ELSE @,
                 !.wi[w] = With(@, d, f)]
XDelInfo(s, w, d) ==
  LET m == Without(s.wi[w], d)
  IN IF DOMAIN m = {} THEN [s EXCEPT !.wi = Without(@, w), !.kind = Without(@, w), !.nw = @ - 1]
     ELSE [s EXCEPT !.wi[w] = m]
RECURSIVE XAddAll(_, _, _, _, _), XDelAll(_, _, _)
XAddAll(s, cut, ws, d, text) ==
  IF ws = {} THEN s
  ELSE LET w == CHOOSE x \in ws : \A y \in ws : x <= y
       IN XAddAll(XAddInfo(s, cut, w, d, Cardinality({i \in DOMAIN text : text[i] = w})),
                  cut, ws \ {w}, d, text)
XDelAll(s, ws, d) ==
  IF ws = {} THEN s
  ELSE LET w == CHOOSE x \in ws : \A y \in ws : x <= y IN XDelAll(XDelInfo(s, w, d), ws \ {w}, d)

XUnindex(s, d) ==
  IF d \notin DOMAIN s.dw THEN s
  ELSE LET s1 == XDelAll(s, Range(s.dw[d]), d)
       IN [s1 EXCEPT !.dw = Without(@, d), !.nd = @ - 1, !.tot = @ - Len(s.dw[d])]
XIndex(s, cut, d, text) ==
  IF d \notin DOMAIN s.dw
  THEN LET s1 == XAddAll(s, cut, Range(text), d, text)
       IN [s1 EXCEPT !.dw = With(@, d, text), !.nd = @ + 1, !.tot = @ + Len(text)]
  ELSE LET old == s.dw[d]
           count(t, w) == Cardinality({i \in DOMAIN t : t[i] = w})
           s1 == XDelAll(s, Range(old) \ Range(text), d)
           s2 == XAddAll(s1, cut, {w \in Range(text) : count(old, w) # count(text, w)}, d, text)
       IN [s2 EXCEPT !.dw[d] = text, !.tot = @ + Len(text) - Len(old)]
XClear(s) == XInit

XConsistent(s) ==
  /\ s.nd = Cardinality(DOMAIN s.dw)
  /\ s.nw = Cardinality(DOMAIN s.wi)
  /\ s.tot = TotalLen(s.dw)
  /\ DOMAIN s.wi = Vocabulary(s.dw)
  /\ DOMAIN s.kind = DOMAIN s.wi
  /\ \A w \in DOMAIN s.wi : s.wi[w] = [d \in DocsWith(s.dw, w) |-> Freq(s.dw, d, w)]
=============================================================================
