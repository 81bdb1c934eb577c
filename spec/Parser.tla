------------------------------- MODULE Parser -------------------------------
(* The query language: zope.index.text.queryparser.QueryParser.              *)
(*                                                                           *)
(* A token is a record [k |-> kind, ...] of kind "AND", "OR", "NOT", "(",    *)
(* ")", "EOF" or "ATOM"; an atom has words (what analysis leaves of it, in   *)
(* glob mode), glob (is its only word a pattern), neg (leading hyphen) and   *)
(* src (the text as written).  Trees are <<tag, value>> pairs.               *)
EXTENDS Analysis

NIL == <<"NIL">>
PFail == [ok |-> FALSE, pos |-> 0, t |-> NIL, ig |-> <<>>]
PRes(pos, t, ig) == [ok |-> TRUE, pos |-> pos, t |-> t, ig |-> ig]
IsNot(t) == t[1] = "NOT"
NonNil(t) == IF t = NIL THEN <<>> ELSE <<t>>

AtomTree(tok) ==
  LET ws == tok.words
      t == IF Len(ws) > 1 THEN <<"PHRASE", ws>>
           ELSE IF tok.glob THEN <<"GLOB", ws[1]>> ELSE <<"ATOM", ws[1]>>
  IN IF ws = <<>> THEN NIL ELSE IF tok.neg THEN <<"NOT", t>> ELSE t

RECURSIVE PAtoms(_, _, _, _, _), PTerm(_, _), PAndRest(_, _, _, _, _), PAnd(_, _), POrRest(_, _, _, _), POr(_, _)
\* ATOM+ : positive atoms first, then the negated ones
PAtoms(tk, p, poss, nots, ig) ==
  IF tk[p].k = "ATOM"
  THEN LET t == AtomTree(tk[p])
       IN PAtoms(tk, p + 1,
                 IF t # NIL /\ ~IsNot(t) THEN Append(poss, t) ELSE poss,
                 IF t # NIL /\ IsNot(t) THEN Append(nots, t) ELSE nots,
                 IF t = NIL THEN Append(ig, tk[p].src) ELSE ig)
  ELSE IF poss \o nots = <<>> THEN PRes(p, NIL, ig)
  ELSE IF poss = <<>> THEN PFail
  ELSE IF Len(poss \o nots) = 1 THEN PRes(p, poss[1], ig)
  ELSE PRes(p, <<"AND", poss \o nots>>, ig)

\* Term = '(' OrExpr ')' | ATOM+
PTerm(tk, p) ==
  CASE tk[p].k = "(" ->
         LET r == POr(tk, p + 1)
         IN IF r.ok /\ tk[r.pos].k = ")" THEN [r EXCEPT !.pos = @ + 1] ELSE PFail
    [] tk[p].k = "ATOM" -> PAtoms(tk, p, <<>>, <<>>, <<>>)
    [] OTHER -> PFail

\* AndExpr = Term ('AND' ['NOT'] Term | 'NOT' Term)*
PAndRest(tk, p, poss, nots, ig) ==
  IF tk[p].k \in {"AND", "NOT"}
  THEN LET neg == tk[p].k = "NOT" \/ tk[p + 1].k = "NOT"
           r == PTerm(tk, IF tk[p].k = "AND" /\ neg THEN p + 2 ELSE p + 1)
       IN IF ~r.ok THEN PFail
          ELSE PAndRest(tk, r.pos,
                        IF neg THEN poss ELSE poss \o NonNil(r.t),
                        IF neg /\ r.t # NIL THEN Append(nots, <<"NOT", r.t>>) ELSE nots,
                        ig \o r.ig)
  ELSE IF poss = <<>> THEN PRes(p, NIL, ig)
  ELSE IF Len(poss \o nots) = 1 THEN PRes(p, poss[1], ig)
  ELSE PRes(p, <<"AND", poss \o nots>>, ig)
PAnd(tk, p) ==
  LET r == PTerm(tk, p)
  IN IF r.ok THEN PAndRest(tk, r.pos, NonNil(r.t), <<>>, r.ig) ELSE PFail

\* OrExpr = AndExpr ('OR' AndExpr)*
POrRest(tk, p, kids, ig) ==
  IF tk[p].k = "OR"
  THEN LET r == PAnd(tk, p + 1)
       IN IF r.ok THEN POrRest(tk, r.pos, kids \o NonNil(r.t), ig \o r.ig) ELSE PFail
  ELSE PRes(p, IF kids = <<>> THEN NIL
               ELSE IF Len(kids) = 1 THEN kids[1] ELSE <<"OR", kids>>, ig)
POr(tk, p) ==
  LET r == PAnd(tk, p)
  IN IF r.ok THEN POrRest(tk, r.pos, NonNil(r.t), r.ig) ELSE PFail

\* the whole query: ok with a tree, or a parse error
ParseTokens(toks) ==
  LET tk == Append(toks, [k |-> "EOF"])
      r == POr(tk, 1)
  IN IF r.ok /\ tk[r.pos].k = "EOF" /\ r.t # NIL THEN r ELSE PFail

RECURSIVE Terms(_)
\* the terms of a tree that are not negated, in order: words ("W") or
\* phrases ("P")
Terms(t) ==
  CASE t[1] \in {"AND", "OR"} -> Concat([i \in DOMAIN t[2] |-> Terms(t[2][i])])
    [] t[1] = "NOT" -> <<>>
    [] OTHER -> <<(<<IF t[1] = "PHRASE" THEN "P" ELSE "W", t[2]>>)>>

-----------------------------------------------------------------------------
(* From strings to tokens.                                                   *)
LP == 40
RP == 41
Quote == 34
Hyphen == 45
Plain(ct, c) == c \notin {LP, RP, Quote} /\ ~ct[c].sp

RECURSIVE StretchEnd(_, _, _), QuoteAfter(_, _)
\* end of the stretch of plain characters starting at i (i - 1 if none)
StretchEnd(ct, s, i) ==
  IF i <= Len(s) /\ Plain(ct, s[i]) THEN StretchEnd(ct, s, i + 1) ELSE i - 1
\* first quote at or after i (0 if none)
QuoteAfter(s, i) ==
  IF i > Len(s) THEN 0 ELSE IF s[i] = Quote THEN i ELSE QuoteAfter(s, i + 1)
\* end of the quoted string starting at i (0 if none)
QuoteEnd(s, i) == IF i <= Len(s) /\ s[i] = Quote THEN QuoteAfter(s, i + 1) ELSE 0

\* end of the token starting at i (0 if there is none)
TokenEnd(ct, s, i) ==
  IF s[i] \in {LP, RP} THEN i
  ELSE LET body == IF s[i] = Hyphen THEN i + 1 ELSE i
       IN IF QuoteEnd(s, body) > 0 THEN QuoteEnd(s, body)
          ELSE IF StretchEnd(ct, s, i) >= i THEN StretchEnd(ct, s, i) ELSE 0
RECURSIVE Tokens(_, _, _)
Tokens(ct, s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET e == TokenEnd(ct, s, i)
       IN IF e = 0 THEN Tokens(ct, s, i + 1)
          ELSE <<SubSeq(s, i, e)>> \o Tokens(ct, s, e + 1)

UpperAscii(s) == [i \in DOMAIN s |-> IF s[i] \in 97..122 THEN s[i] - 32 ELSE s[i]]
Kind(s) ==
  CASE s = <<LP>> -> "("
    [] s = <<RP>> -> ")"
    [] UpperAscii(s) = <<65, 78, 68>> -> "AND"
    [] UpperAscii(s) = <<79, 82>> -> "OR"
    [] UpperAscii(s) = <<78, 79, 84>> -> "NOT"
    [] OTHER -> "ATOM"
Token(ct, stop, pipe, s) ==
  LET ws == Analyze(ct, stop, pipe, TRUE, <<s>>)
  IN IF Kind(s) # "ATOM" THEN [k |-> Kind(s)]
     ELSE [k |-> "ATOM", words |-> ws, glob |-> Len(ws) = 1 /\ IsGlob(ws[1]),
           neg |-> s[1] = Hyphen, src |-> s]
ParseString(ct, stop, pipe, s) ==
  LET ts == Tokens(ct, s, 1)
  IN ParseTokens([i \in DOMAIN ts |-> Token(ct, stop, pipe, ts[i])])
=============================================================================
