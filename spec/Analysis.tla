------------------------------ MODULE Analysis ------------------------------
(* Text analysis: splitters, normalizers, stop words, pipelines, and glob    *)
(* matching (zope.index.text.lexicon, .htmlsplitter).                        *)
(*                                                                           *)
(* Strings are sequences of code points.  ct maps every code point in use    *)
(* to [w |-> is a word character, sp |-> is white space, lo |-> its lower    *)
(* case form (a sequence)].                                                  *)
EXTENDS Util

Star == 42
Quest == 63
Lt == 60
Gt == 62
Amp == 38
Semi == 59
Letter(c) == c \in 65..90 \/ c \in 97..122

CharTable(tab) ==
  LET at == [c \in {tab[i].c : i \in DOMAIN tab} |-> CHOOSE i \in DOMAIN tab : tab[i].c = c]
  IN [c \in DOMAIN at |-> [w |-> tab[at[c]].w, sp |-> tab[at[c]].sp, lo |-> tab[at[c]].lo]]

\* maximal runs of word characters; in glob mode a run goes on over * and ?
RECURSIVE Words(_, _, _, _, _)
Words(ct, glob, s, i, cur) ==
  LET flush == IF cur = <<>> THEN <<>> ELSE <<cur>>
  IN IF i > Len(s) THEN flush
     ELSE IF ct[s[i]].w \/ (glob /\ cur # <<>> /\ s[i] \in {Star, Quest})
          THEN Words(ct, glob, s, i + 1, Append(cur, s[i]))
          ELSE flush \o Words(ct, glob, s, i + 1, <<>>)
Split(ct, glob, s) == Words(ct, glob, s, 1, <<>>)

Lower(ct, s) == Concat([i \in DOMAIN s |-> ct[s[i]].lo])

\* position of the end of the markup starting at i, or 0 if there is none:
\* a tag <...> without < or > inside, or a named entity &name;
RECURSIVE TagEnd(_, _), NameEnd(_, _)
TagEnd(s, j) == IF j > Len(s) \/ s[j] = Lt THEN 0 ELSE IF s[j] = Gt THEN j ELSE TagEnd(s, j + 1)
NameEnd(s, j) == IF j <= Len(s) /\ Letter(s[j]) THEN NameEnd(s, j + 1) ELSE j
MarkupEnd(s, i) ==
  CASE s[i] = Lt -> TagEnd(s, i + 1)
    [] s[i] = Amp -> LET j == NameEnd(s, i + 1)
                     IN IF j > i + 1 /\ j <= Len(s) /\ s[j] = Semi THEN j ELSE 0
    [] OTHER -> 0
RECURSIVE NoMarkup(_, _)
NoMarkup(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF MarkupEnd(s, i) > 0 THEN <<32>> \o NoMarkup(s, MarkupEnd(s, i) + 1)
  ELSE <<s[i]>> \o NoMarkup(s, i + 1)
HtmlSplit(ct, glob, s) == Split(ct, glob, NoMarkup(Lower(ct, s), 1))

RECURSIVE Filter(_, _)
Filter(ws, drop) ==
  IF ws = <<>> THEN <<>>
  ELSE (IF Head(ws) \in drop THEN <<>> ELSE <<Head(ws)>>) \o Filter(Tail(ws), drop)
RECURSIVE Rev(_)
Rev(s) == IF s = <<>> THEN <<>> ELSE Append(Rev(Tail(s)), Head(s))

\* one pipeline element; "dup", "rev" and "tag" are elements of the harness
\* that make the order and number of applications visible
Element(ct, stop, el, glob, ws) ==
  CASE el = "split" -> Concat([i \in DOMAIN ws |-> Split(ct, glob, ws[i])])
    [] el = "html" -> Concat([i \in DOMAIN ws |-> HtmlSplit(ct, glob, ws[i])])
    [] el = "lower" -> [i \in DOMAIN ws |-> Lower(ct, ws[i])]
    [] el = "stop" -> Filter(ws, stop)
    [] el = "stop1" -> Filter(SelectSeq(ws, LAMBDA w : ~(Len(w) = 1 /\ w[1] <= 254)), stop)
    [] el = "dup" -> Concat([i \in DOMAIN ws |-> <<ws[i], ws[i]>>])
    [] el = "rev" -> Rev(ws)
    [] el = "tag" -> [i \in DOMAIN ws |-> ws[i] \o <<120>>]
RECURSIVE Analyze(_, _, _, _, _)
\* run the strings ws through the elements of the pipeline
Analyze(ct, stop, pipe, glob, ws) ==
  IF pipe = <<>> THEN ws
  ELSE Analyze(ct, stop, Tail(pipe), glob, Element(ct, stop, Head(pipe), glob, ws))

IsGlob(w) == \E i \in DOMAIN w : w[i] \in {Star, Quest}

\* the lengths of the prefixes of word w which the first n marks and
\* characters of pattern p match
RECURSIVE GlobReach(_, _, _)
GlobReach(p, w, n) ==
  IF n = 0 THEN {0}
  ELSE LET r == TLCEval(GlobReach(p, w, n - 1))
       IN IF r = {} THEN {}
          ELSE IF p[n] = Star
               THEN LET m == CHOOSE i \in r : \A j \in r : i <= j IN m..Len(w)
               ELSE {i + 1 : i \in {j \in r : j < Len(w) /\ (p[n] = Quest \/ p[n] = w[j + 1])}}
GlobMatch(p, w) == Len(w) \in GlobReach(p, w, Len(p))
\* patterns must not start with a mark
GlobLegal(p) == p = <<>> \/ p[1] \notin {Star, Quest}
=============================================================================
