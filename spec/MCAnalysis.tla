----------------------------- MODULE MCAnalysis -----------------------------
(* All short strings over a small alphabet: the recursive definitions of     *)
(* Analysis against declarative ones.                                        *)
EXTENDS Analysis, TLC
CONSTANTS MaxLen, Alphabet
VARIABLES s, p

\* the alphabet is given as code points; letters are word characters
Tab == [c \in Alphabet |-> [w |-> Letter(c), sp |-> c = 32,
                            lo |-> IF c \in 65..90 THEN <<c + 32>> ELSE <<c>>]]
ct == Tab @@ (32 :> [w |-> FALSE, sp |-> TRUE, lo |-> <<32>>]) @@
      [c \in {x + 32 : x \in Alphabet \cap 65..90} |-> [w |-> TRUE, sp |-> FALSE, lo |-> <<c>>]]

Init == s = <<>> /\ p = <<>>
Next == \/ Len(s) < MaxLen /\ p = <<>> /\ p' = p /\ \E c \in Alphabet : s' = Append(s, c)
        \* a pattern to match s against
        \/ /\ Len(s) \in 1..3 /\ \A i \in DOMAIN s : s[i] \notin {Star, Quest}
           /\ Len(p) < 4 /\ s' = s
           /\ \E c \in {s[1], s[Len(s)], Star, Quest} : p' = Append(p, c)
Spec == Init /\ [][Next]_<<s, p>>

\* maximal runs: the intervals that cannot be extended
Runs(glob) ==
  LET In(i) == ct[s[i]].w \/ (glob /\ s[i] \in {Star, Quest})
      run(i, j) == \A k \in i..j : In(k)
      \* in glob mode a run starts with the first word character of the stretch
      start(i) == ct[s[i]].w /\ ~\E k \in 1..(i - 1) : ct[s[k]].w /\ run(k, i - 1)
  IN {<<i, j>> \in (1..Len(s)) \X (1..Len(s)) :
        i <= j /\ run(i, j) /\ start(i) /\ (j = Len(s) \/ ~In(j + 1))}
RECURSIVE InOrder(_)
InOrder(rs) == IF rs = {} THEN <<>>
               ELSE LET f == CHOOSE r \in rs : \A o \in rs : r[1] <= o[1]
                    IN <<SubSeq(s, f[1], f[2])>> \o InOrder(rs \ {f})
SplitExact == \A g \in BOOLEAN : Split(ct, g, s) = InOrder(Runs(g))

RECURSIVE Join(_)
Join(ws) == IF ws = <<>> THEN <<>> ELSE Head(ws) \o <<32>> \o Join(Tail(ws))
Idempotent ==
  /\ \A g \in BOOLEAN : Split(ct, g, Join(Split(ct, g, s))) = Split(ct, g, s)
  /\ Lower(ct, Lower(ct, s)) = Lower(ct, s)
  /\ Split(ct, FALSE, Lower(ct, s)) = [i \in DOMAIN Split(ct, FALSE, s) |-> Lower(ct, Split(ct, FALSE, s)[i])]
\* glob mode and plain mode agree on texts without glob marks
GlobFree == ~IsGlob(s) => Split(ct, TRUE, s) = Split(ct, FALSE, s)
\* replacing markup never joins or changes words outside of it
MarkupLaws ==
  /\ (\A i \in DOMAIN s : MarkupEnd(s, i) = 0) => HtmlSplit(ct, FALSE, s) = Split(ct, FALSE, Lower(ct, s))
  /\ \A i \in DOMAIN s : MarkupEnd(s, i) > 0 /\ (\A k \in 1..(i - 1) : MarkupEnd(s, k) = 0) =>
       HtmlSplit(ct, FALSE, s) =
         HtmlSplit(ct, FALSE, SubSeq(s, 1, i - 1)) \o HtmlSplit(ct, FALSE, SubSeq(s, MarkupEnd(s, i) + 1, Len(s)))

\* matching by choosing what each mark stands for: from position i of the
\* pattern and j of the word
RECURSIVE GlobAt(_, _)
GlobAt(i, j) ==
  IF i > Len(p) THEN j > Len(s)
  ELSE IF p[i] = Star THEN \E k \in j..(Len(s) + 1) : GlobAt(i + 1, k)
  ELSE j <= Len(s) /\ (p[i] = Quest \/ p[i] = s[j]) /\ GlobAt(i + 1, j + 1)
GlobExact == p # <<>> => (GlobMatch(p, s) <=> GlobAt(1, 1))
=============================================================================
