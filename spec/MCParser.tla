------------------------------ MODULE MCParser ------------------------------
(* All token sequences up to a length.  The recursive-descent specification  *)
(* (Parser) is compared with the documented grammar stated declaratively     *)
(* over spans of the token sequence, and its trees are checked to be well    *)
(* formed and to survive printing and parsing again.                         *)
EXTENDS Parser
CONSTANT MaxLen
VARIABLE q

A(w, neg) == [k |-> "ATOM", words |-> w, glob |-> FALSE, neg |-> neg, src |-> <<>>]
Toks == {[k |-> "AND"], [k |-> "OR"], [k |-> "NOT"], [k |-> "("], [k |-> ")"],
         A(<<1>>, FALSE), A(<<1, 2>>, FALSE), A(<<>>, FALSE), A(<<2>>, TRUE)}

Init == q = <<>>
Next == Len(q) < MaxLen /\ \E t \in Toks : q' = Append(q, t)
Spec == Init /\ [][Next]_q

RECURSIVE IsOr(_, _), IsAnd(_, _), IsRest(_, _), IsTerm(_, _)
At(i, k) == i \in DOMAIN q /\ q[i].k = k
IsOr(i, j) == IsAnd(i, j) \/ \E m \in i..(j - 2) : At(m + 1, "OR") /\ IsOr(i, m) /\ IsAnd(m + 2, j)
IsAnd(i, j) == \E m \in i..j : IsTerm(i, m) /\ IsRest(m + 1, j)
\* ('AND' NotExpr | 'NOT' AndExpr)*
IsRest(i, j) ==
  \/ i > j
  \/ \E m \in (i + 1)..j :
       /\ \/ At(i, "AND") /\ (IsTerm(i + 1, m) \/ (At(i + 1, "NOT") /\ IsTerm(i + 2, m)))
          \/ At(i, "NOT") /\ IsAnd(i + 1, m)
       /\ IsRest(m + 1, j)
IsTerm(i, j) ==
  \/ At(i, "(") /\ At(j, ")") /\ i + 1 <= j - 1 /\ IsOr(i + 1, j - 1)
  \/ /\ i <= j
     /\ \A m \in i..j : At(m, "ATOM")
     \* at least one positive word, unless all words are ignored
     /\ \/ \E m \in i..j : q[m].words # <<>> /\ ~q[m].neg
        \/ \A m \in i..j : q[m].words = <<>>
InLanguage == q # <<>> /\ IsOr(1, Len(q))

R == ParseTokens(q)
Grammar ==
  /\ R.ok => InLanguage
  \* the only other reason for an error is that nothing positive is left
  /\ (InLanguage /\ \A i \in DOMAIN q : q[i].k = "ATOM" => q[i].words # <<>>) => R.ok

RECURSIVE WF(_)
WF(t) ==
  CASE t[1] = "AND" ->
         /\ Len(t[2]) >= 2 /\ ~IsNot(t[2][1])
         /\ \A i \in DOMAIN t[2] : WF(IF IsNot(t[2][i]) THEN t[2][i][2] ELSE t[2][i])
         /\ \A i, j \in DOMAIN t[2] : i < j /\ IsNot(t[2][i]) => IsNot(t[2][j])
    [] t[1] = "OR" -> Len(t[2]) >= 2 /\ \A i \in DOMAIN t[2] : WF(t[2][i])
    [] t[1] = "NOT" -> FALSE
    [] OTHER -> TRUE
WellFormed == R.ok => WF(R.t)

RECURSIVE Unparse(_), Joined(_, _)
Joined(ts, op) ==
  IF ts = <<>> THEN <<>>
  ELSE LET t == Head(ts)
       IN (IF IsNot(t) THEN <<[k |-> "AND"], [k |-> "NOT"]>> \o Unparse(t[2])
           ELSE op \o Unparse(t)) \o Joined(Tail(ts), op)
Unparse(t) ==
  CASE t[1] = "AND" -> <<[k |-> "("]>> \o Unparse(t[2][1]) \o Joined(Tail(t[2]), <<[k |-> "AND"]>>) \o <<[k |-> ")"]>>
    [] t[1] = "OR" -> <<[k |-> "("]>> \o Unparse(t[2][1]) \o Joined(Tail(t[2]), <<[k |-> "OR"]>>) \o <<[k |-> ")"]>>
    [] t[1] = "PHRASE" -> <<A(t[2], FALSE)>>
    [] OTHER -> <<A(<<t[2]>>, FALSE)>>
RoundTrip == R.ok => ParseTokens(Unparse(R.t)).t = R.t

\* the terms are those atoms, in order, that are outside negations: without
\* any negation in the query they are all its atoms
TermsExact ==
  (R.ok /\ \A i \in DOMAIN q : q[i].k # "NOT" /\ (q[i].k = "ATOM" => ~q[i].neg)) =>
    LET as == SelectSeq(q, LAMBDA t : t.k = "ATOM" /\ t.words # <<>>)
    IN Terms(R.t) = [i \in DOMAIN as |-> IF Len(as[i].words) > 1 THEN <<"P", as[i].words>>
                                         ELSE <<"W", as[i].words[1]>>]
=============================================================================
