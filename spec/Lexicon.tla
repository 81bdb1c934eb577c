------------------------------ MODULE Lexicon -------------------------------
(* The lexicon: known maps every word seen (a sequence of code points, or    *)
(* any value in the models) to its id.  Which ids new words get is left open *)
(* by the property: any positive one never used before.                      *)
EXTENDS Util

\* may the sequence ws of words be given the ids r, and what is known then
RECURSIVE Admits(_, _, _), Learn(_, _, _)
Admits(known, ws, r) ==
  IF Len(ws) # Len(r) THEN FALSE
  ELSE IF ws = <<>> THEN TRUE
  ELSE LET w == Head(ws)
           ok == IF w \in DOMAIN known THEN known[w] = Head(r)
                 ELSE Head(r) > 0 /\ Head(r) \notin Range(known)
       IN ok /\ Admits(With(known, w, Head(r)), Tail(ws), Tail(r))
Learn(known, ws, r) ==
  IF ws = <<>> \/ r = <<>> THEN known
  ELSE Learn(With(known, Head(ws), Head(r)), Tail(ws), Tail(r))

WidOf(known, w) == Get(known, w, 0)
OneToOne(known) ==
  /\ \A w \in DOMAIN known : known[w] > 0
  /\ \A v, w \in DOMAIN known : known[v] = known[w] => v = w
=============================================================================
