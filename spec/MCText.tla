------------------------------- MODULE MCText -------------------------------
(* Small universe of documents and texts: the incrementally maintained state *)
(* against the contents, phrase search on the coded texts, and the laws of   *)
(* queries.                                                                  *)
EXTENDS TextIndex, TLC, Json
CONSTANTS Ids, Wds, MaxText, Cut, Emit
VARIABLES st, act

Texts == UNION {[1..n -> Wds] : n \in 0..MaxText}
Init == st = XInit /\ act = <<"init">>
Next ==
  \/ \E d \in Ids, t \in Texts : st' = XIndex(st, Cut, d, t) /\ act' = <<"index", d, t>>
  \/ \E d \in Ids : st' = XUnindex(st, d) /\ act' = <<"unindex", d>>
  \/ st' = XClear(st) /\ act' = <<"clear">>
Spec == Init /\ [][Next]_<<st, act>>
View == st

Consistent == XConsistent(st)
Content(s) == <<s.wi, s.dw, s.nd, s.nw, s.tot>>
Forgetful ==
  \A d \in Ids, t \in Texts :
    /\ Content(XIndex(XUnindex(st, d), Cut, d, t)) = Content(XIndex(st, Cut, d, t))
    /\ d \notin DOMAIN st.dw => Content(XUnindex(XIndex(st, Cut, d, t), d)) = Content(st)

\* phrase search works on codes in which only the first symbol of a word is
\* marked; here words 0..1 have the code <<10 + w>>, 2.. the code <<11, w>>
Code(w) == IF w < 2 THEN <<10 + w>> ELSE <<11, w - 2>>
CodeOf(ws) == Concat([i \in DOMAIN ws |-> Code(ws[i])])
OccursCoded(p, s) ==
  \E i \in 0..(Len(s) - Len(p)) :
    /\ \A j \in DOMAIN p : s[i + j] = p[j]
    /\ i + Len(p) = Len(s) \/ s[i + Len(p) + 1] >= 10
Phrases == UNION {[1..n -> Wds] : n \in 1..2}
PhraseCoded ==
  \A p \in Phrases, d \in DOMAIN st.dw :
    Occurs(p, st.dw[d]) <=> OccursCoded(CodeOf(p), CodeOf(st.dw[d]))

Chars == [w \in Wds |-> <<97 + w>>]
Atoms == {<<"ATOM", w>> : w \in Wds} \cup {<<"GLOB", <<97, 42>>>>}
E(t) == DOMAIN XEval(st.dw, Chars, t).res
BooleanLaws ==
  \A a, b \in Atoms :
    /\ E(<<"AND", <<a, b>>>>) = E(a) \cap E(b)
    /\ E(<<"OR", <<a, b>>>>) = E(a) \cup E(b)
    /\ E(<<"AND", <<a, <<"NOT", b>>>>>>) = E(a) \ E(b)
    /\ \A c \in Atoms : E(<<"AND", <<a, <<"OR", <<b, c>>>>>>>>) =
         E(<<"OR", <<<<"AND", <<a, b>>>>, <<"AND", <<a, c>>>>>>>>)
    /\ \A v, w \in Wds : E(<<"PHRASE", <<v, w>>>>) \subseteq E(<<"AND", <<<<"ATOM", v>>, <<"ATOM", w>>>>>>)
Key(s) == <<Pairs(s.dw), Pairs(s.kind)>>
EmitT == Emit => PrintT("@@T " \o ToJson(<<Key(st), act', Key(st')>>))
=============================================================================
