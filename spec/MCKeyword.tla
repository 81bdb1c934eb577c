----------------------------- MODULE MCKeyword ------------------------------
EXTENDS KeywordIndex, TLC, Json
CONSTANTS Ids, Kws, Ths, Emit
VARIABLES st, act

Init == st = [KInit EXCEPT !.th = CHOOSE t \in Ths : TRUE] /\ act = <<"init">>
Next ==
  \/ \E d \in Ids, ws \in SUBSET Kws : st' = KIndex(st, d, ws) /\ act' = <<"index", d, ws>>
  \/ \E d \in Ids : st' = KUnindex(st, d) /\ act' = <<"unindex", d>>
  \/ st' = KClear(st) /\ act' = <<"clear">>
  \/ \E t \in Ths : st' = KThreshold(st, t) /\ act' = <<"thresh", t>>
  \/ st' = KOptimize(st) /\ act' = <<"optimize">>
Spec == Init /\ [][Next]_<<st, act>>
View == st

Consistent == KConsistent(st)
SearchExact == \A q \in SUBSET (Kws \cup {99}) : \A o \in {"and", "or"} :
  KSearch(st, q, o) = AKSearch(KDocs(st), q, o)
CountsExact == st.num = Cardinality(DOMAIN KDocs(st)) /\
               Cardinality(DOMAIN st.fwd) = AKWords(KDocs(st))
\* C07: representation changes and threshold changes keep the contents, and
\* the contents after any update do not depend on the representation
Content(s) == <<s.fwd, s.rev, s.num>>
RepresentationFree ==
  /\ Content(KOptimize(st)) = Content(st)
  /\ \A d \in Ids, ws \in SUBSET Kws, t \in Ths :
       /\ Content(KIndex(KOptimize(KThreshold(st, t)), d, ws)) = Content(KIndex(st, d, ws))
       /\ Content(KUnindex(KThreshold(st, t), d)) = Content(KUnindex(st, d))
KindMeansSize ==
  LET o == KOptimize(st) IN
  \A w \in DOMAIN o.fwd : o.kind[w] = "T" <=> Cardinality(o.fwd[w]) >= o.th
Forgetful ==
  \A d \in Ids, v, w \in SUBSET Kws :
    /\ Content(KIndex(KIndex(st, d, v), d, w)) = Content(KIndex(st, d, w))
    /\ Content(KUnindex(KIndex(st, d, v), d)) = Content(KUnindex(st, d))
Key(s) == <<Pairs(s.rev), Pairs(s.kind), s.th>>
EmitT == Emit => PrintT("@@T " \o ToJson(<<Key(st), act', Key(st')>>))
=============================================================================
