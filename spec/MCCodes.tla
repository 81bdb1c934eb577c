------------------------------ MODULE MCCodes -------------------------------
(* The codes over small bases: word ids with the base B for all lists of ids *)
(* below B^4, Rice codes and delta coding for all short lists.               *)
EXTENDS Codes, TLC
CONSTANTS B, MaxLen, MaxVal, MaxRice, Ms
VARIABLE s       \* a sequence of numbers

Init == s = <<>>
Next == Len(s) < MaxLen /\ \E w \in 0..MaxVal : s' = Append(s, w)
Spec == Init /\ [][Next]_s
ASSUME MaxVal < B * B * B * B

WidRoundTrip == WidDecode(B, WidEncode(B, s)) = s
WidConcat ==
  \A i \in 0..Len(s) : WidEncode(B, s) = WidEncode(B, SubSeq(s, 1, i)) \o WidEncode(B, SubSeq(s, i + 1, Len(s)))
WidAligned ==
  LET c == WidEncode(B, s)
  IN /\ Cardinality({i \in DOMAIN c : c[i] >= B}) = Len(s)
     /\ \A i \in DOMAIN s : WidCode(B, s[i])[1] >= B /\ Len(WidCode(B, s[i])) <= 4
WidMonotone == \A i, j \in DOMAIN s : s[i] <= s[j] => Len(WidCode(B, s[i])) <= Len(WidCode(B, s[j]))
\* a run of symbols that starts marked and ends before a mark or the end is
\* the code of a run of ids: occurrences of coded phrases are aligned
WidFind ==
  LET c == WidEncode(B, s)
  IN \A i, j \in 1..Len(c) :
       (i <= j /\ c[i] >= B /\ (j = Len(c) \/ c[j + 1] >= B)) =>
          LET p == WidDecode(B, SubSeq(c, i, j))
          IN WidEncode(B, p) = SubSeq(c, i, j) /\
             \E k \in 0..(Len(s) - Len(p)) : SubSeq(s, k + 1, k + Len(p)) = p

\* numbers modulo MaxRice, plus one, as items of Rice codes
Items == [i \in DOMAIN s |-> 1 + (s[i] % MaxRice)]
RiceRoundTrip == \A m \in Ms : RiceDecode(m, RiceEncode(m, Items), Len(s)) = Items
DeltaRoundTrip ==
  (s # <<>> /\ Increasing(s)) =>
    /\ Undelta(s[1], Deltas(s)) = s
    /\ Len(s) > 1 => Undelta(s[1], RiceDecode(1, RiceEncode(1, Deltas(s)), Len(s) - 1)) = s
=============================================================================
