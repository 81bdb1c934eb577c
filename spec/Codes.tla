------------------------------- MODULE Codes --------------------------------
(* zope.index.text.widcode and zope.index.text.ricecode.                     *)
EXTENDS Util, SequencesExt

\* Word ids: digits to the base B, most significant first, without leading
\* zeros; the first is marked by adding B.
RECURSIVE WidDigits(_, _)
WidDigits(B, w) == IF w < B THEN <<w>> ELSE Append(WidDigits(B, w \div B), w % B)
WidCode(B, w) == LET ds == WidDigits(B, w) IN [ds EXCEPT ![1] = @ + B]
WidEncode(B, ws) == FlattenSeq([i \in DOMAIN ws |-> WidCode(B, ws[i])])

RECURSIVE WidValue(_, _)
WidValue(B, ds) == IF ds = <<>> THEN 0 ELSE B * WidValue(B, SubSeq(ds, 1, Len(ds) - 1)) + ds[Len(ds)]
\* the parts of a code start at its marked symbols
WidDecode(B, c) ==
  LET starts == Asc({i \in DOMAIN c : c[i] >= B})
      end(i) == IF i = Len(starts) THEN Len(c) ELSE starts[i + 1] - 1
  IN [i \in DOMAIN starts |->
        WidValue(B, [SubSeq(c, starts[i], end(i)) EXCEPT ![1] = @ - B])]

\* Rice code of an item v >= 1 with parameter m: (v-1) \div 2^m ones, a zero,
\* and the m low bits of v-1, the highest first
RiceBits(m, v) ==
  [i \in 1..((v - 1) \div 2^m) |-> 1] \o <<0>> \o
  [i \in 1..m |-> ((v - 1) \div 2^(m - i)) % 2]
RiceEncode(m, vs) == FlattenSeq([i \in DOMAIN vs |-> RiceBits(m, vs[i])])
RECURSIVE Ones(_, _), BitsValue(_), RiceDecode(_, _, _)
Ones(bits, i) == IF bits[i] = 1 THEN 1 + Ones(bits, i + 1) ELSE 0
BitsValue(bs) == IF bs = <<>> THEN 0 ELSE 2 * BitsValue(SubSeq(bs, 1, Len(bs) - 1)) + bs[Len(bs)]
RiceDecode(m, bits, n) ==
  IF n = 0 THEN <<>>
  ELSE LET q == Ones(bits, 1)
       IN <<q * 2^m + BitsValue(SubSeq(bits, q + 2, q + 1 + m)) + 1>> \o
          RiceDecode(m, SubSeq(bits, q + 2 + m, Len(bits)), n - 1)

Increasing(s) == \A i \in 2..Len(s) : s[i - 1] < s[i]
Deltas(s) == [i \in 1..(Len(s) - 1) |-> s[i + 1] - s[i]]
RECURSIVE Undelta(_, _)
Undelta(x, ds) == IF ds = <<>> THEN <<x>> ELSE <<x>> \o Undelta(x + Head(ds), Tail(ds))
=============================================================================
