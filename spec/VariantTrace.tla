---------------------------- MODULE VariantTrace ----------------------------
(* The same script executed on several variants of the software (integer     *)
(* family, compiled or pure Python): e.a has the answer of each variant in   *)
(* canonical form, e.s the scores as scaled integers.                        *)
EXTENDS TraceRun, TraceCommon

VTInit(cfg) == <<>>
VTStep(cfg, s, e) ==
  [st |-> s,
   bad |-> Clause("variant", /\ \A i \in DOMAIN e.a : e.a[i] = e.a[1]
                             /\ \A i \in DOMAIN e.s : Near(e.s[i], e.s[1]))]
=============================================================================
