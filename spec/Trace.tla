------------------------------- MODULE Trace -------------------------------
(* Checks recorded traces of the implementation against Obs, one TLC step per event. *)
EXTENDS Obs, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st
vars == <<t, l, st>>

Init == /\ t \in 1 .. Len(Traces)
        /\ l = 0
        /\ st = InitSt(Traces[t].cfg)

\* a few events per step: less work for TLC
Chunk == 40
StepTo(tr, s0, a, b) ==
  FoldLeft(LAMBDA acc, j : LET s == Apply(acc.s, tr[j])
                               new == s.viol \ acc.s.viol
                           IN [s |-> s, v |-> IF new = {} THEN acc.v ELSE Append(acc.v, <<j, new>>)],
           [s |-> s0, v |-> <<>>], [j \in 1 .. b - a + 1 |-> a + j - 1])

Next ==
  \/ /\ l < Len(Traces[t].ev)
     /\ LET hi == IF l + Chunk > Len(Traces[t].ev) THEN Len(Traces[t].ev) ELSE l + Chunk
            x == StepTo(Traces[t].ev, st, l + 1, hi)
        IN /\ st' = x.s
           /\ l' = hi
           /\ \A j \in 1 .. Len(x.v) : PrintT(<<"VIOL", Traces[t].id, x.v[j][1], x.v[j][2]>>)
     /\ t' = t
  \/ /\ l = Len(Traces[t].ev)
     /\ PrintT(<<"DONE", Traces[t].id, l>>)
     /\ l' = l + 1
     /\ UNCHANGED <<t, st>>

Spec == Init /\ [][Next]_vars
=============================================================================
