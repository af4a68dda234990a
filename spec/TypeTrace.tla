----------------------------- MODULE TypeTrace ------------------------------
(* The compiler's verdict on each of the programs of Types: it accepts the   *)
(* well-typed ones and refuses the others.                                   *)
(* Events: "prog" (E.p the program, E.ok whether it compiles), "end".        *)
EXTENDS Types, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
vars == <<l>>
E == Trace[l]
IsEvent(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
Check(ok, what) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, what>>) /\ FALSE

Prog == /\ IsEvent("prog")
        /\ E.p \in Programs
        /\ IF WellTyped(E.p) THEN Check(E.ok, <<"a program the compiler has to accept", E.p, E.msg>>)
                             ELSE Check(~E.ok, <<"a program the compiler has to refuse", E.p>>)
        /\ TLCSet(IF E.ok THEN 1 ELSE 2, TLCGet(IF E.ok THEN 1 ELSE 2) + 1)
(* these were all programs                                                   *)
End == /\ IsEvent("end")
       /\ Check({Trace[i].p : i \in 1..(l - 1)} = Programs, <<"not all programs were compiled">>)

Init == TLCSet(1, 0) /\ TLCSet(2, 0) /\ l = 1
Next == Prog \/ End
Spec == Init /\ [][Next]_vars
TraceAccepted == /\ PrintT(<<"COUNT", "programs accepted", TLCGet(1)>>) /\ PrintT(<<"COUNT", "programs refused", TLCGet(2)>>)
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
