---------------------------- MODULE FeatureTrace ----------------------------
(* The configuration space of the library, and what may depend on it.        *)
(*                                                                           *)
(* A configuration is a set of features.  Every one of them builds, and the  *)
(* numeric back-end is the only thing about it that a filter's results may   *)
(* depend on - and only for floating-point scalars.                          *)
(* What it needs is what it asks for: the standard library only with std, an *)
(* allocator only with std or alloc, unsafe code only with unsafe.           *)
(* Events: "build" (a configuration was compiled), "env" (what it needs),    *)
(* "run" (the fixed set of                                                   *)
(* executions was recorded under a configuration; E.d lists a digest of each *)
(* recorded scenario), "end".                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Features == {"std", "libm", "micromath", "alloc", "fixed", "unsafe", "nalgebra", "no_assert"}
(* the library's choice: the most precise back-end there is                  *)
Backend(f) == IF "std" \in f THEN "std" ELSE IF "libm" \in f THEN "libm" ELSE IF "micromath" \in f THEN "micromath" ELSE "none"
Exact == {"gf", "i16f16"}
Available(f, s) == CASE s = "gf" -> TRUE [] s = "i16f16" -> "fixed" \in f [] OTHER -> Backend(f) # "none"
Class(f, s) == <<IF s \in Exact THEN "any" ELSE Backend(f), s>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, built, seen        \* seen: the results of each class of configurations
vars == <<l, built, seen>>
E == Trace[l]
IsEvent(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
Set(s) == {s[i] : i \in 1..Len(s)}
Check(ok, what) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, what>>) /\ FALSE

Build == /\ IsEvent("build")
         /\ Check(Set(E.f) \subseteq Features, <<"unknown features", E.f>>)
         /\ Check(E.ok, <<"does not build with", E.f, E.msg>>)
         /\ TLCSet(1, TLCGet(1) + 1)
         /\ built' = built \cup {Set(E.f)}
         /\ UNCHANGED seen
Run == /\ IsEvent("run")
       /\ LET f == Set(E.f)
              c == <<Class(f, E.s), E.m>>
          IN /\ Check(Available(f, E.s), <<"no such scalar", E.s, f>>)
             /\ TLCSet(2, TLCGet(2) + Len(E.d))
             /\ IF c \in DOMAIN seen
                THEN /\ Check(E.d = seen[c].d, <<"differs from", seen[c].f, "with", E.f, E.s, E.m, "first in scenario",
                                                IF Len(E.d) # Len(seen[c].d) THEN 0 ELSE CHOOSE k \in 1..Len(E.d) : E.d[k] # seen[c].d[k] /\ \A j \in 1..(k - 1) : E.d[j] = seen[c].d[j]>>)
                     /\ UNCHANGED seen
                ELSE seen' = (c :> [f |-> E.f, d |-> E.d]) @@ seen
       /\ UNCHANGED built
Env == /\ IsEvent("env")
       /\ LET f == Set(E.f)
          IN /\ Check(f \subseteq Features, <<"unknown features", E.f>>)
             /\ E.ok => /\ Check(E.std => "std" \in f, <<"needs the standard library with", E.f>>)
                        /\ Check(E.use, <<"cannot be used with", E.f, E.msg>>)
                        /\ Check(E.alloc => f \cap {"std", "alloc"} # {}, <<"needs an allocator with", E.f>>)
                        /\ Check(E.unsafe => "unsafe" \in f, <<"contains unsafe code with", E.f, E.msg>>)
             /\ TLCSet(1, TLCGet(1) + 1)
             /\ built' = built \cup {f}
       /\ UNCHANGED seen
(* all of the configuration space has been covered                           *)
End == /\ IsEvent("end")
       /\ Check(built = SUBSET Features, <<"not built", Cardinality(SUBSET Features \ built)>>)
       /\ UNCHANGED <<built, seen>>

Init == TLCSet(1, 0) /\ TLCSet(2, 0) /\ l = 1 /\ built = {} /\ seen = << >>
Next == Build \/ Env \/ Run \/ End
Spec == Init /\ [][Next]_vars
TraceAccepted == /\ PrintT(<<"COUNT", "builds", TLCGet(1)>>) /\ PrintT(<<"COUNT", "runs compared", TLCGet(2)>>)
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
