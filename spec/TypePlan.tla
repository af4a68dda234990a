------------------------------ MODULE TypePlan ------------------------------
(* Writes down all programs of Types, for the compiler.                      *)
EXTENDS Types, Json, IOUtils, TLC, SequencesExt
VARIABLE done
Families == <<RolePrograms, StoragePrograms, BuildPrograms, CallPrograms, ApplyPrograms, Accesses, Op3Programs, Op2Programs, Op1Programs,
            FromPrograms, BorrowPrograms, AutoPrograms, InterfacePrograms>>
Init == done = 0
Next == /\ done < Len(Families)
        /\ done' = done + 1
        /\ ndJsonSerialize(IOEnv.PLAN \o ToString(done'), SetToSeq(Families[done']))
        /\ PrintT(<<"COUNT", "programs", Cardinality(Families[done']), Cardinality({p \in Families[done'] : WellTyped(p)})>>)
Spec == Init /\ [][Next]_done
=============================================================================
