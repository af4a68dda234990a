------------------------------ MODULE BufTrace ------------------------------
(* Conformance of recorded executions with the specification of buffers:     *)
(* which shape each role has, which storage a constructor accepts, and what  *)
(* a buffer says about itself.  A buffer, once constructed, is a matrix      *)
(* (MatrixTrace).                                                            *)
(*                                                                           *)
(* Aspects: "size" (outcome of construction, queries), "made" (factories and *)
(* declarations), "beyond" (accesses outside the storage), and those of      *)
(* MatrixTrace.                                                              *)
EXTENDS MatrixTrace

(* The shape of each role in a model of s states, i inputs, m measurements.  *)
RoleShape(role, s, i, m) ==
    CASE role \in {"x", "temp_x"} -> <<s, 1>>
      [] role = "u" -> <<i, 1>>
      [] role \in {"z", "y"} -> <<m, 1>>
      [] role \in {"A", "P", "Q_direct", "temp_P", "temp_KHP"} -> <<s, s>>
      [] role \in {"B", "temp_BQ"} -> <<s, i>>
      [] role = "Q_control" -> <<i, i>>
      [] role \in {"R", "S", "temp_S_inv"} -> <<m, m>>
      [] role \in {"H", "temp_HP"} -> <<m, s>>
      [] role \in {"K", "temp_PHt"} -> <<s, m>>
      [] role = "matrix" -> <<s, m>>                                  \* no role

(* What a constructor does with storage for `have` elements when it needs    *)
(* `need`: "yes", "no", or "?" where both are fine.                          *)
Accepts(how, checking, need, have) ==
    CASE how = "unchecked" \/ ~checking -> "yes"
      [] how = "checked" -> IF have >= need THEN "yes" ELSE "no"      \* role buffers: enough
      [] how = "strict" -> IF have < need THEN "no" ELSE IF have = need THEN "yes" ELSE "?"
      [] how = "made" -> "yes"

(* What a buffer of n elements over storage for `have` says: length, storage *)
(* length, emptiness, validity, rows, columns                                *)
Bool(b) == IF b THEN 1 ELSE 0
Truth(s, have) == << s[1] * s[2], have, Bool(s[1] * s[2] = 0), Bool(s[1] * s[2] <= have), s[1], s[2] >>

Construct ==
    /\ IsEvent("buf")
    /\ LET s == RoleShape(E.role, E.S, E.C, E.M)
           need == s[1] * s[2]
           have == Len(E.given)
           a == Accepts(E.how, E.checking, need, have)
       IN /\ (Judge("size") \/ (Judge("made") /\ E.how = "made")) =>
                /\ Count("construction")
                /\ Check(a = "?" \/ E.ok = (a = "yes"), <<E.role, s, E.via, "storage of", have, IF E.ok THEN "accepted" ELSE "refused">>)
                /\ E.ok =>
                     /\ Check(E.q = Truth(s, have), <<E.role, E.via, "length, storage, empty, valid, rows, columns", E.q, "instead of", Truth(s, have)>>)
                     /\ Check(E.iq = << >> \/ E.iq = << need, Bool(need = 0), Bool(need <= have) >>, <<E.role, E.via, "own length, empty, valid", E.iq>>)
                     /\ Check(E.v = E.given, <<E.role, E.via, "contents", E.v, "instead of", E.given>>)
          /\ (Judge("made") /\ E.how = "made" /\ E.ok) =>
                (* `given` is what was to be made *)
                Check(have = need /\ \A k \in 1..have : E.given[k] = E.init, <<E.role, E.via, "not made of", need, E.init>>)
          /\ IF E.ok
             THEN /\ obj' = (E.o :> [r |-> s[1], c |-> s[2], fact |-> << >>]) @@ obj
                  /\ mem' = (E.o :> E.v) @@ mem
                  /\ cfg' = [cfg EXCEPT !.ext = (E.o :> need) @@ @]
             ELSE UNCHANGED <<obj, mem, cfg>>

(* A declared size: how many elements a role needs.                          *)
Size == /\ IsEvent("size")
        /\ Judge("made") => LET s == RoleShape(E.role, E.S, E.C, E.M) IN
              Count("size") /\ Check(E.n = s[1] * s[2], <<"size of", E.role, s, "given as", E.n>>)
        /\ UNCHANGED <<obj, mem, cfg>>

(* An access to element i of a storage which has no such element must stop,  *)
(* and must not change anything.                                             *)
Outside == /\ IsEvent("beyond")
           /\ Judge("beyond") => /\ Count("beyond")
                                 /\ Check(E.i < Len(mem[E.a]) \/ ~E.ok, <<E.via, "beyond the storage of", E.a, "at", E.i>>)
           /\ Judge("beyond") => Check(DOMAIN E.d = {}, <<E.via, "beyond the storage of", E.a, "changed", DOMAIN E.d>>)
           /\ AdoptMx

(* What surrounded a borrowed storage, before and after.                     *)
Guard == /\ IsEvent("guard")
         /\ Judge("beyond") => Check(E.was = E.now, <<"memory around", E.a, "changed", E.was, E.now>>)
         /\ UNCHANGED <<obj, mem, cfg>>

(* The storage taken out of a buffer again.                                  *)
Inner == /\ IsEvent("inner")
         /\ Judge("size") => Check(E.v = mem[E.a], <<"taken out of", E.a, E.v, "instead of", mem[E.a]>>)
         /\ UNCHANGED <<obj, mem, cfg>>

BufNext == Next \/ Construct \/ Size \/ Outside \/ Guard \/ Inner
BufSpec == Init /\ [][BufNext]_vars
=============================================================================
