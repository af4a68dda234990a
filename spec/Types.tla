------------------------------- MODULE Types --------------------------------
(* What the compiler has to accept, and what it has to refuse.               *)
(*                                                                           *)
(* A buffer has a role (the matrix of the filter it stands for), a shape, a  *)
(* scalar type, and it is writable or constant.  A filter, a control or an   *)
(* observation is built of one buffer per role; a call joins a filter to a   *)
(* control or an observation; an operation joins matrices.  The programs     *)
(* below are all combinations over small shapes; WellTyped says which of     *)
(* them are programs at all.                                                 *)
EXTENDS Naturals, Sequences, FiniteSets

\* role -> what its rows and columns count: states, controls, observations, or a vector's single column
Axes == [A |-> <<"S", "S">>, x |-> <<"S", "1">>, P |-> <<"S", "S">>, Qd |-> <<"S", "S">>,
         px |-> <<"S", "1">>, tP |-> <<"S", "S">>,
         u |-> <<"C", "1">>, B |-> <<"S", "C">>, Qc |-> <<"C", "C">>, tBQ |-> <<"S", "C">>,
         z |-> <<"M", "1">>, H |-> <<"M", "S">>, R |-> <<"M", "M">>, y |-> <<"M", "1">>, S |-> <<"M", "M">>,
         K |-> <<"S", "M">>, tSi |-> <<"M", "M">>, tHP |-> <<"M", "S">>, tPHt |-> <<"S", "M">>, tKHP |-> <<"S", "S">>]
Roles == DOMAIN Axes
Vector(r) == Axes[r][2] = "1"
Square(r) == Axes[r][1] = Axes[r][2]
\* the model of a system may be constant; everything else is written to by the filter
Constant == {"A", "Qd", "B", "Qc", "H"}
\* roles with an interface for reading and another one for writing
Split == Constant \cup {"x", "u", "z"}

Sizes == {2, 3}
Shapes(r) == {s \in Sizes \X (Sizes \cup {1}) : IF Vector(r) THEN s[2] = 1 ELSE s[2] # 1 /\ (Square(r) => s[1] = s[2])}
Floats == {"f32", "f64"}

Buffer(r, w, s, t) == [role |-> r, w |-> w, sh |-> s, t |-> t]
BuffersOf(r, T) == {Buffer(r, w, s, t) : w \in (IF r \in Constant THEN BOOLEAN ELSE {TRUE}), s \in Shapes(r), t \in T}
Buffers(T) == UNION {BuffersOf(r, T) : r \in Roles}
\* the interface of a role: for writing (w), or for reading only
InterfacesOf(r, T) == {Buffer(r, w, s, t) : w \in (IF r \in Split THEN BOOLEAN ELSE {TRUE}), s \in Shapes(r), t \in T}
Interfaces(T) == UNION {InterfacesOf(r, T) : r \in Roles}

Serves(b, i) == b.role = i.role /\ b.sh = i.sh /\ b.t = i.t /\ (i.w => b.w)

(* 1. A buffer where a role is asked for.                                     *)
RolePrograms == {[k |-> "role", buf |-> b, as |-> i] : b \in Buffers({"f32"}), i \in Interfaces({"f32"})}
           \cup UNION {{[k |-> "role", buf |-> b, as |-> i] : b \in BuffersOf(r, Floats), i \in InterfacesOf(r, Floats)} : r \in Roles}

(* 2. Storage for a buffer: the array is owned, a slice is borrowed.           *)
Storages == {"array", "slice", "slice mut", "box"}
Writable(how) == how # "slice"
Data(how, s, t) == [how |-> how, sh |-> s, t |-> t]
DataShapes == {<<2, 2>>, <<3, 3>>, <<2, 3>>, <<3, 2>>, <<2, 1>>, <<3, 1>>, <<1, 2>>}
Fits(b, d) == b.sh = d.sh /\ b.t = d.t /\ (b.w => Writable(d.how))
StoragePrograms == {[k |-> "storage", buf |-> b, data |-> Data(h, s, "f32")] : b \in Buffers({"f32"}), h \in Storages, s \in DataShapes}
              \cup UNION {{[k |-> "storage", buf |-> b, data |-> Data(h, b.sh, "f64")] : h \in Storages} : b \in Buffers({"f32"})}

(* 3. Building: one of the slots is filled with something else.               *)
Slots == [regular  |-> <<"A", "x", "P", "Qd", "px", "tP">>,
          extended |-> <<"A", "x", "P", "Qd", "px", "tP">>,
          control  |-> <<"B", "u", "Qc", "tBQ">>,
          linear    |-> <<"H", "z", "R", "y", "S", "K", "tSi", "tHP", "tPHt", "tKHP">>,
          nonlinear |-> <<"H", "z", "R", "y", "S", "K", "tSi", "tHP", "tPHt", "tKHP">>]
Kinds == DOMAIN Slots
Count(n, a) == CASE a = "S" -> n[1] [] a = "C" -> n[2] [] a = "M" -> n[3] [] a = "1" -> 1
ShapeOf(r, n) == <<Count(n, Axes[r][1]), Count(n, Axes[r][2])>>
\* what a slot asks for
Slot(r, n, t) == Buffer(r, r \notin Constant /\ r \notin {"u", "z"}, ShapeOf(r, n), t)
\* all the same, so that only the role tells them apart; all different
Build(kind, n, t, i, b) == [k |-> "build", kind |-> kind, n |-> n, t |-> t, slot |-> i, buf |-> b]
BuildPrograms ==
    UNION {UNION {{Build(kind, <<2, 2, 2>>, "f32", i, b) : b \in {c \in Buffers({"f32"}) : c.sh \in {<<2, 2>>, <<2, 1>>}}}
                  \cup {Build(kind, n, "f32", i, b) : n \in {<<2, 3, 3>>, <<3, 2, 2>>}, b \in BuffersOf(Slots[kind][i], Floats)}
                  : i \in DOMAIN Slots[kind]} : kind \in Kinds}

(* 4. Calls: what is joined has the same number of states and the same scalar. *)
Partners == [control |-> "control", correct |-> "linear", correct_nonlinear |-> "nonlinear"]
CallPrograms == {[k |-> "call", op |-> op, s |-> s, t |-> t, with |-> w, ws |-> ws, wt |-> wt] :
                    op \in DOMAIN Partners, s \in Sizes, t \in Floats, w \in {"control", "linear", "nonlinear"}, ws \in Sizes, wt \in Floats}
CallsWell(p) == p.with = Partners[p.op] /\ p.s = p.ws /\ p.t = p.wt

(* 5. Controls and observations applied to an estimate directly.              *)
ApplyPrograms == UNION {{[k |-> "apply", op |-> op, n |-> <<2, 3, 3>>, t |-> "f32", x |-> x, P |-> P] :
                            x \in BuffersOf("x", Floats), P \in BuffersOf("P", Floats)}
                        \cup {[k |-> "apply", op |-> op, n |-> <<2, 2, 2>>, t |-> "f32", x |-> Buffer("x", TRUE, <<2, 1>>, "f32"), P |-> P] :
                            P \in {b \in Buffers({"f32"}) : b.sh = <<2, 2>>}}
                        \cup {[k |-> "apply", op |-> op, n |-> <<2, 2, 2>>, t |-> "f32", x |-> x, P |-> Buffer("P", TRUE, <<2, 2>>, "f32")] :
                            x \in {b \in Buffers({"f32"}) : b.sh = <<2, 1>>}} : op \in DOMAIN Partners}
AppliesWell(p) == Serves(p.x, Buffer("x", TRUE, ShapeOf("x", p.n), p.t)) /\ Serves(p.P, Buffer("P", TRUE, ShapeOf("P", p.n), p.t))

(* 6. A constant model is not handed out for writing.                         *)
AccessPrograms == {[k |-> "access", kind |-> kind, role |-> r, w |-> w, write |-> m] :
                       kind \in Kinds, r \in Constant, w \in BOOLEAN, m \in BOOLEAN}
AccessWell(p) == p.write => p.w
Accesses == {p \in AccessPrograms : \E i \in DOMAIN Slots[p.kind] : Slots[p.kind][i] = p.role}

(* 7. Operations on matrices: of these shapes and no others.                  *)
Dims == {1, 2, 3}
AllShapes == Dims \X Dims
\* operation -> the shapes of its second and third operand
Ternary == {"mult", "mult_buffered", "mult_rowvector", "multadd_rowvector", "mult_transb", "multadd_transb", "multscale_transb", "sub"}
Binary  == {"add_inplace_a", "sub_inplace_a", "copy_from", "add_inplace_b", "sub_inplace_b", "copy_to", "copy"}
OfFirst == {"add_inplace_a", "sub_inplace_a", "copy_from"}          \* these write to the first operand
Operands(op, a, b, c) ==
    CASE op \in {"mult", "mult_buffered"} -> b[1] = a[2] /\ c = <<a[1], b[2]>>
      [] op \in {"mult_rowvector", "multadd_rowvector"} -> b = <<a[2], 1>> /\ c = <<a[1], 1>>
      [] op \in {"mult_transb", "multadd_transb", "multscale_transb"} -> b[2] = a[2] /\ c = <<a[1], b[1]>>
      [] op = "sub" -> b = a /\ c = a
Firsts == {<<2, 3>>, <<3, 3>>, <<1, 1>>, <<3, 1>>}
Op3(op, a, b, c) == [k |-> "op3", op |-> op, a |-> a, b |-> b, c |-> c]
Op2(op, a, b) == [k |-> "op2", op |-> op, a |-> a, b |-> b]
M(s) == Data("array", s, "f32")
Op3Programs == {Op3(op, M(a), M(b), M(c)) : op \in Ternary, a \in Firsts, b \in AllShapes, c \in AllShapes}
          \cup {Op3(op, Data(ha, <<2, 2>>, ta), Data(hb, IF op \in {"mult_rowvector", "multadd_rowvector"} THEN <<2, 1>> ELSE <<2, 2>>, "f32"),
                    Data(hc, IF op \in {"mult_rowvector", "multadd_rowvector"} THEN <<2, 1>> ELSE <<2, 2>>, tc)) :
                    op \in Ternary, ha \in Storages, hb \in Storages, hc \in Storages, ta \in Floats, tc \in Floats}
Op3Well(p) == Operands(p.op, p.a.sh, p.b.sh, p.c.sh) /\ p.a.t = p.b.t /\ p.a.t = p.c.t /\ Writable(p.c.how)
Op2Programs == {Op2(op, M(a), M(b)) : op \in Binary, a \in Firsts, b \in AllShapes}
          \cup {Op2(op, Data(ha, <<2, 3>>, "f32"), Data(hb, <<2, 3>>, t)) : op \in Binary, ha \in Storages, hb \in Storages, t \in Floats}
Op2Well(p) == p.a.sh = p.b.sh /\ p.a.t = p.b.t /\ Writable(IF p.op \in OfFirst THEN p.a.how ELSE p.b.how)

(* 8. Operations on one matrix: for which shapes they exist, and whether they write. *)
Unary == [get |-> [w |-> FALSE, of |-> "any"], set |-> [w |-> TRUE, of |-> "any"], set_all |-> [w |-> TRUE, of |-> "any"],
          clear |-> [w |-> TRUE, of |-> "any"], set_zero |-> [w |-> TRUE, of |-> "any"], set_at |-> [w |-> TRUE, of |-> "any"],
          get_at |-> [w |-> FALSE, of |-> "any"], as_slice |-> [w |-> FALSE, of |-> "any"], as_mut_slice |-> [w |-> TRUE, of |-> "any"],
          get_row_copy |-> [w |-> FALSE, of |-> "any"], get_column_copy |-> [w |-> FALSE, of |-> "any"],
          make_identity |-> [w |-> TRUE, of |-> "square"], make_scalar |-> [w |-> TRUE, of |-> "square"],
          make_comatrix |-> [w |-> TRUE, of |-> "square"], set_diagonal_to_scalar |-> [w |-> TRUE, of |-> "square"],
          invert_l_cholesky |-> [w |-> FALSE, of |-> "square"],
          get_value |-> [w |-> FALSE, of |-> "scalar"], set_value |-> [w |-> TRUE, of |-> "scalar"],
          get_row |-> [w |-> FALSE, of |-> "n by 1"], set_row |-> [w |-> TRUE, of |-> "n by 1"],
          get_col |-> [w |-> FALSE, of |-> "1 by n"], set_col |-> [w |-> TRUE, of |-> "1 by n"]]
Op1Programs == {[k |-> "op1", op |-> op, a |-> Data(h, s, t)] : op \in DOMAIN Unary, h \in Storages, s \in AllShapes, t \in Floats}
Op1Well(p) == /\ CASE Unary[p.op].of = "any" -> TRUE
                   [] Unary[p.op].of = "square" -> p.a.sh[1] = p.a.sh[2]
                   [] Unary[p.op].of = "scalar" -> p.a.sh = <<1, 1>>
                   [] Unary[p.op].of = "n by 1" -> p.a.sh[2] = 1
                   [] Unary[p.op].of = "1 by n" -> p.a.sh[1] = 1
              /\ Unary[p.op].w => Writable(p.a.how)

(* 9. Conversions into a buffer: an array is taken over, a slice is lent.       *)
Sources == {"exact", "longer", "slice", "slice mut"}
Some(r) == CHOOSE s \in Shapes(r) : s[1] = 2 /\ (Square(r) \/ s[2] # 2)
One(r) == {b \in BuffersOf(r, {"f32"}) : b.sh = Some(r)}
FromPrograms == UNION {{[k |-> "from", buf |-> b, src |-> c, t |-> t] : b \in One(r), c \in Sources, t \in Floats} : r \in Roles}
FromWell(p) == p.t = p.buf.t /\ (p.src = "slice" => ~p.buf.w) /\ (p.src = "longer" => ~Vector(p.buf.role))

(* 10. What is lent stays lent: storage does not outlive its owner, and nobody  *)
(*     else writes to it, or - if the buffer may write - reads it.              *)
BorrowPrograms == UNION {{p \in {[k |-> "borrow", buf |-> b, how |-> h, do |-> d] : b \in One(r), h \in Storages, d \in {"escape", "write", "read"}} :
                             Fits(p.buf, Data(p.how, p.buf.sh, "f32"))} : r \in Roles}
BorrowWell(p) == CASE p.how \in {"array", "box"} -> TRUE [] p.how = "slice" -> p.do = "read" [] OTHER -> FALSE

(* 11. A buffer goes to another thread if its storage does.                    *)
AutoPrograms == UNION {{p \in {[k |-> "auto", buf |-> b, how |-> h, marker |-> m, t |-> t] :
                                  b \in One(r), h \in Storages, m \in {"Send", "Sync"}, t \in {"f32", "Cell", "Rc"}} :
                             Fits(p.buf, Data(p.how, p.buf.sh, "f32"))} : r \in Roles}
SendScalar(t) == t # "Rc"
SyncScalar(t) == t = "f32"
AutoWell(p) == IF p.marker = "Sync" \/ p.how = "slice" THEN SyncScalar(p.t) ELSE SendScalar(p.t)

(* 12. What generic code may ask of a filter, a control or an observation: the *)
(*     sizes it was built with, and writing to what is writable.               *)
I(name, par, needs) == [name |-> name, par |-> par, needs |-> needs]
Filters == {I("KalmanFilterNumStates", <<"S">>, ""), I("KalmanFilterStateVector", <<"S", "T">>, ""), I("KalmanFilterStateVectorMut", <<"S", "T">>, ""),
            I("KalmanFilterEstimateCovariance", <<"S", "T">>, ""), I("KalmanFilterEstimateCovarianceMut", <<"S", "T">>, "")}
Observations == {I("KalmanFilterNumStates", <<"S">>, ""), I("KalmanFilterNumObservations", <<"M">>, ""),
                 I("KalmanFilterMeasurementVector", <<"M", "T">>, ""), I("KalmanFilterObservationVectorMut", <<"M", "T">>, ""),
                 I("KalmanFilterMeasurementNoiseCovariance", <<"M", "T">>, ""), I("KalmanFilterMeasurementNoiseCovarianceMut", <<"M", "T">>, "")}
Offers == [regular |-> Filters \cup {I("KalmanFilter", <<"S", "T">>, ""), I("KalmanFilterPredict", <<"S", "T">>, ""),
                 I("KalmanFilterApplyControl", <<"S", "T">>, ""), I("KalmanFilterUpdate", <<"S", "T">>, ""),
                 I("KalmanFilterStateTransition", <<"S", "T">>, ""), I("KalmanFilterStateTransitionMut", <<"S", "T">>, "A")},
           extended |-> Filters \cup {I("ExtendedKalmanFilter", <<"S", "T">>, ""), I("KalmanFilterNonlinearPredict", <<"S", "T">>, ""),
                 I("KalmanFilterNonlinearUpdate", <<"S", "T">>, ""),
                 I("ExtendedKalmanFilterStateTransition", <<"S", "T">>, ""), I("ExtendedKalmanFilterStateTransitionMut", <<"S", "T">>, "A"),
                 I("KalmanFilterDirectProcessNoiseCovariance", <<"S", "T">>, ""), I("KalmanFilterDirectProcessNoiseMut", <<"S", "T">>, "Qd")},
           control |-> {I("KalmanFilterNumStates", <<"S">>, ""), I("KalmanFilterNumControls", <<"C">>, ""), I("KalmanFilterControl", <<"S", "C", "T">>, "Qc"),
                 I("KalmanFilterControlApplyToFilter", <<"S", "T">>, ""), I("KalmanFilterControlVector", <<"C", "T">>, ""),
                 I("KalmanFilterControlVectorMut", <<"C", "T">>, ""), I("KalmanFilterControlTransition", <<"S", "C", "T">>, ""),
                 I("KalmanFilterControlTransitionMut", <<"S", "C", "T">>, "B"), I("KalmanFilterControlProcessNoiseCovariance", <<"C", "T">>, ""),
                 I("KalmanFilterControlProcessNoiseMut", <<"C", "T">>, "Qc")},
           linear |-> Observations \cup {I("KalmanFilterObservation", <<"S", "M", "T">>, ""), I("KalmanFilterObservationCorrectFilter", <<"S", "T">>, ""),
                 I("KalmanFilterObservationTransformation", <<"S", "M", "T">>, ""), I("KalmanFilterObservationTransformationMut", <<"S", "M", "T">>, "H")},
           nonlinear |-> Observations \cup {I("ExtendedKalmanFilterObservation", <<"S", "M", "T">>, ""),
                 I("KalmanFilterNonlinearObservationCorrectFilter", <<"S", "M", "T">>, ""),
                 I("ExtendedKalmanFilterObservationTransformation", <<"S", "M", "T">>, ""),
                 I("ExtendedKalmanFilterObservationTransformationMut", <<"S", "M", "T">>, "H")}]
\* a single role of the model may be constant; the interface is asked for with other sizes or another scalar
Sized == {<<2, 3, 4>>, <<3, 3, 4>>, <<2, 2, 4>>, <<2, 3, 3>>, <<4, 3, 2>>}
InterfacePrograms ==
    UNION {UNION {{[k |-> "interface", kind |-> kind, const |-> const, name |-> i.name, n |-> [j \in {a \in {"S", "C", "M"} : \E q \in DOMAIN i.par : i.par[q] = a} |-> Count(n, j)], t |-> t] :
                      n \in Sized, t \in (IF "T" \in {i.par[q] : q \in DOMAIN i.par} THEN Floats ELSE {"f32"}),
                      const \in ({""} \cup {r \in Constant : \E q \in DOMAIN Slots[kind] : Slots[kind][q] = r}) \ (IF i.name = "KalmanFilterControl" THEN {"Qc"} ELSE {})}
                  : i \in Offers[kind]} : kind \in Kinds}
InterfaceWell(p) == /\ \A j \in DOMAIN p.n : p.n[j] = Count(<<2, 3, 4>>, j)
                    /\ p.t = "f32"
                    /\ LET i == CHOOSE i \in Offers[p.kind] : i.name = p.name IN i.needs = "" \/ i.needs # p.const

Programs == RolePrograms \cup StoragePrograms \cup BuildPrograms \cup CallPrograms \cup ApplyPrograms
            \cup Accesses \cup Op3Programs \cup Op2Programs \cup Op1Programs
            \cup FromPrograms \cup BorrowPrograms \cup AutoPrograms \cup InterfacePrograms

WellTyped(p) == CASE p.k = "role"    -> Serves(p.buf, p.as)
                  [] p.k = "storage" -> Fits(p.buf, p.data)
                  [] p.k = "build"   -> Serves(p.buf, Slot(Slots[p.kind][p.slot], p.n, p.t))
                  [] p.k = "call"    -> CallsWell(p)
                  [] p.k = "apply"   -> AppliesWell(p)
                  [] p.k = "access"  -> AccessWell(p)
                  [] p.k = "op3"     -> Op3Well(p)
                  [] p.k = "op2"     -> Op2Well(p)
                  [] p.k = "op1"     -> Op1Well(p)
                  [] p.k = "from"    -> FromWell(p)
                  [] p.k = "borrow"  -> BorrowWell(p)
                  [] p.k = "auto"    -> AutoWell(p)
                  [] p.k = "interface" -> InterfaceWell(p)
=============================================================================
