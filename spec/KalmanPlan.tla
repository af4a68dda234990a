----------------------------- MODULE KalmanPlan -----------------------------
(* Which calls there are to replay.  What an implementation could wrongly    *)
(* carry over from one call to the next are left-overs: in the working       *)
(* buffers of a filter (from its last prediction), of a control or an        *)
(* observation (from its last use, by whom, and how it ended), and in the    *)
(* estimate itself.  This is an abstraction of the system to just that; the  *)
(* plans, one shortest sequence of calls for each transition of it, are      *)
(* replayed into the real code, and what is recorded is checked against      *)
(* KalmanTrace.                                                              *)
(* Two filters share a control and an observation.  "correct!" stands for a  *)
(* correction whose innovation covariance is unusable.                       *)
EXTENDS Sequences, FiniteSets, TLC

VARIABLES two,      \* the two filters and the shared objects
          plan,     \* the calls so far
          left,     \* filter -> left over from its last prediction
          est,      \* filter -> what its estimate comes from
          ctl,      \* left over in the control
          obs       \* left over in the observation
vars == <<two, plan, left, est, ctl, obs>>

Worlds == { [f |-> <<"f1", "f2">>, c |-> c, o |-> o, n |-> n] : c \in {"c1", "c2"}, o \in {"o1", "o2"}, n \in {""} }
     \cup { [f |-> <<"f1", "r1">>, c |-> "c1", o |-> "o1", n |-> ""], [f |-> <<"r1", "f2">>, c |-> "c2", o |-> "o2", n |-> ""] }
     \cup { [f |-> <<"e1", "e2">>, c |-> "", o |-> "", n |-> n] : n \in {"n1", "n2"} }
     \cup { [f |-> <<"e1", "r1">>, c |-> "", o |-> "", n |-> "n1"], [f |-> <<"r1", "e2">>, c |-> "", o |-> "", n |-> "n2"] }

Linear(f)   == f \in {"f1", "f2"}
Extended(f) == f \in {"e1", "e2"}
F == {two.f[1], two.f[2]}

Call(op, f, o) == plan' = plan \o " " \o op \o ":" \o f \o (IF o = "" THEN "" ELSE ":" \o o) /\ UNCHANGED two

Predicts(op, f) == /\ Call(op, f, "")
                   /\ left' = [left EXCEPT ![f] = op]
                   /\ est' = [est EXCEPT ![f] = "predicted"]
                   /\ UNCHANGED <<ctl, obs>>
Predict(f) == \/ Linear(f) /\ \E op \in {"predict", "tuned"} : Predicts(op, f)
              \/ Extended(f) /\ \E op \in {"npredict", "ntuned"} : Predicts(op, f)
Control(f) == /\ two.c # "" /\ Call("control", f, two.c)
              /\ est' = [est EXCEPT ![f] = "controlled"]
              /\ ctl' = f
              /\ UNCHANGED <<left, obs>>
Corrects(op, f, o) ==
    \/ /\ Call(op, f, o)
       /\ est' = [est EXCEPT ![f] = "corrected"]
       /\ obs' = <<f, "used">>
       /\ UNCHANGED <<left, ctl>>
    \/ /\ Call(op \o "!", f, o)
       /\ obs' = <<f, "refused">>
       /\ UNCHANGED <<left, est, ctl>>
Correct(f) == \/ two.o # "" /\ Corrects("correct", f, two.o)
              \/ two.n # "" /\ Corrects("ncorrect", f, two.n)

Init == /\ two \in Worlds
        /\ plan = ""
        /\ left = [f \in F |-> "nothing"]
        /\ est = [f \in F |-> "given"]
        /\ ctl = "nothing"
        /\ obs = <<"nothing">>
Next == \E f \in F : Predict(f) \/ Control(f) \/ Correct(f)
Spec == Init /\ [][Next]_vars

Abstract == <<two, left, est, ctl, obs>>
Emit == PrintT("PLAN" \o plan')
=============================================================================
