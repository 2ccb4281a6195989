------------------------------ MODULE Session ------------------------------
(* A simulation session: what a run may do between two steps, when it takes   *)
(* history records and recovery snapshots, when it ends.  The operators work  *)
(* on the observed integrator state `it` of a trace event:                    *)
(*   kind, t (time), dt (step), lh (last scheduled history time, <0 before    *)
(*   the first record), lr (time of last recovery snapshot), hp, rp           *)
(*   (periods), nh (records counted), fp (fingerprint of the whole serialised *)
(*   simulation), pfp (fingerprint of the physical state).                    *)
EXTENDS TraceBase, FiniteSets

It(r, k) == Ev(r)[k].it
Op(r, k) == Ev(r)[k].op
Out(r, k) == Ev(r)[k].out
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

(* ---- schedule ---- *)
First(s) == s.lh \prec Zero
RecordDue(s) == First(s) \/ (s.lh (+) s.hp) \preceq s.t
SnapDue(s) == First(s) \/ (s.lr (+) s.rp) \preceq s.t
NextLh(s) == IF First(s) THEN Zero
             ELSE IF ~RecordDue(s) THEN s.lh
             ELSE IF s.kind = "ias15" THEN s.t ELSE s.lh (+) s.hp
Records(s) == IF RecordDue(s) THEN 1 ELSE 0
(* `s` before and `n` after one step with time limit tl *)
Ret(s, n, tl) == IF tl \prec (n.t (+) n.dt) THEN "done" ELSE IF SnapDue(s) THEN "snap" ELSE "go"

(* latest event before k that satisfies P *)
Last(r, k, P(_)) == LET S == {j \in 1..(k - 1) : P(j)} IN IF S = {} THEN 0 ELSE MaxOf(S)
(* steps made since the simulation of event k was created: iterate events     *)
(* (one step each) since the last "new", a restore going back to its save     *)
RECURSIVE Steps(_, _)
SaveOf(r, k) == Last(r, k, LAMBDA j : Op(r, j) = "save" /\ Ev(r)[j].args[1] = Ev(r)[k].args[1])
Steps(r, k) == CASE k = 0 -> 0
                 [] Op(r, k) = "new" -> 0
                 [] Op(r, k) = "restore" -> Steps(r, SaveOf(r, k))
                 [] Op(r, k) = "iterate" -> Steps(r, k - 1) + Out(r, k).steps
                 [] OTHER -> Steps(r, k - 1)
=============================================================================
