------------------------------ MODULE Listing ------------------------------
(* The same bodies listed in different orders, or some of them left out, and     *)
(* the same physical state visited again: when two observations of a run are to   *)
(* agree.  Bodies are numbered as in the configuration; the last "new" says which  *)
(* are listed and in which order.                                                  *)
EXTENDS TraceBase, Effects

LastOp(r, k, op) == LET s == {j \in 1..(k - 1) : Ev(r)[j].op = op} IN IF s = {} THEN 0 ELSE CHOOSE j \in s : \A q \in s : q <= j
NewArg(r, k) == Ev(r)[LastOp(r, k, "new")].args[1]
Order(r, k) == [q \in 1..Len(NewArg(r, k).perm) |-> NewArg(r, k).perm[q] + 1]
Ids(r, k) == {Order(r, k)[q] : q \in 1..Len(Order(r, k))}
At(o, i) == CHOOSE q \in 1..Len(o) : o[q] = i
(* bodies as observed after event k, by number *)
(* (after a calculation that ended in a panic: as they were before it) *)
Known(r, k) == CHOOSE j \in 1..k : Ev(r)[j].res = "ok" /\ \A q \in (j + 1)..k : Ev(r)[q].res # "ok"
ById(r, k) == LET o == Order(r, k)  b == Post(r, Known(r, k)).b IN [i \in {o[q] : q \in 1..Len(o)} |-> b[At(o, i)]]
SameBody(p, q) == p.x = q.x /\ p.v = q.v /\ p.L = q.L /\ p.m = q.m
SameState(A, B) == \A i \in DOMAIN A : i \in DOMAIN B /\ SameBody(A[i], B[i])

(* the body takes no part in any effect that is switched on *)
On(r, e) == Cfg(r).effects[e]
Idle(r, i) == LET q == Cfg(r).bodies[i] IN
    /\ On(r, "tides") => q.tides.role = "none"
    /\ On(r, "flat") => q.flat.role = "none"
    /\ On(r, "gr") => q.gr.role = "none"
    /\ On(r, "disk") => q.disk.role = "none"
    /\ On(r, "wind") => ~q.wind.on
    /\ On(r, "evol") => q.evol.type = "none"
GRKind(r) == LET c == Cfg(r).bodies IN IF On(r, "gr") /\ HasCentral(c, "gr") THEN c[Central(c, "gr")].gr.impl ELSE "none"
Host(r) == MostMassive(Cfg(r).bodies)
(* order of the bodies other than the most massive one *)
Rest(r, k) == SelectSeq(Order(r, k), LAMBDA i : i # Host(r))
IsReadOnly(op) == op \in {"energy", "record", "roche", "denergy", "torques", "gravity", "helio", "effects", "spin", "wreck"}
(* Anderson and Newhall start from the gravitational acceleration found just before *)
GravityKnown(r, k) == GRKind(r) \in {"anderson", "newhall"} => LET g == LastOp(r, k, "gravity") IN g > 0 /\ Ev(r)[g].res = "ok"
VFin(v) == IsFinite(v[1]) /\ IsFinite(v[2]) /\ IsFinite(v[3])
(* number of integrator steps since the simulation was set up *)
StepNo(r, k) == LET s == LastOp(r, k, "integ") IN Len(SelectSeq([j \in 1..(k - s) |-> Ev(r)[s + j].op], LAMBDA o : o = "iterate"))
Setup(r, k) == Ev(r)[LastOp(r, k, "integ")].args[1]
=============================================================================
