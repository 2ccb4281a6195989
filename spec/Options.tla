------------------------------ MODULE Options ------------------------------
(* Run-time options: what a new history period, recovery period or time limit *)
(* does to a stored simulation, and when a run ends.  AcceptLimit/NewLimit/    *)
(* NewPeriod are the rules that recorded executions of the real code are       *)
(* validated against (C04); the model below applies them in every order over   *)
(* small integer times, together with steps and resumes, and TLC checks what   *)
(* the property promises.  Every sequence of operations is also emitted, and a  *)
(* sample of them is replayed into the code.                                    *)
EXTENDS Session

(* s: integrator state, tl: stored limit, x: option (<= 0: not given), ends: last tabulated times of the *)
(* evolving bodies (empty when evolution is not considered)                                             *)
Given(x) == Zero \prec x
AcceptLimit(s, tl, x, ends) ==
    \/ ~Given(x) \/ RealEq(x, tl)
    \/ IF tl \prec x THEN \A i \in 1..Len(ends) : x \preceq ends[i] ELSE s.t \preceq x
NewLimit(tl, x) == IF Given(x) THEN x ELSE tl
NewPeriod(p, x) == IF Given(x) THEN x ELSE p

CONSTANTS DT, MaxOps, Emit
VARIABLES s, tl, tl0, ends, ops, ret, over
ovars == <<s, tl, tl0, ends, ops, ret, over, run, pos>>
I(n) == OfInt(n)
N(x) == ToInt(x)
OInit ==
    /\ run = 0 /\ pos = 0 /\ ops = <<>> /\ ret = "go" /\ over = FALSE
    /\ tl \in {I(3), I(7)} /\ ends \in {<<>>, <<I(8)>>, <<I(8), I(5)>>}
    /\ \A i \in 1..Len(ends) : tl \preceq ends[i]
    /\ tl0 = tl
    /\ s = [kind |-> "leapfrog", t |-> Zero, dt |-> I(DT), lh |-> I(-1), lr |-> I(-1), hp |-> I(2), rp |-> I(3), nh |-> 0]
OStep == /\ ret # "done"
         /\ LET n == [s EXCEPT !.t = @ (+) s.dt, !.lh = NextLh(s), !.nh = @ + Records(s)] q == Ret(s, n, tl) IN
            /\ s' = (IF q = "snap" THEN [n EXCEPT !.lr = n.t] ELSE n)
            /\ ret' = q /\ over' = (tl \prec n.t)
         /\ ops' = Append(ops, <<"step", 0, 0>>) /\ UNCHANGED <<tl, tl0, ends, run, pos>>
OLimit == \E x \in {-1, 0, 2, 4, 6, 9} :
         /\ ops' = Append(ops, <<"limit", x, 0>>)
         /\ tl' = (IF AcceptLimit(s, tl, I(x), ends) THEN NewLimit(tl, I(x)) ELSE tl)
         /\ ret' = "go" /\ UNCHANGED <<s, tl0, ends, over, run, pos>>
OPeriods == \E x \in {-1, 1, 3} : \E y \in {0, 2} :
         /\ ops' = Append(ops, <<"periods", x, y>>)
         /\ s' = [s EXCEPT !.hp = NewPeriod(@, I(x)), !.rp = NewPeriod(@, I(y))]
         /\ ret' = "go" /\ UNCHANGED <<tl, tl0, ends, over, run, pos>>
ONext == /\ Len(ops) < MaxOps /\ (OStep \/ OLimit \/ OPeriods)
         /\ (Emit /\ Len(ops) + 1 = MaxOps) => PrintT("OPS " \o ToString(<<N(tl0), [i \in 1..Len(ends) |-> N(ends[i])], ops'>>))
(* ------------------------------ guarantees ------------------------------ *)
(* a limit in force covers the tables and, once a step fitted, the time reached *)
WithinTables == \A i \in 1..Len(ends) : tl \preceq ends[i]
Positive == Zero \prec tl /\ Zero \prec s.hp /\ Zero \prec s.rp
(* only a first step after (re)starting can pass the limit *)
NoOvershoot == over => ops[Len(ops)][1] # "step" \/ Len(ops) = 1 \/ ops[Len(ops) - 1][1] # "step" \/ ret = "done"
Monotone == s.nh <= Len(ops)
=============================================================================
