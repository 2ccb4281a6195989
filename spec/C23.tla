-------------------------------- MODULE C23 --------------------------------
(* IAS15: every accepted step solves the equations of motion to near machine    *)
(* precision, whatever the step sizes.                                          *)
EXTENDS Steps
StepOk(r, k) ==
    LET S == TLCEval(Sys(r))  p == Pre(r, k).b  q == Post(r, k).b  n == Len(p)
        t == Ev(r)[k - 1].it.t  h == Ev(r)[k].it.t (-) t
        m == TLCEval(Reference(S, p, t, h))
        b == TLCEval(AtTime(S, p, t))
        ea == TLCEval(AccRounding(S, b, t))  eq == TLCEval(TorRounding(S, b, t))
        lost == R("4e-16") (\X) Abs(Ev(r)[k].it.t)         \* the step as far as time resolves it
        ev == IF Ev(r)[k - 1].op = "iinit" THEN R("1e-8") ELSE R(Cfg(r).tol)     \* the first step starts without a prediction
        M == MassSum(p)
        ab(i) == Norm(TotalAcc(S, b, t)[i])
        vb == SumOver(All(p), LAMBDA j : (p[j].m (/) M) (\X) Norm(p[j].v))
        dv(i) == (ev (\X) (Norm(p[i].v) (+) vb)) (+) (h (\X) ea[i]) (+) (lost (\X) ab(i))
        dx(i) == (ev (\X) (Norm(p[i].x) (+) (h (\X) (Norm(p[i].v) (+) vb)))) (+) (h (\X) h (\X) ea[i]) (+) (lost (\X) Norm(p[i].v))
        dl(i) == (R("2e-14") (\X) Norm(p[i].L)) (+) (h (\X) R("10.0") (\X) eq[i]) (+) (lost (\X) Norm(EffTor(S, b, t)[i]))
        \* nothing switched in this step, nor in those that its prediction comes from
        smooth == \A j \in 2..k : (Ev(r)[j].op = "iterate" /\ j + 4 >= k) => SameRegime(S, AtTime(S, Pre(r, j).b, Ev(r)[j - 1].it.t), Ev(r)[j - 1].it.t, AtTime(S, Post(r, j).b, Ev(r)[j].it.t), Ev(r)[j].it.t)
    IN IF ~smooth THEN TRUE ELSE
       /\ Chk(r, k, "ias15: time advances", Zero \prec h)
       /\ Chk(r, k, "ias15: masses", \A i \in 1..n : q[i].m = p[i].m)
       /\ Chk(r, k, "ias15: position", \A i \in 1..n : VNear(q[i].x, m[i].x, dx(i)))
       /\ Chk(r, k, "ias15: velocity", \A i \in 1..n : VNear(q[i].v, m[i].v, dv(i)))
       /\ Chk(r, k, "ias15: spin angular momentum", \A i \in 1..n : VNear(q[i].L, m[i].L, dl(i)))
Allowed(r, k) ==
    LET e == Ev(r)[k] IN
    /\ Chk(r, k, "no failure", e.res = "ok")
    /\ CASE e.op = "iterate" -> (Clear(Sys(r), Pre(r, k).b) => StepOk(r, k))
         [] OTHER -> TRUE
Next == Walk(Allowed)
=============================================================================
