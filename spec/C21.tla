-------------------------------- MODULE C21 --------------------------------
(* LeapFrog: drift-kick-drift of the full equations of motion. *)
EXTENDS Steps
StepOk(r, k) ==
    LET S == TLCEval(Sys(r))  p == Pre(r, k).b  q == Post(r, k).b  n == Len(p)
        t == Ev(r)[k - 1].it.t  h == Ev(r)[k - 1].it.dt
        w == TLCEval(LeapFrogStep(S, p, t, h))  m == w.b
        ev == R("8.0") (\X) Eps
        dv(i) == (ev (\X) Norm(p[i].v)) (+) (h (\X) w.ea[i])
        dx(i) == (ev (\X) Norm(p[i].x)) (+) (h (\X) dv(i))
        dl(i) == (ev (\X) Norm(p[i].L)) (+) (h (\X) w.eq[i])
    IN /\ Chk(r, k, "leapfrog: time advances by one step", Close(Ev(r)[k].it.t, t (+) h, Abs(t) (+) h, ev) /\ Ev(r)[k].it.dt = h)
       /\ Chk(r, k, "leapfrog: masses", \A i \in 1..n : q[i].m = p[i].m)
       /\ Chk(r, k, "leapfrog: position", \A i \in 1..n : VNear(q[i].x, m[i].x, dx(i)))
       /\ Chk(r, k, "leapfrog: velocity", \A i \in 1..n : VNear(q[i].v, m[i].v, dv(i)))
       /\ Chk(r, k, "leapfrog: spin angular momentum", \A i \in 1..n : VNear(q[i].L, m[i].L, dl(i)))
Allowed(r, k) ==
    LET e == Ev(r)[k] IN
    /\ Chk(r, k, "no failure", e.res = "ok")
    /\ CASE e.op = "iterate" -> (Clear(Sys(r), Pre(r, k).b) => StepOk(r, k))
         [] OTHER -> TRUE
Next == Walk(Allowed)
=============================================================================
