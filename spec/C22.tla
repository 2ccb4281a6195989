-------------------------------- MODULE C22 --------------------------------
(* WHFast: Wisdom-Holman splitting in three coordinate systems. *)
EXTENDS Steps
(* the step against the map; older: see Dynamics *)
Judge(r, k, older) ==
    LET S == TLCEval(Sys(r))  p == Pre(r, k).b  q == Post(r, k).b  n == Len(p)
        t == Ev(r)[k - 1].it.t  h == Ev(r)[k - 1].it.dt
        w == TLCEval(WHFastStep(S, p, t, h, Coord(r), older))  m == w.b
        M == MassSum(p)
        vb == SumOver(All(p), LAMBDA j : (p[j].m (/) M) (\X) (Norm(p[j].v) (+) Norm(m[j].v)))
        xb == SumOver(All(p), LAMBDA j : (p[j].m (/) M) (\X) (Norm(p[j].x) (+) Norm(m[j].x)))
        ev == R(Cfg(r).tol)
        soft == h (\X) R("2e-12") (\X) w.soft
        dv(i) == (ev (\X) (Norm(p[i].v) (+) Norm(m[i].v) (+) vb)) (+) (h (\X) w.ea[i]) (+) soft
        dx(i) == (ev (\X) (Norm(p[i].x) (+) Norm(m[i].x) (+) xb (+) (h (\X) (Norm(p[i].v) (+) vb)))) (+) (h (\X) (h (\X) w.ea[i])) (+) (h (\X) soft)
        dl(i) == (R("1e-15") (\X) LTot(p)) (+) (h (\X) w.eq[i])
    IN [time |-> Close(Ev(r)[k].it.t, t (+) h, Abs(t) (+) h, R("8.0") (\X) Eps) /\ Ev(r)[k].it.dt = h,
        masses |-> \A i \in 1..n : q[i].m = p[i].m,
        position |-> \A i \in 1..n : VNear(q[i].x, m[i].x, dx(i)),
        velocity |-> \A i \in 1..n : VNear(q[i].v, m[i].v, dv(i)),
        spin |-> \A i \in 1..n : VNear(q[i].L, m[i].L, dl(i)),
        centre |-> NoEffects(S) =>
              /\ VNear(CoM(q, LAMBDA j : q[j].x), VAdd(CoM(p, LAMBDA j : p[j].x), VScale(h, CoM(p, LAMBDA j : p[j].v))), (ev (\X) xb) (+) (h (\X) ev (\X) vb))
              /\ VNear(CoM(q, LAMBDA j : q[j].v), CoM(p, LAMBDA j : p[j].v), ev (\X) vb)]
Good(f) == f.time /\ f.masses /\ f.position /\ f.velocity /\ f.spin /\ f.centre
StepOk(r, k) ==
    LET f == TLCEval(Judge(r, k, FALSE))
        gr == LET S == Sys(r) IN OnGR(S) /\ GRImpl(S.c) # "kidder"
        g == TLCEval(IF Good(f) \/ ~gr THEN f ELSE Judge(r, k, TRUE))
    IN /\ Note(r, k, "whfast: relativity uses the accelerations of the current positions", Good(f) \/ ~Good(g))
       /\ Chk(r, k, "whfast: time advances by one step", g.time)
       /\ Chk(r, k, "whfast: masses", g.masses)
       /\ Chk(r, k, "whfast: position", g.position)
       /\ Chk(r, k, "whfast: velocity", g.velocity)
       /\ Chk(r, k, "whfast: spin angular momentum", g.spin)
       /\ Chk(r, k, "whfast: centre of mass moves uniformly", g.centre)
(* two bodies alone: the exact two-body motion, whatever the step *)
TwoBodyOk(r, k) ==
    LET p == Pre(r, k).b  q == Post(r, k).b  h == Ev(r)[k - 1].it.dt  ev == R("4.0") (\X) R(Cfg(r).tol)
        d == TLCEval(Drift(G (\X) MassSum(p), RelX(p, 2, 1), RelV(p, 2, 1), h))
    IN Chk(r, k, "whfast: two bodies are solved exactly",
           /\ VNear(RelX(q, 2, 1), d.x, ev (\X) (Norm(d.x) (+) Dist(p, 1, 2) (+) (h (\X) Norm(RelV(p, 2, 1)))))
           /\ VNear(RelV(q, 2, 1), d.v, ev (\X) (Norm(d.v) (+) Norm(RelV(p, 2, 1)))))
Allowed(r, k) ==
    LET e == Ev(r)[k] IN
    /\ Chk(r, k, "no failure", e.res = "ok")
    /\ CASE e.op = "iterate" -> (Clear(Sys(r), Pre(r, k).b) => StepOk(r, k)) /\ ((Len(Pre(r, k).b) = 2 /\ NoEffects(Sys(r)) /\ Coord(r) # "democratic") => TwoBodyOk(r, k))
         [] OTHER -> TRUE
Next == Walk(Allowed)
=============================================================================
