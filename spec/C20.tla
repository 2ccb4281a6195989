-------------------------------- MODULE C20 --------------------------------
(* Spin and spin angular momentum: consistent with the moment of inertia, and    *)
(* changed by torques only.                                                      *)
EXTENDS Steps
Tiny == R("1e-13")
(* bodies that a torque may act on *)
Twisted(S, i) ==
    \/ OnTides(S) /\ S.c[i].tides.role # "none"
    \/ OnFlat(S) /\ S.c[i].flat.role # "none"
    \/ S.eff.wind /\ S.c[i].wind.on
    \/ S.eff.gr /\ S.c[i].gr.role # "none"
    \/ S.eff.flat /\ ~OnTides(S) /\ S.c[i].tides.role # "none"
SameL(b, d) == \A i \in 1..Len(b) : b[i].L = d[i].L
(* the spin calculation: radius and gyration follow the tables, angular momentum stays *)
SpinOk(r, k) ==
    LET S == TLCEval(Sys(r))  p == Pre(r, k).b  q == Post(r, k).b  t == Ev(r)[k].args[1]  n == Len(p)
        m == TLCEval(IF Ev(r)[k].args[2] THEN AtTime(S, p, t) ELSE p)
    IN /\ Chk(r, k, "angular momentum is kept when the body changes", SameL(p, q))
       /\ Chk(r, k, "radius follows the evolution", \A i \in 1..n : Close(q[i].r, m[i].r, m[i].r, R("1e-9")))
       /\ Chk(r, k, "gyration follows the evolution", \A i \in 1..n : Close(q[i].rg2, m[i].rg2, m[i].rg2, R("1e-9")))
       /\ Chk(r, k, "moment of inertia", \A i \in 1..n : Close(q[i].I, Inertia(q[i]), Inertia(q[i]), Tiny))
       /\ Chk(r, k, "spin is angular momentum over inertia", \A i \in 1..n :
              VClose(q[i].s, Spin(q[i]), SpinRate(q[i]), Tiny) /\ Close(q[i].s2, Norm2(Spin(q[i])), Norm2(Spin(q[i])), Tiny))
(* a new universe: the spin declared is the spin got *)
NewOk(r, k) ==
    LET q == Post(r, k).b  c == Cfg(r).bodies IN
    Chk(r, k, "declared spin gives the angular momentum", \A i \in 1..Len(q) :
        LET I == Inertia(q[i]) IN       \* with the size the body has at the initial age
        /\ c[i].evol.type = "none" => Close(I, c[i].m (\X) Sq(c[i].rg) (\X) Sq(c[i].r), I, Tiny)
        /\ VClose(q[i].s, c[i].s, Norm(c[i].s), Tiny)
        /\ VClose(q[i].L, VScale(I, c[i].s), I (\X) Norm(c[i].s), Tiny)
        /\ Close(q[i].I, I, I, Tiny))
EffectsOk(r, k) ==
    LET p == Pre(r, k).b  q == Post(r, k).b  S == TLCEval(Sys(r))  n == Len(p)  t == Ev(r)[k].args[1] IN
    /\ Chk(r, k, "calculating effects moves no angular momentum", SameL(p, q))
    /\ Chk(r, k, "no torque without an active effect", Ev(r)[k].args[3] => \A i \in 1..n : Twisted(S, i) \/ VZero(q[i].dL))
    /\ Chk(r, k, "torques add up", (Ev(r)[k].args[3] /\ Cfg(r).modelled /\ Clear(S, AtTime(S, q, t))) =>
           LET b == TLCEval(IF Ev(r)[k].args[2] THEN AtTime(S, p, t) ELSE p)  e == TLCEval(EffTor(S, b, t))  z == TLCEval(EffTorSize(S, b, t)) IN
           \A i \in 1..n : VNear(q[i].dL, e[i], R("1e-9") (\X) z[i]))
(* between two states at which the torques are known *)
StepOk(r, k) ==
    LET S == TLCEval(Sys(r))  p == Pre(r, k).b  q == Post(r, k).b  n == Len(p)
        t == Ev(r)[k - 1].it.t  h == Ev(r)[k].it.t (-) t
        known == k < Len(Ev(r)) /\ Ev(r)[k - 1].op = "torques" /\ Ev(r)[k + 1].op = "torques"
        a == Ev(r)[k - 1].out.q  z == Ev(r)[k + 1].out.q
    IN /\ Chk(r, k, "no torque, no change of angular momentum", \A i \in 1..n : Twisted(S, i) \/ p[i].L = q[i].L)
       /\ known => Chk(r, k, "angular momentum changes by the torques", \A i \in 1..n :
              LET mean == VScale(Half, VAdd(a[i], z[i])) IN
              VNear(VSub(q[i].L, p[i].L), VScale(h, mean),
                    (h (\X) ((R("0.1") (\X) Norm(mean)) (+) (R("1.5") (\X) Norm(VSub(z[i], a[i]))))) (+) (R("1e-15") (\X) LTot(p))))
Allowed(r, k) ==
    LET e == Ev(r)[k] IN
    /\ Chk(r, k, "no failure", e.res = "ok")
    /\ CASE e.op = "new" -> NewOk(r, k)
         [] e.op = "spin" -> SpinOk(r, k)
         [] e.op = "effects" -> EffectsOk(r, k)
         [] e.op = "iterate" -> StepOk(r, k)
         [] e.op \in {"torques", "iinit", "integ", "gravity", "helio"} -> Chk(r, k, "angular momentum is kept", SameL(Pre(r, k).b, Post(r, k).b))
         [] OTHER -> TRUE
Next == Walk(Allowed)
=============================================================================
