------------------------------- MODULE Steps -------------------------------
(* Steps of the real integrators against the maps of Dynamics.                 *)
EXTENDS TraceBase, Dynamics
Sys(r) == LET s == [c |-> Cfg(r).bodies, eff |-> Ev(r)[1].st.eff, raw |-> Cfg(r).raw, aux |-> Cfg(r).aux, t0 |-> Cfg(r).t0] IN
    [c |-> s.c, eff |-> s.eff, tab |-> TLCEval(Tables(s)), old |-> <<>>, mode |-> "none"]
(* regime of the dynamical tide, a comparison of rounded numbers, must be clear *)
Clear(S, b) == ~OnTides(S) \/ LET h == Central(S.c, "tides") IN
    \A i \in 1..Len(b) : i = h \/ (RegimeClear(S.c, b, i, h) /\ RegimeClear(S.c, b, h, i))
(* no switch of regime (dynamical tide, wind saturation, disk) between two states b at t and d at u *)
Side(u, w) == (u \prec w)
SameRegime(S, b, t, d, u) ==
    /\ ~OnTides(S) \/ LET h == Central(S.c, "tides")
                          dyn(q, i, j) == LET w == SpinRate(q[i]) n == MeanMotion(G (\X) (q[i].m (+) q[j].m), RelX(q, i, j), RelV(q, i, j)) IN Side(Abs(w (-) n), w) IN
         \A i \in 1..Len(b) : i = h \/ ((DynamicalTideModels(S.c[i].evol) => dyn(b, i, h) = dyn(d, i, h)) /\ (DynamicalTideModels(S.c[h].evol) => dyn(b, h, i) = dyn(d, h, i)))
    /\ S.eff.wind => \A i \in 1..Len(b) : S.c[i].wind.on => Side(SpinRate(b[i]), S.c[i].wind.sat) = Side(SpinRate(d[i]), S.c[i].wind.sat)
    /\ OnDisk(S) => LET h == Central(S.c, "disk") IN \A i \in 1..Len(b) : i = h \/
        ( /\ Side(Dist(b, i, h), S.c[h].disk.inner) = Side(Dist(d, i, h), S.c[h].disk.inner)
          /\ Side(DiskMassRatio(S.c[h].disk, b, h, i, t), One) = Side(DiskMassRatio(S.c[h].disk, d, h, i, u), One) )
Eps == R("2.3e-16")
VNear(u, w, tol) == VClose(u, w, tol, One)
LTot(b) == SumOver(All(b), LAMBDA i : Norm(b[i].L))
VMax(b) == MaxR([i \in 1..Len(b) |-> Norm(b[i].v)])
XMax(b) == MaxR([i \in 1..Len(b) |-> Norm(b[i].x)])
Coord(r) == LET k == CHOOSE j \in 1..Len(Ev(r)) : Ev(r)[j].op = "integ" IN Ev(r)[k].args[1].coord
Kind(r) == LET k == CHOOSE j \in 1..Len(Ev(r)) : Ev(r)[j].op = "integ" IN Ev(r)[k].args[1].kind
=============================================================================
