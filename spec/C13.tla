-------------------------------- MODULE C13 --------------------------------
(* Constant time lag tides: force, torque, dissipation, conservation. *)
EXTENDS TraceBase, Effects
Tol == R("1e-9")

EffectsOk(r, k) ==
    LET b == Post(r, k).b  c == Cfg(r).bodies  h == Central(c, "tides")  orb == CTLOrbiting(c)
        F(i) == CTLForce(c, b, h, i)  S(i) == CTLForceScale(c, b, h, i)
        acc == Ev(r)[k].args[4]  tor == Ev(r)[k].args[3]
        Lorb == SumOverV(All(b), LAMBDA i : VScale(b[i].m, Cross(b[i].x, b[i].ad)))
        Lspin == SumOverV(All(b), LAMBDA i : b[i].dL)
        lsc == SumOver(orb, LAMBDA i : S(i) (\X) Norm(RelX(b, i, h))) (+) (SumOver(orb, S) (\X) MaxR([i \in 1..Len(b) |-> Norm(b[i].x)]))
    IN (\A n \in 1..Len(orb) : RegimeClear(c, b, h, orb[n]) /\ RegimeClear(c, b, orb[n], h)) =>
       /\ acc => Chk(r, k, "ctl: acceleration", \A i \in 1..Len(b) : VClose(b[i].ad, PairAccOf(b, h, orb, F, i), PairAccScale(b, h, orb, S, i), Tol))
       /\ tor => Chk(r, k, "ctl: torque", \A i \in 1..Len(b) : c[i].tides.model = "creep" \/ VClose(b[i].dL, CTLTorque(c, b, h, i), CTLTorqueScale(c, b, h, i), Tol))
       /\ acc => Chk(r, k, "ctl: momentum conserved", VClose(SumOverV(All(b), LAMBDA i : VScale(b[i].m, b[i].ad)), Vec0, SumOver(orb, S), Tol))
       /\ (acc /\ tor /\ c[h].tides.model = "ctl") =>
              Chk(r, k, "ctl: angular momentum conserved", VClose(VAdd(Lorb, Lspin), Vec0, lsc, Tol))

(* energy loss of the state of the last calculation *)
DenergyOk(r, k) ==
    LET b == Post(r, k).b  c == Cfg(r).bodies  h == Central(c, "tides")  orb == CTLOrbiting(c) IN
    Chk(r, k, "ctl: energy loss", \A n \in 1..Len(orb) : LET i == orb[n] IN
        RegimeClear(c, b, i, h) => Close(b[i].de, CTLEnergyLoss(c, b, h, i), CTLEnergyLossScale(c, b, h, i), Tol))

(* a synchronous, circular, zero-obliquity pair feels no tidal torque *)
SyncOk(r, k) == LET b == Post(r, k).b IN
    Chk(r, k, "ctl: synchronous circular pair without torque",
        \A i \in 1..Len(b) : VClose(b[i].dL, Vec0, CTLTorqueScale(Cfg(r).bodies, b, Central(Cfg(r).bodies, "tides"), i), R("1e-7")))

LagOk(r, k) == LET b == Post(r, k).b IN
    Chk(r, k, "ctl: lag only for dynamical tides", \A i \in 1..Len(b) : DynamicalTideModels(Cfg(r).bodies[i].evol) \/ b[i].lag = Zero)

Allowed(r, k) ==
    LET e == Ev(r)[k] IN
    /\ Chk(r, k, "no failure", e.res = "ok")
    /\ CASE e.op = "effects" -> EffectsOk(r, k) /\ LagOk(r, k) /\ (Cfg(r).sync => SyncOk(r, k))
         [] e.op = "denergy" -> DenergyOk(r, k)
         [] OTHER -> TRUE
Next == Walk(Allowed)
=============================================================================
