-------------------------------- MODULE C16 --------------------------------
(* Rotational flattening, oblate spheroid model. *)
EXTENDS TraceBase, Effects
Tol == R("1e-9")

EffectsOk(r, k) ==
    LET b == Post(r, k).b  c == Cfg(r).bodies  h == Central(c, "flat")  orb == FlatOrbiting(c)
        F(i) == FlatForce(c, b, h, i)  S(i) == FlatForceScale(c, b, h, i)
        acc == Ev(r)[k].args[4]  tor == Ev(r)[k].args[3]
        Lorb == SumOverV(All(b), LAMBDA i : VScale(b[i].m, Cross(b[i].x, b[i].ad)))
        Lspin == SumOverV(All(b), LAMBDA i : b[i].dL)
        lsc == SumOver(orb, S) (\X) Two (\X) MaxR([i \in 1..Len(b) |-> Norm(b[i].x)])
    IN /\ acc => Chk(r, k, "flattening: acceleration", \A i \in 1..Len(b) : VClose(b[i].ad, PairAccOf(b, h, orb, F, i), PairAccScale(b, h, orb, S, i), Tol))
       /\ tor => Chk(r, k, "flattening: torque", \A i \in 1..Len(b) : VClose(b[i].dL, FlatTorque(c, b, h, i), FlatTorqueScale(c, b, h, i), Tol))
       /\ acc => Chk(r, k, "flattening: momentum conserved", VClose(SumOverV(All(b), LAMBDA i : VScale(b[i].m, b[i].ad)), Vec0, SumOver(orb, S), Tol))
       /\ (acc /\ tor) => Chk(r, k, "flattening: angular momentum conserved", VClose(VAdd(Lorb, Lspin), Vec0, lsc, Tol))

Allowed(r, k) ==
    LET e == Ev(r)[k] IN
    /\ Chk(r, k, "no failure", e.res = "ok")
    /\ CASE e.op = "effects" -> EffectsOk(r, k)
         [] OTHER -> TRUE
Next == Walk(Allowed)
=============================================================================
