-------------------------------- MODULE C18 --------------------------------
(* Stellar wind braking and disk migration. *)
EXTENDS TraceBase, Effects
Tol == R("1e-9")

Tiny == R("1e-270")      \* below this the disk has dissolved and binary64 loses digits
EffectsOk(r, k) ==
    LET b == Post(r, k).b  c == Cfg(r).bodies  e == Post(r, k).eff  t == Ev(r)[k].args[1]
        acc == Ev(r)[k].args[4]  tor == Ev(r)[k].args[3]
        hd == IF e.disk THEN Central(c, "disk") ELSE 0
        orb == OrbitingSeq(c, "disk")
        F(i) == DiskForce(c[hd].disk, b, hd, i, t)  S(i) == DiskForceScale(c[hd].disk, b, hd, i, t)
    IN /\ (tor /\ e.wind) => Chk(r, k, "wind: torque", \A i \in 1..Len(b) :
                LET T == WindTorque(c, b, i) IN VClose(b[i].dL, T, Norm(T), Tol))
       /\ (acc /\ e.disk) => /\ Chk(r, k, "disk: acceleration", \A i \in 1..Len(b) : VClose(b[i].ad, PairAccOf(b, hd, orb, F, i), Tiny (+) PairAccScale(b, hd, orb, S, i), Tol))
                             /\ Chk(r, k, "disk: nothing within the inner edge", \A n \in 1..Len(orb) : LET i == orb[n] IN
                                    (Dist(b, i, hd) \preceq c[hd].disk.inner) => VZero(b[i].ad))
                             /\ Chk(r, k, "disk: momentum conserved", VClose(SumOverV(All(b), LAMBDA i : VScale(b[i].m, b[i].ad)), Vec0, Tiny (+) SumOver(orb, S), Tol))
                             /\ Chk(r, k, "disk: migration timescale", \A n \in 1..Len(orb) : LET i == orb[n] q == DiskRate(c[hd].disk, b, hd, i, t) IN
                                    (q \prec Tiny) \/ Close(One (/) b[i].mig, q, q, Tol))
       /\ (acc /\ ~e.disk) => Chk(r, k, "wind: no acceleration", \A i \in 1..Len(b) : VZero(b[i].ad))
       /\ (tor /\ ~e.wind) => Chk(r, k, "disk: no torque", \A i \in 1..Len(b) : VZero(b[i].dL))

Allowed(r, k) ==
    LET e == Ev(r)[k] IN
    /\ Chk(r, k, "no failure", e.res = "ok")
    /\ CASE e.op = "effects" -> EffectsOk(r, k)
         [] OTHER -> TRUE
Next == Walk(Allowed)
=============================================================================
