-------------------------------- MODULE C14 --------------------------------
(* Spectral (Kaula) tides: force and torque of the expansion for bodies that     *)
(* rotate about the normal of the reference plane in which they orbit; and what   *)
(* holds for any orientation.                                                     *)
EXTENDS TraceBase, Tides
Tol == R("1e-7")
AccAt(r, b, i) == LET c == Cfg(r).bodies h == Central(c, "tides") IN PairAccOf(b, h, TideOrbiting(c), LAMBDA j : TideForce(c, b, h, j), i)
AccScaleAt(r, b, i) == LET c == Cfg(r).bodies h == Central(c, "tides") IN PairAccScale(b, h, TideOrbiting(c), LAMBDA j : TideForceScale(c, b, h, j), i)
Clear(r, b) == LET c == Cfg(r).bodies  h == Central(c, "tides") IN
    \A i \in 1..Len(c) : c[i].tides.role = "orbiting" => KaulaClear(c, b, h, i) /\ CreepClear(c, b, h, i, "tides")
Finite(b) == \A i \in 1..Len(b) : VFinite(b[i].ad) /\ VFinite(b[i].dL)
(* no phase shift at any frequency *)
Elastic(c, i) == \A j \in 1..Len(c[i].tides.im) : c[i].tides.im[j] = Zero
EffectsOk(r, k) ==
    LET p == Pre(r, k).b  b == Post(r, k).b  acc == Ev(r)[k].args[4]  tor == Ev(r)[k].args[3]
        c == Cfg(r).bodies  h == Central(c, "tides") IN
    /\ Chk(r, k, "state untouched", \A i \in 1..Len(p) : p[i].x = b[i].x /\ p[i].v = b[i].v /\ p[i].L = b[i].L)
    /\ Chk(r, k, "kaula: finite", Finite(b))
    /\ Clear(r, b) =>
       /\ acc => Chk(r, k, "kaula: acceleration", \A i \in 1..Len(b) : VClose(b[i].ad, AccAt(r, b, i), AccScaleAt(r, b, i), Tol))
       /\ tor => Chk(r, k, "kaula: torque", \A i \in 1..Len(b) : VClose(b[i].dL, TidesTorque(c, b, h, i), TidesTorqueScale(c, b, h, i), Tol))
    /\ acc => Chk(r, k, "kaula: momentum conserved", VClose(SumOverV(All(b), LAMBDA i : VScale(b[i].m, b[i].ad)), Vec0, SumOver(All(b), LAMBDA i : b[i].m (\X) Norm(b[i].ad)), R("1e-12")))
    /\ acc => Chk(r, k, "kaula: only bodies with tides are accelerated", \A i \in 1..Len(b) : c[i].tides.role = "none" => VZero(b[i].ad))
    /\ tor => Chk(r, k, "kaula: only bodies with tides are braked", \A i \in 1..Len(b) : c[i].tides.role = "none" => VZero(b[i].dL))
    /\ tor => Note(r, k, "kaula: no torque without dissipation, whatever the obliquity",
                   \A i \in 1..Len(b) : KaulaModel(c, i) /\ Elastic(c, i) => Norm(b[i].dL) \preceq (R("1e-9") (\X) KaulaTorqueScale(c, b, h, i)))
Allowed(r, k) ==
    LET e == Ev(r)[k] IN
    /\ Chk(r, k, "no failure", e.res = "ok")
    /\ CASE e.op = "effects" -> EffectsOk(r, k)
         [] OTHER -> TRUE
Next == Walk(Allowed)
=============================================================================
