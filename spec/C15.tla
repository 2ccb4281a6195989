-------------------------------- MODULE C15 --------------------------------
(* Creep tide model in coplanar systems, alone and beside bodies with other     *)
(* models.                                                                      *)
EXTENDS TraceBase, Tides
Tol == R("1e-7")
OnTides(r) == Cfg(r).effects.tides /\ HasCentral(Cfg(r).bodies, "tides")
OnFlat(r) == Cfg(r).effects.flat /\ HasCentral(Cfg(r).bodies, "flat")
AccAt(r, b, i) == LET c == Cfg(r).bodies IN
    VAdd(IF OnTides(r) THEN LET h == Central(c, "tides") IN PairAccOf(b, h, TideOrbiting(c), LAMBDA j : TideForce(c, b, h, j), i) ELSE Vec0,
         IF OnFlat(r) THEN LET h == Central(c, "flat") IN PairAccOf(b, h, RotOrbiting(c), LAMBDA j : RotForce(c, b, h, j), i) ELSE Vec0)
AccScaleAt(r, b, i) == LET c == Cfg(r).bodies IN
    (IF OnTides(r) THEN LET h == Central(c, "tides") IN PairAccScale(b, h, TideOrbiting(c), LAMBDA j : TideForceScale(c, b, h, j), i) ELSE Zero)
    (+) (IF OnFlat(r) THEN LET h == Central(c, "flat") IN PairAccScale(b, h, RotOrbiting(c), LAMBDA j : RotForceScale(c, b, h, j), i) ELSE Zero)
TorAt(r, b, i) == LET c == Cfg(r).bodies IN
    VAdd(IF OnTides(r) THEN TidesTorque(c, b, Central(c, "tides"), i) ELSE Vec0, IF OnFlat(r) THEN RotTorque(c, b, Central(c, "flat"), i) ELSE Vec0)
TorScaleAt(r, b, i) == LET c == Cfg(r).bodies IN
    (IF OnTides(r) THEN TidesTorqueScale(c, b, Central(c, "tides"), i) ELSE Zero) (+) (IF OnFlat(r) THEN RotTorqueScale(c, b, Central(c, "flat"), i) ELSE Zero)
Clear(r, b) == LET c == Cfg(r).bodies IN
    /\ OnTides(r) => LET h == Central(c, "tides") IN \A i \in 1..Len(c) : c[i].tides.role = "orbiting" => CreepClear(c, b, h, i, "tides")
    /\ OnFlat(r) => LET h == Central(c, "flat") IN \A i \in 1..Len(c) : c[i].flat.role = "orbiting" => CreepClear(c, b, h, i, "flat")
(* angular momentum: with only orbiting creeping bodies, spins gain what orbits lose *)
OwnBalance(r, b) == LET c == Cfg(r).bodies  h == Central(c, "tides") IN
    \A i \in 1..Len(b) : CreepModel(c, i, "tides") /\ i # h /\ ~OnFlat(r) =>
        VClose(VAdd(b[i].dL, VScale(b[i].m, Cross(RelX(b, i, h), b[i].ad))), Vec0, TidesTorqueScale(c, b, h, i), R("1e-9"))
EffectsOk(r, k) ==
    LET p == Pre(r, k).b  b == Post(r, k).b  acc == Ev(r)[k].args[4]  tor == Ev(r)[k].args[3] IN
    /\ Chk(r, k, "state untouched", \A i \in 1..Len(p) : p[i].x = b[i].x /\ p[i].v = b[i].v /\ p[i].L = b[i].L)
    /\ Clear(r, b) =>
       /\ acc => Chk(r, k, "creep: acceleration", \A i \in 1..Len(b) : VClose(b[i].ad, AccAt(r, b, i), AccScaleAt(r, b, i), Tol))
       /\ tor => Chk(r, k, "creep: torque", \A i \in 1..Len(b) : VClose(b[i].dL, TorAt(r, b, i), TorScaleAt(r, b, i), Tol))
       /\ acc => Chk(r, k, "creep: momentum conserved", VClose(SumOverV(All(b), LAMBDA i : VScale(b[i].m, b[i].ad)), Vec0, SumOver(All(b), LAMBDA i : b[i].m (\X) Norm(b[i].ad)), R("1e-12")))
       /\ (acc /\ tor /\ OnTides(r)) => Chk(r, k, "creep: spin gains what the orbit loses", OwnBalance(r, b))
Allowed(r, k) ==
    LET e == Ev(r)[k] IN
    /\ Chk(r, k, "no failure", e.res = "ok")
    /\ CASE e.op = "effects" -> EffectsOk(r, k)
         [] OTHER -> TRUE
Next == Walk(Allowed)
=============================================================================
