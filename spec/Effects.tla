------------------------------ MODULE Effects ------------------------------
(* Additional forces and torques.  b: bodies as observed (m, r, rg2, x, v, L,  *)
(* lag); c: bodies as declared (roles, models, parameters).  Everything is a   *)
(* function of these two, i.e. of the physical state and the declaration only. *)
EXTENDS Physics

(* ---- spin ---- *)
Inertia(q) == q.m (\X) q.rg2 (\X) Sq(q.r)
Spin(q) == VScale(One (/) Inertia(q), q.L)
SpinRate(q) == Norm(Spin(q))

(* ---- roles ---- *)
HasCentral(c, eff) == \E i \in 1..Len(c) : c[i][eff].role = "central"
Central(c, eff) == CHOOSE i \in 1..Len(c) : c[i][eff].role = "central"
OrbitingSeq(c, eff) == SelectSeq([j \in 1..Len(c) |-> j], LAMBDA j : c[j][eff].role = "orbiting")

(* A set of interactions with a host: F(i) is the force on orbiting body i; the  *)
(* host gets the opposite.  S(i) is the size of the terms summed in F(i).        *)
PairAccOf(b, h, orb, F(_), i) ==
    IF i = h THEN VScale(Opp(One (/) b[h].m), SumOverV(orb, F))
    ELSE IF \E k \in 1..Len(orb) : orb[k] = i THEN VScale(One (/) b[i].m, F(i)) ELSE Vec0
PairAccScale(b, h, orb, S(_), i) ==
    IF i = h THEN SumOver(orb, S) (/) b[h].m
    ELSE IF \E k \in 1..Len(orb) : orb[k] = i THEN S(i) (/) b[i].m ELSE Zero

(* ---- osculating orbit around the host ---- *)
MeanMotion(gm, x, v) ==
    LET a == One (/) ((Two (/) Norm(x)) (-) (Norm2(v) (/) gm)) IN Sqrt(gm (/) Cube(a))

(* ======================= constant time lag tides ======================= *)
(* Bolmont et al. 2015, equations 5-9; evolving bodies with a dynamical tide:   *)
(* Bolmont & Mathis 2016, equation 11.                                          *)
SunDynFreq2 == G (/) Cube(Rsun)
SmoothingRate == R("1.0e-5") (\X) Day
DynamicalTideModels(e) == e.type \in {"BolmontMathis2016", "GalletBolmont2017"} \/ (e.type = "LeconteChabrier2013" /\ e.diss)
(* dissipation of body i under the tide raised by j *)
SigmaCTL(c, b, i, j) ==
    IF c[i].tides.role = "none" \/ c[i].tides.model # "ctl" THEN Zero
    ELSE LET p == c[i].tides  base == p.scale (\X) p.diss IN
         IF ~DynamicalTideModels(c[i].evol) THEN base
         ELSE LET w == SpinRate(b[i])
                  n == MeanMotion(G (\X) (b[i].m (+) b[j].m), RelX(b, i, j), RelV(b, i, j))
                  f == Abs(w (-) n)
              IN IF f \prec w
                 THEN p.scale (\X) (((Two (\X) G) (/) (R("3.0") (\X) PowI(b[i].r, 5))) (\X) (b[i].lag (/) Max(f, SmoothingRate)) (+) p.diss)
                 ELSE base
(* the choice of regime is a comparison of rounded numbers: exclude ties *)
RegimeClear(c, b, i, j) ==
    ~DynamicalTideModels(c[i].evol) \/
    LET w == SpinRate(b[i])  n == MeanMotion(G (\X) (b[i].m (+) b[j].m), RelX(b, i, j), RelV(b, i, j)) f == Abs(w (-) n)
    IN R("1e-9") (\X) w \prec Abs(f (-) w)
LoveCTL(c, b, i) == IF c[i].tides.role # "none" /\ c[i].tides.model = "ctl" THEN b[i].k2 ELSE Zero

CTLParts(c, b, h, i) ==
    LET x == RelX(b, i, h)  v == RelV(b, i, h)  d == Norm(x)  vr == Dot(x, v) (/) d
        ss == SigmaCTL(c, b, h, i)  sp == SigmaCTL(c, b, i, h)
        d7 == PowI(d, 7)  d8 == PowI(d, 8)
        hs == Sq(b[i].m) (\X) PowI(b[h].r, 10) (\X) ss          \* m_p^2 R_*^10 sigma_*
        hp == Sq(b[h].m) (\X) PowI(b[i].r, 10) (\X) sp          \* m_*^2 R_p^10 sigma_p
        cons == ((R("-3.0") (\X) G) (/) d7) (\X) ((Sq(b[i].m) (\X) PowI(b[h].r, 5) (\X) LoveCTL(c, b, h))
                                                (+) (Sq(b[h].m) (\X) PowI(b[i].r, 5) (\X) LoveCTL(c, b, i)))
    IN [x |-> x, v |-> v, d |-> d, vr |-> vr,
        os |-> (R("4.5") (\X) hs) (/) d7, op |-> (R("4.5") (\X) hp) (/) d7,
        cons |-> cons,
        ds |-> ((R("-13.5") (\X) vr) (/) d8) (\X) hs, dp |-> ((R("-13.5") (\X) vr) (/) d8) (\X) hp]

(* velocity of the point below the other body minus its velocity: Omega x r - v *)
Slip(s, x, v) == VSub(Cross(s, x), v)
CTLForce(c, b, h, i) ==
    LET p == CTLParts(c, b, h, i)
        rad == (p.cons (+) p.ds (+) p.dp) (+) ((p.os (+) p.op) (\X) (p.vr (/) p.d))
    IN VAdd(VScale(rad (/) p.d, p.x),
            VAdd(VScale(p.os (/) p.d, Slip(Spin(b[h]), p.x, p.v)), VScale(p.op (/) p.d, Slip(Spin(b[i]), p.x, p.v))))
CTLForceScale(c, b, h, i) ==
    LET p == CTLParts(c, b, h, i) vn == Norm(p.v) IN
    Abs(p.cons) (+) Abs(p.ds) (+) Abs(p.dp)
    (+) (p.os (\X) (SpinRate(b[h]) (+) (Two (\X) (vn (/) p.d)))) (+) (p.op (\X) (SpinRate(b[i]) (+) (Two (\X) (vn (/) p.d))))
(* torque of the tide on the spin: minus r x (orthogonal force) *)
TideTorque(o, s, p) == VScale(Opp(o), VSub(VScale(p.d, s), VAdd(VScale(Dot(p.x, s) (/) p.d, p.x), VScale(One (/) p.d, Cross(p.x, p.v)))))
TideTorqueScale(o, s, p) == o (\X) ((Two (\X) p.d (\X) Norm(s)) (+) Norm(p.v))
CTLOrbiting(c) == SelectSeq([j \in 1..Len(c) |-> j], LAMBDA j : c[j].tides.role = "orbiting" /\ c[j].tides.model = "ctl")
CTLTorque(c, b, h, i) ==
    IF i # h THEN (IF c[i].tides.role = "orbiting" /\ c[i].tides.model = "ctl" THEN LET p == CTLParts(c, b, h, i) IN TideTorque(p.op, Spin(b[i]), p) ELSE Vec0)
    ELSE IF c[h].tides.model # "ctl" THEN Vec0
    ELSE SumOverV(CTLOrbiting(c), LAMBDA j : LET p == CTLParts(c, b, h, j) IN TideTorque(p.os, Spin(b[h]), p))
CTLTorqueScale(c, b, h, i) ==
    IF i # h THEN (IF c[i].tides.role = "orbiting" /\ c[i].tides.model = "ctl" THEN LET p == CTLParts(c, b, h, i) IN TideTorqueScale(p.op, Spin(b[i]), p) ELSE Zero)
    ELSE SumOver(CTLOrbiting(c), LAMBDA j : LET p == CTLParts(c, b, h, j) IN TideTorqueScale(p.os, Spin(b[h]), p))
(* power taken out of orbit and spin by the tide in the orbiting body *)
CTLEnergyLoss(c, b, h, i) ==
    LET p == CTLParts(c, b, h, i)  s == Spin(b[i]) IN
    Opp( ((p.dp (+) (p.op (\X) (p.vr (/) p.d))) (\X) p.vr)
         (+) ((p.op (/) p.d) (\X) Dot(Slip(s, p.x, p.v), p.v))
         (+) Dot(CTLTorque(c, b, h, i), s) )
CTLEnergyLossScale(c, b, h, i) ==
    LET p == CTLParts(c, b, h, i)  w == SpinRate(b[i])  vn == Norm(p.v) IN
    (Abs(p.dp) (\X) vn) (+) (p.op (\X) R("3.0") (\X) (Sq((p.d (\X) w) (+) vn) (/) p.d))

(* =================== rotational flattening: oblate spheroid =================== *)
(* Bolmont et al. 2015, equations 15-18.  For a body with spin s (unit axis u):   *)
(* C = m_other k2f |s|^2 R^5 / 6; written so that |s| = 0 simply gives nothing.    *)
FlatLove(c, i) == IF c[i].flat.role # "none" /\ c[i].flat.model = "oblate" THEN c[i].flat.k2 ELSE Zero
FlatC(c, b, i, j) == (b[j].m (\X) FlatLove(c, i) (\X) PowI(b[i].r, 5)) (/) R("6.0")     \* divided by |s|^2
FlatOrth(c, b, i, j, x) == (R("-6.0") (\X) FlatC(c, b, i, j) (\X) Dot(x, Spin(b[i]))) (/) PowI(Norm(x), 5)
FlatRad(c, b, i, j, x) == LET s == Spin(b[i]) d == Norm(x) k == FlatC(c, b, i, j) IN
    ((R("-3.0") (\X) k (\X) Norm2(s)) (/) PowI(d, 5)) (+) ((R("15.0") (\X) k (\X) Sq(Dot(x, s))) (/) PowI(d, 7))
FlatForce(c, b, h, i) == LET x == RelX(b, i, h) IN
    VAdd(VScale(FlatRad(c, b, h, i, x) (+) FlatRad(c, b, i, h, x), x),
         VAdd(VScale(FlatOrth(c, b, h, i, x), Spin(b[h])), VScale(FlatOrth(c, b, i, h, x), Spin(b[i]))))
FlatForceScale(c, b, h, i) == LET d == Norm(RelX(b, i, h)) IN
    ((FlatC(c, b, h, i) (\X) Norm2(Spin(b[h]))) (+) (FlatC(c, b, i, h) (\X) Norm2(Spin(b[i])))) (\X) (R("24.0") (/) PowI(d, 4))
FlatOrbiting(c) == SelectSeq([j \in 1..Len(c) |-> j], LAMBDA j : c[j].flat.role = "orbiting" /\ c[j].flat.model = "oblate")
FlatTorqueOn(c, b, i, j, x) == VScale(Opp(FlatOrth(c, b, i, j, x)), Cross(x, Spin(b[i])))
FlatTorque(c, b, h, i) ==
    IF i # h THEN (IF c[i].flat.role = "orbiting" /\ c[i].flat.model = "oblate" THEN FlatTorqueOn(c, b, i, h, RelX(b, i, h)) ELSE Vec0)
    ELSE IF c[h].flat.model # "oblate" THEN Vec0
    ELSE SumOverV(FlatOrbiting(c), LAMBDA j : FlatTorqueOn(c, b, h, j, RelX(b, j, h)))
FlatTorqueScale(c, b, h, i) ==
    IF i # h THEN (IF c[i].flat.role = "orbiting" /\ c[i].flat.model = "oblate"
                   THEN (R("6.0") (\X) FlatC(c, b, i, h) (\X) Norm2(Spin(b[i]))) (/) Cube(Norm(RelX(b, i, h))) ELSE Zero)
    ELSE SumOver(FlatOrbiting(c), LAMBDA j : (R("6.0") (\X) FlatC(c, b, h, j) (\X) Norm2(Spin(b[h]))) (/) Cube(Norm(RelX(b, j, h))))

(* ============================== stellar wind ============================== *)
(* Bolmont & Mathis 2016, equation 14 *)
WindTorque(c, b, i) ==
    IF ~c[i].wind.on THEN Vec0
    ELSE LET s == Spin(b[i])  w2 == Min(Norm2(s), Sq(c[i].wind.sat)) IN
         VScale(Opp(c[i].wind.k (\X) w2 (\X) Sqrt((b[i].r (/) Rsun) (/) b[i].m)), s)

(* ============================ disk interaction ============================ *)
(* Alibert et al. 2013, equations 8-10, with the viscous migration timescale *)
Boltzmann == (R("1.380649e-23") (/) (MsunKg (\X) Sq(AUm))) (\X) Sq(Day)
HydrogenMass == R("1.672162841e-27") (/) MsunKg
DiskDensity(k, t, d) == IF k.inner \prec d
    THEN (k.sigma0 (/) d) (\X) Exp(Opp(d (/) k.outer)) (\X) (One (-) Sqrt(k.inner (/) d)) (\X) Exp(Opp(t (/) k.life))
    ELSE Zero
DiskViscosity(k, m, d) ==
    LET temp == (R("280.0") (/) Sqrt(d)) (\X) m
        cs2 == (Boltzmann (\X) temp) (/) (k.mu (\X) HydrogenMass)
    IN (k.alpha (\X) cs2) (/) Sqrt((G (\X) m) (/) Cube(d))
Axis(b, h, i) == LET d == Norm(RelX(b, i, h))  gm == G (\X) (b[i].m (+) b[h].m)
                 IN (gm (\X) d) (/) ((Two (\X) gm) (-) (d (\X) Norm2(RelV(b, i, h))))
DiskMassRatio(k, b, h, i, t) == (Two (\X) DiskDensity(k, t, Norm(RelX(b, i, h))) (\X) Sq(Axis(b, h, i))) (/) b[i].m
(* inverse of the migration timescale *)
DiskRate(k, b, h, i, t) ==
    LET d == Norm(RelX(b, i, h))  a == Axis(b, h, i)
        vgas == (R("1.5") (\X) DiskViscosity(k, b[h].m, d)) (/) a
    IN (vgas (\X) Min(One, DiskMassRatio(k, b, h, i, t))) (/) a
DiskForce(k, b, h, i, t) ==
    LET x == RelX(b, i, h)  v == RelV(b, i, h)  q == DiskRate(k, b, h, i, t) (\X) b[i].m
    IN VNeg(VAdd(VScale(q, v), VAdd(VScale(q (\X) R("20.0") (\X) (Dot(x, v) (/) Norm2(x)), x), <<Zero, Zero, q (\X) R("20.0") (\X) v[3]>>)))
DiskForceScale(k, b, h, i, t) == DiskRate(k, b, h, i, t) (\X) b[i].m (\X) R("41.0") (\X) Norm(RelV(b, i, h))
=============================================================================
