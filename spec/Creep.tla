------------------------------- MODULE Creep -------------------------------
(* Creep tide theory for coplanar systems (Ferraz-Mello 2015; Folonier et al.   *)
(* 2018, eq. 49; Gomes et al. 2021): the body relaxes towards the figure of      *)
(* equilibrium with rate gamma.  Its figure is given by (x, y, z): equatorial     *)
(* prolateness along and across the direction of the companion, and polar         *)
(* oblateness.                                                                     *)
EXTENDS Effects, TLC

CreepModel(c, i, eff) == c[i][eff].role # "none" /\ c[i][eff].model = "creep"

(* elements of the relative orbit from the state: no angle is needed *)
OrbitOf(gm, x, v) ==
    LET r == Norm(x)  a == One (/) ((Two (/) r) (-) (Norm2(v) (/) gm))
        ec == One (-) (r (/) a)  es == Dot(x, v) (/) Sqrt(gm (\X) a)          \* e cos E, e sin E
        e == Sqrt(Sq(ec) (+) Sq(es))
        E == Atan2(es, ec)
        nu == Two (\X) Atan2(Sqrt(One (+) e) (\X) Sin(E (/) Two), Sqrt(One (-) e) (\X) Cos(E (/) Two))
    IN [a |-> a, e |-> e, M |-> E (-) es, nu |-> nu, n |-> Sqrt(gm (/) Cube(a))]

(* Fourier coefficients of (a/r)^3 and of (a/r)^3 exp(2 i nu) to seventh order *)
Poly(e, cs) == SumR([k \in 1..Len(cs) |-> cs[k][1] (\X) PowI(e, cs[k][2])])
Q(n, d) == OfInt(n) (/) OfInt(d)
E0(k, e) == LET j == IF k < 0 THEN -k ELSE k IN
    CASE j = 0 -> Poly(e, <<<<Q(1, 1), 0>>, <<Q(3, 2), 2>>, <<Q(15, 8), 4>>, <<Q(35, 16), 6>>>>)
      [] j = 1 -> Poly(e, <<<<Q(3, 2), 1>>, <<Q(27, 16), 3>>, <<Q(261, 128), 5>>, <<Q(14309, 6144), 7>>>>)
      [] j = 2 -> Poly(e, <<<<Q(9, 4), 2>>, <<Q(7, 4), 4>>, <<Q(141, 64), 6>>>>)
      [] j = 3 -> Poly(e, <<<<Q(53, 16), 3>>, <<Q(393, 256), 5>>, <<Q(24753, 10240), 7>>>>)
      [] j = 4 -> Poly(e, <<<<Q(77, 16), 4>>, <<Q(129, 160), 6>>>>)
      [] j = 5 -> Poly(e, <<<<Q(1773, 256), 5>>, <<Q(-4987, 6144), 7>>>>)
      [] j = 6 -> Poly(e, <<<<Q(3167, 320), 6>>>>)
      [] j = 7 -> Poly(e, <<<<Q(432091, 30720), 7>>>>)
E2(k, e) ==
    CASE k = 9 -> Poly(e, <<<<Q(12144273, 71680), 7>>>>)
      [] k = 8 -> Poly(e, <<<<Q(73369, 720), 6>>>>)
      [] k = 7 -> Poly(e, <<<<Q(228347, 3840), 5>>, <<Q(-3071075, 18432), 7>>>>)
      [] k = 6 -> Poly(e, <<<<Q(533, 16), 4>>, <<Q(-13827, 160), 6>>>>)
      [] k = 5 -> Poly(e, <<<<Q(845, 48), 3>>, <<Q(-32525, 768), 5>>, <<Q(208225, 6144), 7>>>>)
      [] k = 4 -> Poly(e, <<<<Q(17, 2), 2>>, <<Q(-115, 6), 4>>, <<Q(601, 48), 6>>>>)
      [] k = 3 -> Poly(e, <<<<Q(7, 2), 1>>, <<Q(-123, 16), 3>>, <<Q(489, 128), 5>>, <<Q(-1763, 2048), 7>>>>)
      [] k = 2 -> Poly(e, <<<<Q(1, 1), 0>>, <<Q(-5, 2), 2>>, <<Q(13, 16), 4>>, <<Q(-35, 288), 6>>>>)
      [] k = 1 -> Poly(e, <<<<Q(-1, 2), 1>>, <<Q(1, 16), 3>>, <<Q(-5, 384), 5>>, <<Q(-143, 18432), 7>>>>)
      [] k = 0 -> Zero
      [] k = -1 -> Poly(e, <<<<Q(1, 48), 3>>, <<Q(11, 768), 5>>, <<Q(313, 30720), 7>>>>)
      [] k = -2 -> Poly(e, <<<<Q(1, 24), 4>>, <<Q(7, 240), 6>>>>)
      [] k = -3 -> Poly(e, <<<<Q(81, 1280), 5>>, <<Q(81, 2048), 7>>>>)
      [] k = -4 -> Poly(e, <<<<Q(4, 45), 6>>>>)
      [] k = -5 -> Poly(e, <<<<Q(15625, 129024), 7>>>>)

(* relaxation rate of a body of mass m, radius r and viscosity eta *)
Relaxation(m, r, eta) == (R("3.0") (\X) G (\X) Sq(m)) (/) (R("8.0") (\X) Pi (\X) PowI(r, 4) (\X) eta)
TidalProlateness(q, mc, a) == (R("15.0") (\X) mc (\X) Cube(q.r)) (/) (R("4.0") (\X) q.m (\X) Cube(a))
RotationOblateness(q) == (R("5.0") (\X) Sq(Spin(q)[3]) (\X) Cube(q.r)) (/) (R("4.0") (\X) G (\X) q.m)
SwitchRate(g, o) == IF g \prec o.n THEN R("0.9") (\X) o.n ELSE o.n (\X) (One (+) (R("7.0") (\X) Sq(o.e)))

(* rotation below pseudo-synchronism: first order in e around the stationary solution *)
SlowFigure(o, g, er, ez, mu) ==
    LET al == One (-) (R("3.0") (\X) mu (\X) er)  x == o.n (/) g  x2 == Sq(x)  e == o.e  e2 == Sq(e)
        d1 == One (+) x2  da == One (+) (Sq(al) (\X) x2)
        rho0 == er (\X) ((One (+) (R("1.5") (\X) e2)) (-) ((R("4.0") (\X) x2 (\X) e2) (/) da))
        rho1 == (R("3.0") (\X) er (\X) e) (/) d1
        z0 == (er (\X) (Half (+) (R("0.75") (\X) e2)))
              (+) (ez (\X) (One (+) ((R("12.0") (\X) e2 (\X) (One (+) (al (\X) x2))) (/) (d1 (\X) da))
                                (+) ((Two (\X) Sq(One (-) al) (\X) x2 (\X) e2) (/) da)))
        z1 == (R("1.5") (\X) er (\X) e) (/) d1
        zc == z1 (\X) (One (-) ((R("16.0") (\X) mu (\X) x2 (\X) ez) (/) da))
        zs == z1 (\X) (x (+) ((R("8.0") (\X) mu (\X) x (\X) (One (-) (al (\X) x2)) (\X) ez) (/) da))
        dl0 == ((R("3.0") (\X) x (\X) e2) (/) d1) (\X) ((Two (+) ((One (+) al) (\X) x2)) (/) da)
        dlc == (R("-2.0") (\X) x (\X) e) (/) da
        dls == (R("-2.0") (\X) e (\X) x2 (\X) al) (/) da
        cM == Cos(o.M)  sM == Sin(o.M)
        rho == rho0 (+) (rho1 (\X) (cM (+) (x (\X) sM)))
        dl == dl0 (+) (dlc (\X) cM) (+) (dls (\X) sM)
    IN <<rho (\X) Cos(Two (\X) dl), rho (\X) Sin(Two (\X) dl), z0 (+) (zc (\X) cM) (+) (zs (\X) sM)>>

(* faster rotation: forced response of a relaxing body, term by term *)
FastFigure(o, g, er, ez, spin) ==
    LET W(k) == (Two (\X) spin) (-) (OfInt(k) (\X) o.n)
        K == [j \in 1..15 |-> j - 6]                                             \* -5..9
        Th(k) == (OfInt(k) (\X) o.M) (-) (Two (\X) o.nu)
        A(k) == (g (\X) E2(k, o.e)) (/) (Sq(g) (+) Sq(W(k)))
        Zk(k) == LET w == OfInt(k) (\X) o.n IN (E0(k, o.e) (/) (Sq(g) (+) Sq(w))) (\X) ((Sq(g) (\X) Cos(OfInt(k) (\X) o.M)) (+) (g (\X) w (\X) Sin(OfInt(k) (\X) o.M)))
    IN << er (\X) SumR([j \in 1..15 |-> A(K[j]) (\X) ((g (\X) Cos(Th(K[j]))) (-) (W(K[j]) (\X) Sin(Th(K[j]))))]),
          er (\X) SumR([j \in 1..15 |-> A(K[j]) (\X) ((g (\X) Sin(Th(K[j]))) (+) (W(K[j]) (\X) Cos(Th(K[j]))))]),
          ((er (/) Two) (\X) SumR([j \in 1..15 |-> Zk(j - 8)])) (+) ez >>

(* figure of body q under companion of mass mc on orbit o *)
Figure(q, mc, eta, o, tides, rotation) ==
    LET g == Relaxation(q.m, q.r, eta)  s == Spin(q)[3]
        er == IF tides THEN TidalProlateness(q, mc, o.a) ELSE Zero
        ez == IF rotation THEN RotationOblateness(q) ELSE Zero
    IN IF s \prec SwitchRate(g, o) THEN SlowFigure(o, g, er, ez, mc (/) (mc (+) q.m)) ELSE FastFigure(o, g, er, ez, s)
FigureSize(q, mc, o, tides, rotation) ==
    (IF tides THEN R("3.0") (\X) TidalProlateness(q, mc, o.a) (\X) PowI(One (-) o.e, -3) ELSE Zero)
    (+) (IF rotation THEN R("15.0") (\X) RotationOblateness(q) ELSE Zero)

OrbitAround(b, h, i) == OrbitOf(G (\X) (b[h].m (+) b[i].m), RelX(b, i, h), RelV(b, i, h))
(* the regime is chosen by comparing rounded numbers: exclude ties *)
CreepClear(c, b, h, i, eff) ==
    LET o == OrbitAround(b, h, i)
        Away(q, eta) == LET s == Spin(q)[3] g == Relaxation(q.m, q.r, eta) IN
            /\ R("1e-7") (\X) o.n \prec Abs(s (-) SwitchRate(g, o))
            /\ R("1e-9") (\X) o.n \prec Abs(g (-) o.n)
    IN (CreepModel(c, i, eff) => Away(b[i], c[i][eff].visc)) /\ (CreepModel(c, h, eff) => Away(b[h], c[h][eff].visc))

Gq(b, i, h, d, n) == (R("0.6") (\X) G (\X) b[i].m (\X) b[h].m (\X) Sq(b[i].r)) (/) PowI(d, n)
(* tides in orbiting body i: force on it; across: right-handed in the orbital plane *)
CreepForce(c, b, h, i) ==
    LET x == RelX(b, i, h)  d == Norm(x)  f == TLCEval(Figure(b[i], b[h].m, c[i].tides.visc, TLCEval(OrbitAround(b, h, i)), TRUE, FALSE))
        k == Gq(b, i, h, d, 5)
    IN VAdd(VScale(Opp(k (\X) ((R("1.5") (\X) f[1]) (+) f[3])), <<x[1], x[2], Zero>>), VScale(k (\X) f[2], <<Opp(x[2]), x[1], Zero>>))
CreepForceScale(c, b, h, i) == LET d == Norm(RelX(b, i, h)) IN R("2.5") (\X) Gq(b, i, h, d, 4) (\X) FigureSize(b[i], b[h].m, OrbitAround(b, h, i), TRUE, FALSE)
(* torque on the spin of body i by its deformation due to j *)
CreepTorqueOn(c, b, i, j, o, d) == <<Zero, Zero, Opp(Gq(b, i, j, d, 3) (\X) Figure(b[i], b[j].m, c[i].tides.visc, o, TRUE, FALSE)[2])>>
CreepTorque(c, b, h, i) ==
    IF i # h THEN (IF CreepModel(c, i, "tides") THEN CreepTorqueOn(c, b, i, h, TLCEval(OrbitAround(b, h, i)), Norm(RelX(b, i, h))) ELSE Vec0)
    ELSE IF ~CreepModel(c, h, "tides") THEN Vec0
    ELSE SumOverV(OrbitingSeq(c, "tides"), LAMBDA j : CreepTorqueOn(c, b, h, j, TLCEval(OrbitAround(b, h, j)), Norm(RelX(b, j, h))))
CreepTorqueScale(c, b, h, i) ==
    LET One1(q, p, orb) == LET d == Norm(RelX(b, orb, h)) IN Gq(b, q, p, d, 3) (\X) FigureSize(b[q], b[p].m, OrbitAround(b, h, orb), TRUE, FALSE) IN
    IF i # h THEN (IF CreepModel(c, i, "tides") THEN One1(i, h, i) ELSE Zero)
    ELSE IF ~CreepModel(c, h, "tides") THEN Zero ELSE SumOver(OrbitingSeq(c, "tides"), LAMBDA j : One1(h, j, j))
(* flattening of orbiting body i by its rotation: only the oblateness acts *)
CreepFlatForce(c, b, h, i) ==
    LET x == RelX(b, i, h)  f == Figure(b[i], b[h].m, c[i].flat.visc, TLCEval(OrbitAround(b, h, i)), FALSE, TRUE)
    IN VScale(Opp(Gq(b, i, h, Norm(x), 5) (\X) f[3]), <<x[1], x[2], Zero>>)
CreepFlatForceScale(c, b, h, i) == Gq(b, i, h, Norm(RelX(b, i, h)), 4) (\X) FigureSize(b[i], b[h].m, OrbitAround(b, h, i), FALSE, TRUE)
=============================================================================
