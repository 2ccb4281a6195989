------------------------------- MODULE Orbit -------------------------------
(* Keplerian orbits: the state at an anomaly is the state at the perihelion,     *)
(* moved along the two-body motion for the time since perihelion.                 *)
EXTENDS Kepler

(* unit vectors towards the perihelion and a quarter turn ahead in the plane of   *)
(* the orbit with inclination i, longitude of the node n, argument of the          *)
(* perihelion g                                                                     *)
DirP(i, n, g) == << (Cos(n) (\X) Cos(g)) (-) (Sin(n) (\X) Sin(g) (\X) Cos(i)),
                    (Sin(n) (\X) Cos(g)) (+) (Cos(n) (\X) Sin(g) (\X) Cos(i)),
                    Sin(g) (\X) Sin(i) >>
DirQ(i, n, g) == << Opp((Cos(n) (\X) Sin(g)) (+) (Sin(n) (\X) Cos(g) (\X) Cos(i))),
                    (Cos(n) (\X) Cos(g) (\X) Cos(i)) (-) (Sin(n) (\X) Sin(g)),
                    Cos(g) (\X) Sin(i) >>
DirH(i, n) == << Sin(n) (\X) Sin(i), Opp(Cos(n) (\X) Sin(i)), Cos(i) >>

Wrap(l) == LET w == l (-) (TwoPi (\X) Floor(l (/) TwoPi)) IN IF Pi \prec w THEN w (-) TwoPi ELSE w
(* the time in which the anomaly grows by one *)
Pace(gm, q, e) == IF RealEq(e, One) THEN Sqrt((Two (\X) Cube(q)) (/) gm)
                  ELSE LET a == Abs(q (/) (One (-) e)) IN Sqrt(Cube(a) (/) gm)
Since(gm, q, e, l) == Pace(gm, q, e) (\X) (IF e \prec One THEN Wrap(l) ELSE l)
Move(gm, x, v, h) ==
    IF RealEq(h, Zero) THEN [x |-> x, v |-> v]
    ELSE IF Zero \prec h THEN Drift(gm, x, v, h)
    ELSE LET d == TLCEval(Drift(gm, x, VNeg(v), Opp(h))) IN [x |-> d.x, v |-> VNeg(d.v)]
(* p is the longitude of the perihelion *)
OnOrbit(gm, q, e, i, p, n, l) ==
    Move(gm, VScale(q, DirP(i, n, p (-) n)), VScale(Sqrt((gm (\X) (One (+) e)) (/) q), DirQ(i, n, p (-) n)), TLCEval(Since(gm, q, e, l)))

EccVec(gm, x, v) == VSub(VScale(One (/) gm, Cross(v, Cross(x, v))), VScale(One (/) Norm(x), x))
=============================================================================
