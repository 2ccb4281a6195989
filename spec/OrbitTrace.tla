----------------------------- MODULE OrbitTrace -----------------------------
(* A state and a set of orbital elements describing the same motion, with the     *)
(* accuracy that the numbers involved allow.                                        *)
EXTENDS TraceBase, Orbit

(* ---- elements to state ---- *)
ToCart(r, k, o, xv) ==
    LET s == TLCEval(OnOrbit(o.gm, o.q, o.e, o.i, o.p, o.n, o.l))
        x == <<xv[1], xv[2], xv[3]>>  v == <<xv[4], xv[5], xv[6]>>
        r0 == Norm(s.x)  one == Pace(o.gm, o.q, o.e) (\X) (One (+) (IF o.e \prec One THEN Zero ELSE Abs(o.l)))
        \* (an eccentricity next to one fixes the size of the orbit only so well)
        tol == R("1e-8") (+) (IF RealEq(o.e, One) THEN Zero ELSE R("1e-12") (/) Abs(One (-) o.e))
    IN /\ Note(r, k, "position on the orbit at the anomaly", VClose(x, s.x, r0 (+) (Norm(s.v) (\X) one), tol))
       /\ Note(r, k, "velocity on the orbit at the anomaly", VClose(v, s.v, Norm(s.v) (+) ((o.gm (/) Sq(r0)) (\X) one), tol))

(* ---- state to elements ---- *)
(* the anomaly is found from its cosine, (1 - r/a)/e: near the apses and for      *)
(* nearly circular orbits that is as good as the cosine allows                     *)
ToKep(r, k, gm, x, v, el) ==
    LET h == Cross(x, v)  hn == Norm(h)  ev == EccVec(gm, x, v)  e == Norm(ev)  r0 == Norm(x)
        energy == (Two (/) r0) (-) (Norm2(v) (/) gm)              \* 1/a
        slip == R("1e-14") (\X) (One (+) ((Norm2(v) (\X) r0) (/) gm))
        de == slip (/) Max(e, Sqrt(slip))
        tilt == R("3e-8")
        g == el.p (-) el.n
        circ == RealEq(el.e, Zero) \/ e \prec R("1e-7")
        near == Close(e, One, One, R("1e-2"))
        \* rounding of the anomaly, as an angle (ellipse) or area (hyperbola)
        a == Abs(One (/) energy)
        dc == ((slip (+) de) (\X) R("4.0")) (/) e
        sinE == Abs(Dot(x, v)) (/) (e (\X) Sqrt(gm (\X) a))
        dE == Min(Pi, dc (/) Max(sinE, Sqrt(dc)))
        s == TLCEval(OnOrbit(gm, el.q, el.e, el.i, el.p, el.n, el.l))
        \* (below 3e-8 the orbit is taken as a circle, and the anomaly counts from the node)
        big == IF el.e \prec R("3.1e-8") THEN r0 (\X) R("1e-6") ELSE (a (\X) dE (\X) R("10.0")) (+) ((R("3e-8") (+) (de (\X) R("10.0"))) (\X) (r0 (+) a))
    IN /\ Note(r, k, "semi-major axis", Close(One (/) el.a, energy, (Two (/) r0) (+) (Norm2(v) (/) gm), R("1e-13")))
       /\ Note(r, k, "eccentricity", Close(el.e, e, de (+) (IF RealEq(el.e, Zero) THEN R("4e-8") ELSE Zero), R("4.0")))
       /\ Note(r, k, "perihelion distance", Close(el.q, (Sq(hn) (/) gm) (/) (One (+) el.e), el.q, R("1e-7")))
       /\ Note(r, k, "inclination between zero and half a turn", Zero \preceq el.i /\ el.i \preceq Pi)
       /\ Note(r, k, "orbital plane", VClose(DirH(el.i, el.n), VScale(One (/) hn, h), One, tilt))
       /\ Note(r, k, "direction of the perihelion", circ \/ VClose(DirP(el.i, el.n, g), VScale(One (/) e, ev), One (/) e, tilt))
       /\ Note(r, k, "anomaly", near \/ (VClose(s.x, x, big, One) /\ VClose(s.v, v, (big (/) r0) (\X) (Norm(v) (+) Sqrt(gm (/) r0) (+) ((gm (\X) (One (/) Sq(r0))) (\X) Sqrt(Cube(r0) (/) gm))), R("5.0"))))
       /\ Note(r, k, "orbital period", "per" \notin DOMAIN el \/ ~(energy \prec Zero \/ Zero \prec energy) \/ ~(e \prec One) \/ Close(el.per, TwoPi (\X) Sqrt(Cube(el.a) (/) gm), el.per, R("1e-12")))
       /\ Note(r, k, "true anomaly", "f" \notin DOMAIN el \/ near \/ circ \/
              LET P == DirP(el.i, el.n, g)  Q == DirQ(el.i, el.n, g) IN
              VClose(VAdd(VScale(Cos(el.f), P), VScale(Sin(el.f), Q)), VScale(One (/) r0, x), One, R("1e-7") (+) (dE (\X) (a (/) r0) (\X) R("10.0"))))
=============================================================================
