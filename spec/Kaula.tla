------------------------------- MODULE Kaula -------------------------------
(* Tides with the spectral (Kaula) model: the response of the body at each tidal *)
(* frequency is its tabulated complex Love number.  For a body rotating about    *)
(* the normal of its orbit (Boue & Efroimsky 2019; Revol et al. 2023).           *)
EXTENDS Creep, Evolve

KaulaModel(c, i) == c[i].tides.role # "none" /\ c[i].tides.model = "kaula"

(* ---- complex Love number at angular frequency w (rad/s) ---- *)
(* A planet responds symmetrically: the table gives positive frequencies and       *)
(* k2(-w) is the conjugate.  A star has a signed table.  (The tables hold the       *)
(* opposite of the real part.)                                                      *)
LoveAt(t, w, star) ==
    LET neg == ~star /\ w \prec Zero
        u == IF neg THEN Opp(w) ELSE w
        im == Interp(t.freq, t.im, u)
    IN <<Opp(Interp(t.freq, t.re, u)), IF neg THEN Opp(im) ELSE im>>

(* ---- eccentricity functions: G_20q and G_21q are the Hansen coefficients of     *)
(* (a/r)^3 exp(2 i nu) and (a/r)^3 ---- *)
G20(q, e) == E2(q + 2, e)
G21(q, e) == IF q = 0 THEN Pow(One (-) Sq(e), R("-1.5")) ELSE E0(q, e)
Orders == <<"0.1", "0.15", "0.2", "0.25", "0.3">>
KaulaOrder(e) == 2 + Len(SelectSeq(Orders, LAMBDA s : R(s) \prec e))

(* rates in rad/s *)
Mode(m, k, o, w) == ((OfInt(k) (\X) o.n) (-) (OfInt(m) (\X) w)) (/) Day

(* Radial and tangential force per unit G M^2 R^5 / (a^6 r), and the parts of them  *)
(* that do not average out over an orbit: <<F_r, F_t, F_t secular>>                  *)
Response(t, star, o, w) ==
    LET K == KaulaOrder(o.e)  n == 2 * K + 1  q(j) == j - K - 1
        g0 == TLCEval([j \in 1..n |-> G20(q(j), o.e)])
        g1 == TLCEval([j \in 1..n |-> G21(q(j), o.e)])
        c == TLCEval([j \in 1..n |-> Cos(OfInt(q(j)) (\X) o.M)])
        s == TLCEval([j \in 1..n |-> Sin(OfInt(q(j)) (\X) o.M)])
        k0 == TLCEval([j \in 1..n |-> LoveAt(t, Mode(2, 2 + q(j), o, w), star)])
        k1 == TLCEval([j \in 1..n |-> LoveAt(t, Mode(0, q(j), o, w), star)])
        W(g, f) == SumR([j \in 1..n |-> g[j] (\X) f[j]])
        C0 == W(g0, c)  S0 == W(g0, s)  C1 == W(g1, c)  S1 == W(g1, s)
        Re(g, k, C, S) == SumR([j \in 1..n |-> g[j] (\X) ((k[j][1] (\X) ((C (\X) c[j]) (+) (S (\X) s[j]))) (-) (k[j][2] (\X) ((S (\X) c[j]) (-) (C (\X) s[j]))))])
        Im(g, k, C, S) == SumR([j \in 1..n |-> g[j] (\X) ((k[j][1] (\X) ((S (\X) c[j]) (-) (C (\X) s[j]))) (+) (k[j][2] (\X) ((C (\X) c[j]) (+) (S (\X) s[j]))))])
    IN << Opp((R("0.75") (\X) Re(g1, k1, C1, S1)) (+) (R("2.25") (\X) Re(g0, k0, C0, S0))),
          Opp(R("1.5") (\X) Im(g0, k0, C0, S0)),
          Opp(R("1.5") (\X) SumR([j \in 1..n |-> Sq(g0[j]) (\X) k0[j][2]])) >>
ResponseSize(t, o) ==
    LET K == KaulaOrder(o.e)  n == 2 * K + 1  q(j) == j - K - 1
        big(s) == MaxR([j \in 1..Len(s) |-> Abs(s[j])])
        A(F(_, _)) == SumR([j \in 1..n |-> Abs(F(q(j), o.e))])
    IN R("4.0") (\X) (Sq(A(G20)) (+) Sq(A(G21))) (\X) (big(t.re) (+) big(t.im))

(* choices made by comparing rounded numbers: the order of the expansion and, for a   *)
(* planet, the sign of a frequency                                                     *)
KaulaClear1(t, star, o, w) ==
    /\ \A k \in 1..Len(Orders) : R("1e-9") \prec Abs(o.e (-) R(Orders[k]))
    /\ ~star => \A q \in -7..7 : R("1e-9") (\X) o.n \prec Abs((OfInt(2 + q) (\X) o.n) (-) (Two (\X) w))
(* the body spins about the normal of the orbit, which is the reference plane *)
AlignedPair(b, h, i, q) == LET x == RelX(b, i, h) v == RelV(b, i, h) s == Spin(b[q]) IN
    x[3] = Zero /\ v[3] = Zero /\ s[1] \preceq Zero /\ Zero \preceq s[1] /\ s[2] \preceq Zero /\ Zero \preceq s[2]
    /\ Zero \preceq s[3] /\ Zero \prec Cross(x, v)[3]
Bound(o) == Zero \prec o.a /\ o.e \prec R("0.99")

(* force on the body q deformed by p; x, o: position and orbit of q around p (planet: *)
(* q orbits p; star: its companion p orbits q, so that x is the opposite)             *)
KaulaCoef(b, q, p, o, x) == (G (\X) Sq(b[p].m) (\X) PowI(b[q].r, 5)) (/) (PowI(o.a, 6) (\X) Norm(x))
KaulaOn(c, b, q, p, star, o, x) ==
    LET f == TLCEval(Response(c[q].tides, star, o, SpinRate(b[q])))  d == Norm(x)  k == KaulaCoef(b, q, p, o, x) IN
    [force |-> VAdd(VScale((k (\X) f[1]) (/) d, x), VScale((k (\X) f[2]) (/) d, <<Opp(x[2]), x[1], Zero>>)),
     torque |-> <<Zero, Zero, Opp(k (\X) d (\X) f[3])>>]
KaulaOnSize(c, b, q, p, o, x) == KaulaCoef(b, q, p, o, x) (\X) ResponseSize(c[q].tides, o)

(* force on orbiting body i by its own deformation and by the one it raises on h *)
KaulaOwn(c, b, h, i) == KaulaOn(c, b, i, h, FALSE, TLCEval(OrbitAround(b, h, i)), RelX(b, i, h))
KaulaHost(c, b, h, i) == KaulaOn(c, b, h, i, TRUE, TLCEval(OrbitAround(b, h, i)), RelX(b, h, i))
KaulaForce(c, b, h, i) ==
    VAdd(IF KaulaModel(c, i) THEN KaulaOwn(c, b, h, i).force ELSE Vec0, IF KaulaModel(c, h) THEN VScale(R("-1.0"), KaulaHost(c, b, h, i).force) ELSE Vec0)
KaulaForceScale(c, b, h, i) ==
    LET o == OrbitAround(b, h, i)  x == RelX(b, i, h) IN
    (IF KaulaModel(c, i) THEN KaulaOnSize(c, b, i, h, o, x) ELSE Zero) (+) (IF KaulaModel(c, h) THEN KaulaOnSize(c, b, h, i, o, x) ELSE Zero)
KaulaTorque(c, b, h, i) ==
    IF ~KaulaModel(c, i) THEN Vec0 ELSE IF i # h THEN KaulaOwn(c, b, h, i).torque
    ELSE SumOverV(OrbitingSeq(c, "tides"), LAMBDA j : KaulaHost(c, b, h, j).torque)
KaulaTorqueScale(c, b, h, i) ==
    LET S(q, p, orb) == Norm(RelX(b, orb, h)) (\X) KaulaOnSize(c, b, q, p, OrbitAround(b, h, orb), RelX(b, orb, h)) IN
    IF ~KaulaModel(c, i) THEN Zero ELSE IF i # h THEN S(i, h, i) ELSE SumOver(OrbitingSeq(c, "tides"), LAMBDA j : S(h, j, j))
KaulaClear(c, b, h, i) ==
    LET o == OrbitAround(b, h, i) IN
    /\ (KaulaModel(c, i) \/ KaulaModel(c, h)) => Bound(o)
    /\ KaulaModel(c, i) => AlignedPair(b, h, i, i) /\ KaulaClear1(c[i].tides, FALSE, o, SpinRate(b[i]))
    /\ KaulaModel(c, h) => AlignedPair(b, h, i, h) /\ KaulaClear1(c[h].tides, TRUE, o, SpinRate(b[h]))
=============================================================================
