----------------------------- MODULE Relativity -----------------------------
(* General relativity: Kidder 1995, Anderson et al. 1975 (in Jacobi coordinates, *)
(* as Benitez & Gallardo 2008) and Newhall et al. 1983 (Einstein-Infeld-Hoffmann). *)
(* c: declared bodies, b: state, h: central body.                                 *)
EXTENDS Effects, TLC

GROrbiting(c) == OrbitingSeq(c, "gr")
GRImpl(c) == IF HasCentral(c, "gr") THEN c[Central(c, "gr")].gr.impl ELSE "none"

(* ============================== Kidder 1995 ============================== *)
(* equations 2.2b, 2.2d (relative acceleration), in terms of n = x/r and v.    *)
(* Variants: "published", and "known" for the deviations of the code that are   *)
(* listed in known_findings.json: the second order divided by c^2 instead of    *)
(* c^4; spin-orbit terms and torques without 1/r^3 and with the first spin-orbit *)
(* term taken component by component.                                            *)
KP(b, h, i) == LET x == RelX(b, i, h)  v == RelV(b, i, h)  d == Norm(x) IN
    [x |-> x, v |-> v, d |-> d, n |-> VScale(One (/) d, x), vr |-> Dot(x, v) (/) d, v2 |-> Norm2(v),
     m |-> G (\X) (b[h].m (+) b[i].m), eta |-> (b[h].m (\X) b[i].m) (/) Sq(b[h].m (+) b[i].m)]
K1Radial(k) == <<(One (+) (R("3.0") (\X) k.eta)) (\X) k.v2, Opp(Two (\X) (Two (+) k.eta) (\X) (k.m (/) k.d)), Opp(R("1.5") (\X) k.eta (\X) Sq(k.vr))>>
K1Along(k) == Opp(Two (\X) (Two (-) k.eta) (\X) k.vr)
K1Pre(k) == Opp(k.m (/) (Sq(k.d) (\X) Light2))
Kidder1(k) == VAdd(VScale(K1Pre(k) (\X) SumR(K1Radial(k)), k.n), VScale(K1Pre(k) (\X) K1Along(k), k.v))
AbsSum(s) == SumR([j \in 1..Len(s) |-> Abs(s[j])])
Kidder1Size(k) == Abs(K1Pre(k)) (\X) (AbsSum(K1Radial(k)) (+) (Abs(K1Along(k)) (\X) Sqrt(k.v2)))
K2Radial(k) == LET e == k.eta  md == k.m (/) k.d  r2 == Sq(k.vr) IN
    <<R("0.75") (\X) (R("12.0") (+) (R("29.0") (\X) e)) (\X) Sq(md),
      e (\X) (R("3.0") (-) (R("4.0") (\X) e)) (\X) Sq(k.v2),
      R("1.875") (\X) e (\X) (One (-) (R("3.0") (\X) e)) (\X) Sq(r2),
      Opp(R("1.5") (\X) e (\X) (R("3.0") (-) (R("4.0") (\X) e)) (\X) r2 (\X) k.v2),
      Opp(Half (\X) e (\X) (R("13.0") (-) (R("4.0") (\X) e)) (\X) md (\X) k.v2),
      Opp((Two (+) (R("25.0") (\X) e) (+) (Two (\X) Sq(e))) (\X) md (\X) r2)>>
K2Along(k) == LET e == k.eta  md == k.m (/) k.d  f == Opp(Half (\X) k.vr) IN
    <<f (\X) e (\X) (R("15.0") (+) (R("4.0") (\X) e)) (\X) k.v2,
      Opp(f (\X) (R("4.0") (+) (R("41.0") (\X) e) (+) (R("8.0") (\X) Sq(e))) (\X) md),
      Opp(f (\X) R("3.0") (\X) e (\X) (R("3.0") (+) (Two (\X) e)) (\X) Sq(k.vr))>>
K2Pre(k, var) == IF var = "known" THEN K1Pre(k) ELSE K1Pre(k) (/) Light2
Kidder2(k, var) == VAdd(VScale(K2Pre(k, var) (\X) SumR(K2Radial(k)), k.n), VScale(K2Pre(k, var) (\X) SumR(K2Along(k)), k.v))
Kidder2Size(k, var) == Abs(K2Pre(k, var)) (\X) (AbsSum(K2Radial(k)) (+) (AbsSum(K2Along(k)) (\X) Sqrt(k.v2)))
(* spin-orbit coupling, equation 2.2c; the spins are spin angular momenta *)
SOPre(k, var) == IF var = "known" THEN G (/) Light2 ELSE G (/) (Light2 (\X) Cube(k.d))
SpinSum(b, h, i) == VAdd(b[h].L, b[i].L)
SpinDiff(b, h, i) == VScale(b[h].m (-) b[i].m, VSub(VScale(One (/) b[i].m, b[i].L), VScale(One (/) b[h].m, b[h].L)))   \* (dm/m) Delta
SpinOrbit(b, h, i, k, var) ==
    LET s == SpinSum(b, h, i)  d == SpinDiff(b, h, i)
        w == Cross(k.n, k.v)  u == VAdd(VScale(Two, s), d)
        t1 == IF var = "known" THEN <<R("6.0") (\X) k.n[1] (\X) w[1] (\X) u[1], R("6.0") (\X) k.n[2] (\X) w[2] (\X) u[2], R("6.0") (\X) k.n[3] (\X) w[3] (\X) u[3]>>
              ELSE VScale(R("6.0") (\X) Dot(w, u), k.n)
        t2 == Cross(k.v, VAdd(VScale(R("7.0"), s), VScale(R("3.0"), d)))
        t3 == VScale(R("3.0") (\X) k.vr, Cross(k.n, VAdd(VScale(R("3.0"), s), d)))
    IN VScale(SOPre(k, var), VAdd(VSub(t1, t2), t3))
SpinOrbitSize(b, h, i, k, var) == LET s == Norm(b[h].L) (+) Norm(b[i].L)  d == (b[h].m (+) b[i].m) (\X) ((Norm(b[i].L) (/) b[i].m) (+) (Norm(b[h].L) (/) b[h].m)) IN
    SOPre(k, var) (\X) Sqrt(k.v2) (\X) ((R("28.0") (\X) s) (+) (R("12.0") (\X) d))
KidderAcc(b, h, i, var) == LET k == KP(b, h, i) IN VAdd(Kidder1(k), VAdd(Kidder2(k, var), SpinOrbit(b, h, i, k, var)))
KidderAccSize(b, h, i, var) == LET k == KP(b, h, i) IN Kidder1Size(k) (+) Kidder2Size(k, var) (+) SpinOrbitSize(b, h, i, k, var)
(* precession of spin i by body j, equations 2.4; orbital angular momentum of the pair *)
PairL(b, i, j) == VScale((b[i].m (\X) b[j].m) (/) (b[i].m (+) b[j].m), Cross(RelX(b, i, j), RelV(b, i, j)))
Precession(b, i, j, k, var) ==
    LET f == Two (+) (R("1.5") (\X) (b[j].m (/) b[i].m)) IN
    VScale(SOPre(k, var), VAdd(VSub(VScale(f, Cross(PairL(b, i, j), b[i].L)), Cross(b[j].L, b[i].L)),
                               VScale(R("3.0") (\X) Dot(k.n, b[j].L), Cross(k.n, b[i].L))))
PrecessionSize(b, i, j, k, var) ==
    LET f == Two (+) (R("1.5") (\X) (b[j].m (/) b[i].m)) IN
    SOPre(k, var) (\X) Norm(b[i].L) (\X) ((f (\X) (((b[i].m (\X) b[j].m) (/) (b[i].m (+) b[j].m)) (\X) k.d (\X) Sqrt(k.v2))) (+) (R("4.0") (\X) Norm(b[j].L)))
KidderTorque(c, b, h, i, var) ==
    IF i = h THEN SumOverV(GROrbiting(c), LAMBDA j : Precession(b, h, j, KP(b, h, j), var))
    ELSE IF c[i].gr.role = "orbiting" THEN Precession(b, i, h, KP(b, h, i), var) ELSE Vec0
KidderTorqueSize(c, b, h, i, var) ==
    IF i = h THEN SumOver(GROrbiting(c), LAMBDA j : PrecessionSize(b, h, j, KP(b, h, j), var))
    ELSE IF c[i].gr.role = "orbiting" THEN PrecessionSize(b, i, h, KP(b, h, i), var) ELSE Zero

(* ============================= Anderson 1975 ============================= *)
(* in Jacobi coordinates of the bodies with relativity, given the Newtonian      *)
(* accelerations a of all bodies                                                 *)
RECURSIVE AGamma(_, _, _, _)
AGamma(v, mu, d, k) ==               \* fixed point of A = (v^2/(2 (1-A)^2) + 3 mu/d)/c^2
    IF k = 0 THEN ((Half (\X) Norm2(v)) (+) (R("3.0") (\X) (mu (/) d))) (/) Light2
    ELSE LET p == AGamma(v, mu, d, k - 1) IN ((Half (\X) (Norm2(v) (/) Sq(One (-) p))) (+) (R("3.0") (\X) (mu (/) d))) (/) Light2
AndersonJ(mu, x, v, a) ==
    LET d == Norm(x)  A == TLCEval(AGamma(v, mu, d, 10))
        w == VScale(One (/) (One (-) A), v)
        B == (((mu (/) d) (-) (R("1.5") (\X) Norm2(w))) (\X) (mu (/) Cube(d))) (/) Light2
        wd == VAdd(a, VScale(B, x))
        D == (Dot(w, wd) (-) (R("3.0") (\X) (mu (/) Cube(d)) (\X) Dot(x, v))) (/) Light2
    IN VSub(VSub(VScale(B (\X) (One (-) A), x), VScale(A, a)), VScale(D, w))
AndersonJSize(mu, x, v, a) == LET d == Norm(x)  e == (Norm2(v) (+) (mu (/) d)) (/) Light2 IN R("10.0") (\X) e (\X) (Norm(a) (+) (mu (/) Sq(d)))
(* mass and centre of the host and the first k bodies of o *)
CenMass(b, h, o, k) == b[h].m (+) SumR([j \in 1..k |-> b[o[j]].m])
Cen(b, h, o, k, X(_)) == VScale(One (/) CenMass(b, h, o, k), VAdd(VScale(b[h].m, X(h)), SumV([j \in 1..k |-> VScale(b[o[j]].m, X(o[j]))])))
JacobiOf(b, h, o, X(_)) == [k \in 1..Len(o) |-> VSub(X(o[k]), Cen(b, h, o, k - 1, X))]
RECURSIVE UnJacobi(_, _, _, _, _, _, _)
UnJacobi(b, h, o, q, k, cm, acc) ==
    IF k = 0 THEN [acc EXCEPT ![h] = cm]
    ELSE LET cmk == TLCEval(VSub(cm, VScale(b[o[k]].m (/) CenMass(b, h, o, k), q[k]))) IN
         UnJacobi(b, h, o, q, k - 1, cmk, TLCEval([acc EXCEPT ![o[k]] = VAdd(cmk, q[k])]))
AndersonAll(c, b, h, a) ==
    LET o == GROrbiting(c)  mu == G (\X) b[h].m
        jx == TLCEval(JacobiOf(b, h, o, LAMBDA j : b[j].x))  jv == TLCEval(JacobiOf(b, h, o, LAMBDA j : b[j].v))  ja == TLCEval(JacobiOf(b, h, o, LAMBDA j : a[j]))
        q == TLCEval([k \in 1..Len(o) |-> AndersonJ(mu, jx[k], jv[k], ja[k])])
    IN UnJacobi(b, h, o, q, Len(o), Vec0, [i \in 1..Len(b) |-> Vec0])
AndersonSize(c, b, h, a) ==
    LET o == GROrbiting(c)  mu == G (\X) b[h].m
        jx == TLCEval(JacobiOf(b, h, o, LAMBDA j : b[j].x))  jv == TLCEval(JacobiOf(b, h, o, LAMBDA j : b[j].v))  ja == TLCEval(JacobiOf(b, h, o, LAMBDA j : a[j]))
        q == TLCEval([k \in 1..Len(o) |-> AndersonJSize(mu, jx[k], jv[k], ja[k])])
        host == SumR([k \in 1..Len(o) |-> (b[o[k]].m (/) b[h].m) (\X) q[k]])
    IN [i \in 1..Len(b) |-> IF i = h THEN host ELSE IF \E k \in 1..Len(o) : o[k] = i THEN host (+) q[CHOOSE k \in 1..Len(o) : o[k] = i] ELSE Zero]

(* ============================== Newhall 1983 ============================== *)
(* every pair of bodies of which at least one takes part; acc is what the bodies *)
(* accelerate with (Newtonian, or Newtonian plus relativistic)                    *)
Takes(c, i) == c[i].gr.role # "none"
NewhallTerm(b, i, j, acc) ==
    LET x == RelX(b, i, j)  d == Norm(x)  gm == G (\X) b[j].m
        pi == SumOver(Others(b, i), LAMBDA k : (G (\X) b[k].m) (/) Dist(b, i, k))
        pj == SumOver(Others(b, j), LAMBDA k : (G (\X) b[k].m) (/) Dist(b, j, k))
        f == (R("4.0") (\X) pi) (+) pj (-) Norm2(b[i].v) (-) (Two (\X) Norm2(b[j].v)) (+) (R("4.0") (\X) Dot(b[i].v, b[j].v)) (+) (R("1.5") (\X) Sq(Dot(x, b[j].v) (/) d))
        g == Dot(x, VSub(VScale(R("4.0"), b[i].v), VScale(R("3.0"), b[j].v)))
    IN VScale(One (/) Light2,
        VAdd(VScale((gm (/) Cube(d)) (\X) (f (+) (Half (\X) Dot(x, acc[j]))), x),
        VAdd(VScale((gm (/) Cube(d)) (\X) g, VSub(b[i].v, b[j].v)), VScale(R("3.5") (\X) (gm (/) d), acc[j]))))
NewhallTermSize(b, i, j, acc) ==
    LET d == Dist(b, i, j)  gm == G (\X) b[j].m
        pi == SumOver(Others(b, i), LAMBDA k : (G (\X) b[k].m) (/) Dist(b, i, k))
        pj == SumOver(Others(b, j), LAMBDA k : (G (\X) b[k].m) (/) Dist(b, j, k))
        v2 == Norm2(b[i].v) (+) Norm2(b[j].v)
    IN (gm (/) (Light2 (\X) Sq(d))) (\X) ((R("4.0") (\X) (pi (+) pj)) (+) (R("20.0") (\X) v2) (+) (R("4.0") (\X) d (\X) Norm(acc[j])))
NewhallFor(c, b, acc, i) == LET js == SelectSeq(Others(b, i), LAMBDA j : Takes(c, i) \/ Takes(c, j)) IN SumOverV(js, LAMBDA j : NewhallTerm(b, i, j, acc))
NewhallAll(c, b, a) == [i \in 1..Len(b) |-> IF Takes(c, i) THEN NewhallFor(c, b, a, i) ELSE Vec0]
NewhallSize(c, b, a) == [i \in 1..Len(b) |-> IF Takes(c, i) THEN SumOver(Others(b, i), LAMBDA j : NewhallTermSize(b, i, j, a)) ELSE Zero]
(* what the next substitution of accelerations into the right-hand side can change *)
NewhallNext(c, b, a) == LET z == TLCEval(NewhallSize(c, b, a)) IN
    [i \in 1..Len(b) |-> SumOver(Others(b, i), LAMBDA j : R("4.0") (\X) ((G (\X) b[j].m) (/) (Light2 (\X) Dist(b, i, j))) (\X) Max(z[j], z[i]))]

(* Newtonian accelerations: of the current positions *)
Newton(b) == LET h == MostMassive(b) IN [i \in 1..Len(b) |-> GravAcc(b, "none", h, i)]
(* or of older positions (a, the part not ignored) plus the ignored terms *)
NewtonOld(b, a, mode) == LET h == MostMassive(b) IN [i \in 1..Len(b) |-> VAdd(a[i], VSub(GravAcc(b, "none", h, i), GravAcc(b, mode, h, i)))]
(* ============================== all of them ============================== *)
GRAcc(c, b, newt, var) ==
    LET h == Central(c, "gr")  impl == GRImpl(c) IN
    CASE impl = "kidder" -> LET a == TLCEval([i \in 1..Len(b) |-> IF c[i].gr.role = "orbiting" THEN KidderAcc(b, h, i, var) ELSE Vec0]) IN
             [a EXCEPT ![h] = VScale(Opp(One (/) b[h].m), SumOverV(GROrbiting(c), LAMBDA j : VScale(b[j].m, a[j])))]
      [] impl = "anderson" -> AndersonAll(c, b, h, newt)
      [] impl = "newhall" -> NewhallAll(c, b, newt)
      [] OTHER -> [i \in 1..Len(b) |-> Vec0]
GRAccSize(c, b, newt, var) ==
    LET h == Central(c, "gr")  impl == GRImpl(c) IN
    CASE impl = "kidder" -> LET a == TLCEval([i \in 1..Len(b) |-> IF c[i].gr.role = "orbiting" THEN KidderAccSize(b, h, i, var) ELSE Zero]) IN
             [a EXCEPT ![h] = SumOver(GROrbiting(c), LAMBDA j : (b[j].m (/) b[h].m) (\X) a[j])]
      [] impl = "anderson" -> AndersonSize(c, b, h, newt)
      [] impl = "newhall" -> NewhallSize(c, b, newt)
      [] OTHER -> [i \in 1..Len(b) |-> Zero]
(* what may be left to the next substitution *)
GRSlack(c, b, newt) == IF GRImpl(c) = "newhall" THEN NewhallNext(c, b, newt) ELSE [i \in 1..Len(b) |-> Zero]
GRTorque(c, b, i, var) == IF GRImpl(c) = "kidder" THEN KidderTorque(c, b, Central(c, "gr"), i, var) ELSE Vec0
GRTorqueSize(c, b, i, var) == IF GRImpl(c) = "kidder" THEN KidderTorqueSize(c, b, Central(c, "gr"), i, var) ELSE Zero
=============================================================================
