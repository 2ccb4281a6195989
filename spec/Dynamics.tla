------------------------------ MODULE Dynamics ------------------------------
(* The full equations of motion and the three integrators as maps on states.    *)
(* A system S has the declared bodies c, the enabled effects eff and the raw     *)
(* tables of evolving bodies; a state is a sequence of bodies as observed.       *)
EXTENDS Integers, Sequences, TLC, Effects, Relativity, Evolve, Kepler

(* ---- bodies at time t: evolving quantities follow their tables ---- *)
Tables(S) == [i \in 1..Len(S.c) |-> IF S.eff.evol /\ S.c[i].evol.type # "none" THEN TLCEval(TableOf(S.c[i].evol, S.raw[i], S.aux, S.t0)) ELSE <<>>]
AtTime(S, b, t) ==
    [i \in 1..Len(b) |->
       IF S.eff.evol /\ S.c[i].evol.type # "none"
       THEN LET tb == S.tab[i]
                nr == Interp(tb.time, tb.radius, t)
                ng == IF tb.rg2 = <<>> THEN b[i].rg2 ELSE Interp(tb.time, tb.rg2, t)
                q == [b[i] EXCEPT !.r = nr, !.rg2 = ng, !.k2 = IF tb.love = <<>> \/ S.c[i].tides.model # "ctl" \/ S.c[i].tides.role = "none" THEN @ ELSE Interp(tb.time, tb.love, t)]
            IN [q EXCEPT !.lag = IF tb.q = <<>> THEN Zero ELSE LagAngle(tb, q, t)]
       ELSE b[i]]

(* ---- additional effects: accelerations, torques and the size of their terms ---- *)
OnTides(S) == S.eff.tides /\ HasCentral(S.c, "tides")
OnFlat(S) == S.eff.flat /\ HasCentral(S.c, "flat")
OnDisk(S) == S.eff.disk /\ HasCentral(S.c, "disk")
OnGR(S) == S.eff.gr /\ HasCentral(S.c, "gr")
(* Newtonian accelerations for relativity: of these positions, unless S carries older ones *)
NewtonFor(S, b) == IF GRImpl(S.c) = "kidder" THEN <<>> ELSE IF S.old = <<>> THEN Newton(b) ELSE NewtonOld(b, S.old, S.mode)
IsIn(seq, i) == \E k \in 1..Len(seq) : seq[k] = i
(* pair forces F[i] on the orbiting bodies orb; the host gets the opposite *)
Paired(b, h, orb, F, i) ==
    IF i = h THEN VScale(Opp(One (/) b[h].m), SumOverV(orb, LAMBDA j : F[j]))
    ELSE IF IsIn(orb, i) THEN VScale(One (/) b[i].m, F[i]) ELSE Vec0
PairedS(b, h, orb, F, i) ==
    IF i = h THEN SumOver(orb, LAMBDA j : F[j]) (/) b[h].m
    ELSE IF IsIn(orb, i) THEN F[i] (/) b[i].m ELSE Zero
ForcesOf(b, orb, F(_)) == TLCEval([i \in 1..Len(b) |-> IF IsIn(orb, i) THEN F(i) ELSE Vec0])
SizesOf(b, orb, F(_)) == TLCEval([i \in 1..Len(b) |-> IF IsIn(orb, i) THEN F(i) ELSE Zero])
EffAcc(S, b, t) ==
    LET c == S.c  n == Len(b)
        ht == IF OnTides(S) THEN Central(c, "tides") ELSE 0
        hf == IF OnFlat(S) THEN Central(c, "flat") ELSE 0
        hd == IF OnDisk(S) THEN Central(c, "disk") ELSE 0
        ft == IF ht = 0 THEN <<>> ELSE ForcesOf(b, CTLOrbiting(c), LAMBDA i : CTLForce(c, b, ht, i))
        ff == IF hf = 0 THEN <<>> ELSE ForcesOf(b, FlatOrbiting(c), LAMBDA i : FlatForce(c, b, hf, i))
        fd == IF hd = 0 THEN <<>> ELSE ForcesOf(b, OrbitingSeq(c, "disk"), LAMBDA i : DiskForce(c[hd].disk, b, hd, i, t))
        gr == TLCEval(IF OnGR(S) THEN GRAcc(c, b, TLCEval(NewtonFor(S, b)), "published") ELSE [i \in 1..n |-> Vec0])
    IN [i \in 1..n |->
         VAdd(gr[i], VAdd(IF ht = 0 THEN Vec0 ELSE Paired(b, ht, CTLOrbiting(c), ft, i),
         VAdd(IF hf = 0 THEN Vec0 ELSE Paired(b, hf, FlatOrbiting(c), ff, i),
              IF hd = 0 THEN Vec0 ELSE Paired(b, hd, OrbitingSeq(c, "disk"), fd, i))))]
EffAccSize(S, b, t) ==
    LET c == S.c  n == Len(b)
        ht == IF OnTides(S) THEN Central(c, "tides") ELSE 0
        hf == IF OnFlat(S) THEN Central(c, "flat") ELSE 0
        hd == IF OnDisk(S) THEN Central(c, "disk") ELSE 0
        ft == IF ht = 0 THEN <<>> ELSE SizesOf(b, CTLOrbiting(c), LAMBDA i : CTLForceScale(c, b, ht, i))
        ff == IF hf = 0 THEN <<>> ELSE SizesOf(b, FlatOrbiting(c), LAMBDA i : FlatForceScale(c, b, hf, i))
        fd == IF hd = 0 THEN <<>> ELSE SizesOf(b, OrbitingSeq(c, "disk"), LAMBDA i : DiskForceScale(c[hd].disk, b, hd, i, t))
        gr == TLCEval(IF OnGR(S) THEN GRAccSize(c, b, TLCEval(NewtonFor(S, b)), "published") ELSE [i \in 1..n |-> Zero])
    IN [i \in 1..n |-> gr[i] (+) (IF ht = 0 THEN Zero ELSE PairedS(b, ht, CTLOrbiting(c), ft, i))
                   (+) (IF hf = 0 THEN Zero ELSE PairedS(b, hf, FlatOrbiting(c), ff, i))
                   (+) (IF hd = 0 THEN Zero ELSE PairedS(b, hd, OrbitingSeq(c, "disk"), fd, i))]
EffTor(S, b, t) ==
    [i \in 1..Len(b) |->
       VAdd(IF OnTides(S) THEN CTLTorque(S.c, b, Central(S.c, "tides"), i) ELSE Vec0,
       VAdd(IF OnFlat(S) THEN FlatTorque(S.c, b, Central(S.c, "flat"), i) ELSE Vec0,
            IF S.eff.wind THEN WindTorque(S.c, b, i) ELSE Vec0))]
EffTorSize(S, b, t) ==
    [i \in 1..Len(b) |->
       (IF OnTides(S) THEN CTLTorqueScale(S.c, b, Central(S.c, "tides"), i) ELSE Zero)
       (+) (IF OnFlat(S) THEN FlatTorqueScale(S.c, b, Central(S.c, "flat"), i) ELSE Zero)
       (+) (IF S.eff.wind THEN Norm(WindTorque(S.c, b, i)) ELSE Zero)]

(* ---- moving states ---- *)
Kick(b, h, a) == [i \in 1..Len(b) |-> [b[i] EXCEPT !.v = VAdd(@, VScale(h, a[i]))]]
Twist(b, h, q) == [i \in 1..Len(b) |-> [b[i] EXCEPT !.L = VAdd(@, VScale(h, q[i]))]]
Move(b, h) == [i \in 1..Len(b) |-> [b[i] EXCEPT !.x = VAdd(@, VScale(h, b[i].v))]]
TotalAcc(S, b, t) == LET e == TLCEval(EffAcc(S, b, t)) h == MostMassive(b) IN [i \in 1..Len(b) |-> VAdd(GravAcc(b, "none", h, i), e[i])]
(* what rounding may do to an acceleration: gravity is summed with all digits *)
AccRounding(S, b, t) == LET e == TLCEval(EffAccSize(S, b, t)) h == MostMassive(b)
                            s == TLCEval(IF OnGR(S) THEN GRSlack(S.c, b, NewtonFor(S, b)) ELSE [i \in 1..Len(b) |-> Zero]) IN
    [i \in 1..Len(b) |-> s[i] (+) (R("2e-14") (\X) GravScale(b, "none", h, i)) (+) (R("1e-10") (\X) e[i])]
TorRounding(S, b, t) == LET e == TLCEval(EffTorSize(S, b, t)) IN [i \in 1..Len(b) |-> R("1e-10") (\X) e[i]]

(* ============================== LeapFrog ============================== *)
LeapFrogStep(S, b, t, h) ==
    LET hh == h (\X) Half
        b0 == TLCEval(AtTime(S, b, t))
        q0 == TLCEval(EffTor(S, b0, t))
        b1 == TLCEval(AtTime(S, TLCEval(Twist(Move(b0, hh), hh, q0)), t (+) hh))
        a == TLCEval(TotalAcc(S, b1, t (+) hh))
        q1 == TLCEval(EffTor(S, b1, t (+) hh))
        b2 == TLCEval(Move(TLCEval(Kick(b1, h, a)), hh))
    IN [b |-> TLCEval(Twist(b2, hh, q1)),
        ea |-> TLCEval(AccRounding(S, b1, t (+) hh)), eq |-> TLCEval(TorRounding(S, b1, t (+) hh))]

(* =============================== WHFast =============================== *)
Orbits(b) == LET h == MostMassive(b) IN Others(b, h)
(* mass of the host and the first k orbiting bodies *)
Eta(b, k) == LET o == Orbits(b) IN b[MostMassive(b)].m (+) SumR([j \in 1..k |-> b[o[j]].m])
(* relative to the centre of mass of the host and the first k orbiting bodies *)
Cm(b, k, X(_)) == LET h == MostMassive(b) o == Orbits(b) IN
    VScale(One (/) Eta(b, k), VAdd(VScale(b[h].m, X(h)), SumV([j \in 1..k |-> VScale(b[o[j]].m, X(o[j]))])))
ToJacobi(b, X(_)) == LET o == Orbits(b) IN [k \in 1..Len(o) |-> VSub(X(o[k]), Cm(b, k - 1, X))]
(* inverse: the centre of mass of all is at c *)
RECURSIVE FromJacobiRec(_, _, _, _, _)
FromJacobiRec(b, q, k, cm, acc) ==          \* cm: centre of mass of host and first k bodies
    IF k = 0 THEN <<cm, acc>>
    ELSE LET o == Orbits(b)
             cmk == TLCEval(VSub(cm, VScale(b[o[k]].m (/) Eta(b, k), q[k])))
             xk == TLCEval(VAdd(cmk, q[k]))
         IN FromJacobiRec(b, q, k - 1, cmk, TLCEval([acc EXCEPT ![o[k]] = xk]))
FromJacobi(b, q, c) == LET f == FromJacobiRec(b, q, Len(q), c, [i \in 1..Len(b) |-> Vec0]) IN [f[2] EXCEPT ![MostMassive(b)] = f[1]]
(* inverse of canonical heliocentric positions q and velocities p (barycentric) *)
FromHelioX(b, q, c) == LET h == MostMassive(b) o == Orbits(b)
                           xh == VSub(c, VScale(One (/) MassSum(b), SumV([k \in 1..Len(o) |-> VScale(b[o[k]].m, q[k])]))) IN
    [i \in 1..Len(b) |-> IF i = h THEN xh ELSE VAdd(xh, q[CHOOSE k \in 1..Len(o) : o[k] = i])]
FromBaryV(b, p, c) == LET h == MostMassive(b) o == Orbits(b) IN
    [i \in 1..Len(b) |-> IF i = h THEN VSub(c, VScale(One (/) b[h].m, SumV([k \in 1..Len(o) |-> VScale(b[o[k]].m, p[k])])))
                         ELSE VAdd(c, p[CHOOSE k \in 1..Len(o) : o[k] = i])]

(* implicit midpoint for the velocity-dependent effects at fixed positions; the    *)
(* evolving quantities do not change within a step                                 *)
RECURSIVE MidIter(_, _, _, _, _, _)
MidIter(S, b, t, h, f, k) ==
    IF k = 0 THEN f
    ELSE LET m == TLCEval([i \in 1..Len(b) |-> [b[i] EXCEPT !.v = VScale(Half, VAdd(@, f[i].v)), !.L = VScale(Half, VAdd(@, f[i].L))]])
             a == TLCEval(EffAcc(S, m, t))
             q == TLCEval(EffTor(S, m, t))
         IN MidIter(S, b, t, h, TLCEval(Twist(Kick(b, h, a), h, q)), k - 1)
Midpoint(S, b, t, h) == MidIter(S, b, t, h, b, 10)
NoEffects(S) == ~(S.eff.tides \/ S.eff.flat \/ S.eff.disk \/ S.eff.wind \/ S.eff.gr)

(* half a step of two-body motions (and of the remaining linear motion), a kick by   *)
(* the remaining interactions, half a step of motions                                *)
WHCore(b, coord, h) ==
    LET hh == h (\X) Half  hi == MostMassive(b)  o == Orbits(b)  n == Len(o)  m0 == b[hi].m
        cx == TLCEval(CoM(b, LAMBDA j : b[j].x))  cv == TLCEval(CoM(b, LAMBDA j : b[j].v))
        mode == IF coord = "jacobi" THEN "one" ELSE "two"
        mk(k) == b[o[k]].m
        w(k) == IF coord = "whds" THEN (m0 (+) mk(k)) (/) m0 ELSE One          \* velocity factor of WHDS
        mu(k) == G (\X) (IF coord = "jacobi" THEN Eta(b, k) ELSE IF coord = "whds" THEN m0 (+) mk(k) ELSE m0)
        q0 == TLCEval(IF coord = "jacobi" THEN ToJacobi(b, LAMBDA j : b[j].x) ELSE [k \in 1..n |-> VSub(b[o[k]].x, b[hi].x)])
        p0 == TLCEval(IF coord = "jacobi" THEN ToJacobi(b, LAMBDA j : b[j].v) ELSE [k \in 1..n |-> VScale(w(k), VSub(b[o[k]].v, cv))])
        kep(q, p) == TLCEval([k \in 1..n |-> Drift(mu(k), q[k], p[k], hh)])
        \* motion of the origin of heliocentric coordinates
        part(p, k) == VScale(IF coord = "whds" THEN mk(k) (/) (m0 (+) mk(k)) ELSE mk(k) (/) m0, p[k])
        jump(q, p) == IF coord = "jacobi" THEN q
                      ELSE LET tot == TLCEval(SumV([k \in 1..n |-> part(p, k)])) IN
                           TLCEval([k \in 1..n |-> VAdd(q[k], VScale(hh, IF coord = "whds" THEN VSub(tot, part(p, k)) ELSE tot))])
        back(q, p, c) == LET xs == TLCEval(IF coord = "jacobi" THEN FromJacobi(b, q, c) ELSE FromHelioX(b, q, c))
                             ps == TLCEval([k \in 1..n |-> VScale(One (/) w(k), p[k])])
                             vs == TLCEval(IF coord = "jacobi" THEN FromJacobi(b, p, cv) ELSE FromBaryV(b, ps, cv))
                         IN TLCEval([i \in 1..Len(b) |-> [b[i] EXCEPT !.x = xs[i], !.v = vs[i]]])
        d1 == kep(q0, p0)
        p1 == TLCEval([k \in 1..n |-> d1[k].v])
        q1 == TLCEval(jump([k \in 1..n |-> d1[k].x], p1))
        c1 == TLCEval(VAdd(cx, VScale(hh, cv)))
        b1 == back(q1, p1, c1)
        g == TLCEval([i \in 1..Len(b) |-> GravAcc(b1, mode, hi, i)])
        ja == TLCEval(IF coord = "jacobi" THEN ToJacobi(b1, LAMBDA j : g[j]) ELSE [k \in 1..n |-> VScale(w(k), g[o[k]])])
        \* in Jacobi coordinates the Kepler motions of all but the first body are taken out of the interactions
        extra(k) == IF coord = "jacobi" /\ k > 1 THEN VScale((G (\X) Eta(b, k)) (/) Cube(Norm(q1[k])), q1[k]) ELSE Vec0
        p2 == TLCEval([k \in 1..n |-> VAdd(p1[k], VScale(h, VAdd(ja[k], extra(k))))])
        q2 == jump(q1, p2)
        d3 == kep(q2, p2)
        c2 == TLCEval(VAdd(cx, VScale(h, cv)))
    IN [b |-> back([k \in 1..n |-> d3[k].x], [k \in 1..n |-> d3[k].v], c2),
        g |-> g,
        soft |-> SumR([k \in 1..n |-> IF coord = "jacobi" /\ k > 1 THEN (G (\X) Eta(b, k)) (/) PowI(Norm(q1[k]), 4) ELSE Zero])]

(* older: relativity gets the Newtonian accelerations of the last kick, as carried by  *)
(* the bodies, instead of those of the current positions (see known_findings.json)      *)
WHFastStep(S, b, t, h, coord, older) ==
    LET hh == h (\X) Half
        mode == IF coord = "jacobi" THEN "one" ELSE "two"
        b0 == TLCEval(AtTime(S, b, t))
        S1 == IF older THEN [S EXCEPT !.old = [i \in 1..Len(b) |-> b[i].a], !.mode = mode] ELSE S
        b1 == TLCEval(IF NoEffects(S) THEN b0 ELSE Midpoint(S1, b0, t, hh))
        k == TLCEval(WHCore(b1, coord, h))
        S2 == IF older THEN [S EXCEPT !.old = k.g, !.mode = mode] ELSE S
        b2 == TLCEval(IF NoEffects(S) THEN k.b ELSE Midpoint(S2, k.b, t, hh))
    IN [b |-> b2, soft |-> k.soft, ea |-> TLCEval(AccRounding(S, k.b, t)), eq |-> TLCEval(TorRounding(S, k.b, t))]

(* ======================= reference solution (for IAS15) ======================= *)
(* Gragg-Bulirsch-Stoer extrapolation of the modified midpoint rule                *)
Rates(S, y, t) == LET b == TLCEval(AtTime(S, y, t)) a == TLCEval(TotalAcc(S, b, t)) q == TLCEval(EffTor(S, b, t)) IN
    [i \in 1..Len(y) |-> [x |-> y[i].v, v |-> a[i], L |-> q[i]]]
(* changes z since the start are carried instead of states: fewer roundings *)
Moved(y, z) == [i \in 1..Len(y) |-> [y[i] EXCEPT !.x = VAdd(@, z[i].x), !.v = VAdd(@, z[i].v), !.L = VAdd(@, z[i].L)]]
Along(z, h, d) == [i \in 1..Len(z) |-> [x |-> VAdd(z[i].x, VScale(h, d[i].x)), v |-> VAdd(z[i].v, VScale(h, d[i].v)), L |-> VAdd(z[i].L, VScale(h, d[i].L))]]
RECURSIVE MidRule(_, _, _, _, _, _, _, _)
MidRule(S, y, z0, z1, t, h, m, n) ==           \* z0, z1 at substeps m - 1, m
    LET d == TLCEval(Rates(S, TLCEval(Moved(y, z1)), t (+) (OfInt(m) (\X) h))) IN
    IF m = n THEN TLCEval([i \in 1..Len(z1) |-> LET e(f) == VScale(Half, VAdd(VAdd(z0[i][f], z1[i][f]), VScale(h, d[i][f]))) IN [x |-> e("x"), v |-> e("v"), L |-> e("L")]])
    ELSE MidRule(S, y, z1, TLCEval(Along(z0, h (\X) Two, d)), t, h, m + 1, n)
Gragg(S, b, t, h, n) == LET hs == TLCEval(h (/) OfInt(n)) d == TLCEval(Rates(S, b, t)) z == [i \in 1..Len(b) |-> [x |-> Vec0, v |-> Vec0, L |-> Vec0]] IN
    MidRule(S, b, z, TLCEval(Along(z, hs, d)), t, hs, 1, n)
Blend(u, w, k) == \* u + (u - w)*k
    [i \in 1..Len(u) |-> LET e(f) == VAdd(u[i][f], VScale(k, VSub(u[i][f], w[i][f]))) IN [x |-> e("x"), v |-> e("v"), L |-> e("L")]]
(* row j of the extrapolation tableau from the previous row *)
RECURSIVE Row(_, _, _)
Row(prev, row, j) ==
    LET k == Len(row) IN           \* columns 1..k done
    IF k = j THEN row
    ELSE LET f == Sq(OfInt(j) (/) OfInt(j - k)) (-) One
         IN Row(prev, Append(row, TLCEval(Blend(row[k], prev[k], One (/) f))), j)
RECURSIVE Tableau(_, _, _, _, _, _, _)
Tableau(S, b, t, h, prev, j, cols) ==
    LET row == Row(prev, <<Gragg(S, b, t, h, 2 * j)>>, j) IN
    IF j = cols THEN row[cols] ELSE Tableau(S, b, t, h, row, j + 1, cols)
Change(S, b, t, h) == Tableau(S, b, t, h, <<>>, 1, 9)
Joined(u, w) == [i \in 1..Len(u) |-> [x |-> VAdd(u[i].x, w[i].x), v |-> VAdd(u[i].v, w[i].v), L |-> VAdd(u[i].L, w[i].L)]]
Reference(S, b, t, h) ==                     \* in two halves
    LET hh == TLCEval(h (\X) Half)
        z1 == TLCEval(Change(S, b, t, hh))
        z2 == TLCEval(Change(S, TLCEval(Moved(b, z1)), t (+) hh, hh))
    IN Moved(b, Joined(z1, z2))
=============================================================================
