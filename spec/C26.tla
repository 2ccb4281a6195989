-------------------------------- MODULE C26 --------------------------------
(* The analysis of a history: what the Python analysis package reports about a    *)
(* sequence of snapshots is what the snapshots say.                                *)
EXTENDS OrbitTrace, FiniteSets

E(r, k) == Ev(r)[k]
Rad(d) == d (\X) (Pi (/) R("180.0"))
Year == R("365.25")

(* ---- sorting a history by body ---- *)
(* bodies 0..n-1 in every snapshot; those other than the reference, in order *)
RECURSIVE Besides(_, _, _)
Besides(n, ref, i) == IF i = n THEN <<>> ELSE (IF i = ref THEN <<>> ELSE <<i>>) \o Besides(n, ref, i + 1)
Kept(o) == SelectSeq(o.snaps, LAMBDA s : ~o.disc \/ ~((s.t (/) Year) \prec R("100.0")))
Rel(b, c) == [x |-> VSub(b.x, c.x), v |-> VSub(b.v, c.v)]
RECURSIVE Centre(_, _, _, _)
(* total mass and first moments of the bodies ids, seen from body c *)
Centre(b, ids, c, j) ==
    IF j = 0 THEN [m |-> Zero, x |-> Vec0, v |-> Vec0]
    ELSE LET p == TLCEval(Centre(b, ids, c, j - 1))  q == b[ids[j] + 1]  d == Rel(q, c) IN
         [m |-> p.m (+) q.m, x |-> VAdd(p.x, VScale(q.m, d.x)), v |-> VAdd(p.v, VScale(q.m, d.v))]
Row(r, k, s, ref, i, ids, z) ==
    LET b == s.b[i + 1]  c == s.b[ref + 1]  d == Rel(b, c)
        g == TLCEval(Centre(s.b, SelectSeq(ids, LAMBDA j : j # i) \o <<ref>>, c, Len(ids)))
        cx == VScale(One (/) g.m, g.x)  cv == VScale(One (/) g.m, g.v)
        x == VSub(d.x, cx)  v == VSub(d.v, cv)  gm == Cfg(r).G (\X) (g.m (+) b.m)
        far == Norm(b.x) (+) Norm(c.x)  fast == Norm(b.v) (+) Norm(c.v)
        h == Cross(x, v)  e == Norm(EccVec(gm, x, v))
        energy == (Two (/) Norm(x)) (-) (Norm2(v) (/) gm)
        tot == (Two (/) Norm(x)) (+) (Norm2(v) (/) gm)
        \* the conditioning of the state itself
        slip == R("1e-13") (\X) (One (+) (far (/) Norm(x)) (+) (fast (/) Norm(v)) (+) ((Norm2(v) (\X) Norm(x)) (/) gm))
    IN /\ Note(r, k, "time in years", Close(z.t, s.t (/) Year, Abs(z.t), R("1e-14")))
       /\ Note(r, k, "position from the reference body", VClose(z.x, d.x, far, R("1e-14")))
       /\ Note(r, k, "velocity from the reference body", VClose(z.v, d.v, fast, R("1e-14")))
       /\ Note(r, k, "the other columns as recorded", RealEq(z.m, b.m) /\ Len(z.rest) = Len(b.rest) /\ (\A j \in 1..Len(b.rest) : RealEq(z.rest[j], b.rest[j])))
       /\ Note(r, k, "semi-major axis about the other bodies", Close(One (/) (z.a (-) Norm(cx)), energy, tot (\X) (One (+) (Norm(cx) (\X) tot)), slip (\X) R("100.0")))
       /\ Note(r, k, "eccentricity about the other bodies", Close(z.e, e, (slip (/) Max(e, Sqrt(slip))) (+) (IF RealEq(z.e, Zero) THEN R("4e-8") ELSE Zero), R("100.0")))
       /\ Note(r, k, "inclination", Close(Cos(z.i), h[3] (/) Norm(h), One, (slip (\X) R("100.0")) (\X) ((Norm(x) (\X) Norm(v)) (/) Norm(h))))
Classify(r, k) ==
    LET o == E(r, k).args[1]  z == E(r, k).out  ss == TLCEval(Kept(o))  ids == Besides(o.n, o.ref, 0) IN
    /\ Note(r, k, "every other body, by its number", z.keys = ids)
    /\ z.keys = ids =>
       /\ Note(r, k, "one row per snapshot", Len(z.star) = Len(ss) /\ (\A j \in 1..Len(ids) : Len(z.planets[j]) = Len(ss)))
       /\ (Len(z.star) = Len(ss) /\ \A j \in 1..Len(ids) : Len(z.planets[j]) = Len(ss)) =>
          /\ \A q \in 1..Len(ss) :
             LET c == ss[q].b[o.ref + 1]  w == z.star[q] IN
             /\ Note(r, k, "the reference body at rest at the origin", VZero(w.x) /\ VZero(w.v) /\ Close(w.t, ss[q].t (/) Year, Abs(w.t), R("1e-14")))
             /\ Note(r, k, "the reference body's columns as recorded", RealEq(w.m, c.m) /\ (\A j \in 1..Len(c.rest) : RealEq(w.rest[j], c.rest[j])))
             /\ \A j \in 1..Len(ids) : Row(r, k, ss[q], o.ref, ids[j], ids, z.planets[j][q])
    /\ Note(r, k, "the history given is left as it was", z.same)

(* ---- the elements used to look for resonances ---- *)
ResData(r, k) ==
    LET o == E(r, k).args[1]  z == E(r, k).out IN
    \A j \in 1..Len(o.rows) : \A q \in 1..Len(o.rows[j]) :
        LET p == o.rows[j][q]  w == z.rows[j][q]  gm == Cfg(r).G (\X) (o.ms[q] (+) p.m)
            h == Cross(p.x, p.v)  i == Acos(Max(R("-1.0"), Min(One, h[3] (/) Norm(h))))
            deg(a) == Zero \preceq a /\ a \preceq R("360.0")
        IN /\ Note(r, k, "angles within one turn", deg(w.g) /\ deg(w.n) /\ deg(w.M))
           /\ Note(r, k, "time of the row", RealEq(w.t, p.t))
           /\ Note(r, k, "perihelion and aphelion", Close(w.q, w.a (\X) (One (-) w.e), Abs(w.a), R("1e-12")) /\ Close(w.Q, w.a (\X) (One (+) w.e), Abs(w.a), R("1e-12")))
           /\ LET m == IF w.e \prec One /\ Pi \prec Rad(w.M) THEN Rad(w.M) (-) TwoPi ELSE Rad(w.M) IN
              w.e \prec One => ToKep(r, k, gm, p.x, p.v, [a |-> w.a, q |-> w.q, e |-> w.e, i |-> i, p |-> Rad(w.g) (+) Rad(w.n), n |-> Rad(w.n), l |-> m])

(* ---- which resonances are worth testing ---- *)
(* the fractions around x with denominator d *)
Near(x, d) == LET n == ToInt(Floor(x (\X) OfInt(d))) IN {<<n, d>>, <<n + 1, d>>}
Gap(x, f) == Abs(x (-) (OfInt(f[1]) (/) OfInt(f[2])))
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
Reduced(f) == LET g == GCD(f[1], f[2]) IN <<f[1] \div g, f[2] \div g>>
(* (more than one for a ratio half way between two) *)
Best(x, D) ==
    LET near == TLCEval(UNION {Near(x, d) : d \in 1..D})
        least == TLCEval(CHOOSE g \in {TLCEval(Gap(x, f)) : f \in near} : \A f \in near : g \preceq Gap(x, f))
    IN {Reduced(f) : f \in {f \in near : Gap(x, f) \preceq (least (+) R("1e-12"))}}
Possible(o) ==
    LET lo == Max(One, o.ratio (\X) (One (-) o.unc))  hi == o.ratio (\X) (One (+) o.unc)  w == (hi (-) lo) (/) OfInt(o.samp)
    IN {TLCEval(Best(lo (+) (w (\X) OfInt(i)), o.den)) : i \in 0..(o.samp - 1)}
Before(f, g) == f[1] < g[1] \/ (f[1] = g[1] /\ f[2] > g[2])
Resonances(r, k) ==
    LET o == E(r, k).args[1]  z == E(r, k).out.list  s == TLCEval(Possible(o))  got == {z[j] : j \in 1..Len(z)} IN
    /\ Note(r, k, "the fractions nearest to the period ratios in range, up to the limits", 
        /\ Cardinality(got) = Len(z)
        /\ \A f \in got : f[1] <= o.num /\ f \in UNION s
        /\ \A b \in s : (\A f \in b : f[1] <= o.num) => b \cap got # {})
    /\ Note(r, k, "lowest numerator first", \A j \in 1..(Len(z) - 1) : Before(z[j], z[j + 1]))

(* ---- whether a resonant angle librates ---- *)
Into(x, c) ==      \* the same angle, in [c - 180, c + 180]
    LET w == x (-) (R("360.0") (\X) Floor(x (/) R("360.0"))) IN
    IF w \prec (c (-) R("180.0")) THEN w (+) R("360.0") ELSE IF (c (+) R("180.0")) \prec w THEN w (-) R("360.0") ELSE w
Spread(s) == LET n == OfInt(Len(s))  m == TLCEval(SumR(s) (/) n) IN Sqrt(SumR([j \in 1..Len(s) |-> Sq(s[j] (-) m)]) (/) n)
Librates(r, k) ==
    LET o == E(r, k).args[1]  z == E(r, k).out.is  p == o.res[2]  q == o.res[1] - o.res[2]  len == Len(o.gi)
        peri(g, n, j) == g[j] (+) n[j]
        angle(i, j) ==
            LET wi == peri(o.gi, o.ni, j)  wo == peri(o.go, o.no, j) IN
            Into(((OfInt(p + q) (\X) (o.Mo[j] (+) wo)) (-) (OfInt(p) (\X) (o.Mi[j] (+) wi))) (-) (OfInt(i) (\X) wi) (-) (OfInt(q - i) (\X) wo), o.centre)
        sd == TLCEval({TLCEval(Spread([j \in 1..len |-> angle(i, j)])) : i \in 0..q})
    IN Note(r, k, "resonant if the angle with the least spread stays below the threshold",
            \/ \E s \in sd : Close(s, o.thr, o.thr, R("1e-6"))          \* (too close to call)
            \/ z = (\E s \in sd : s \prec o.thr))

(* ---- tidal heating, averaged over the orbit ---- *)
N1(e) == LET u == Sq(e) IN (One (+) (R("15.5") (\X) u) (+) (R("31.875") (\X) Sq(u)) (+) (R("11.5625") (\X) Cube(u)) (+) (R("0.390625") (\X) Sq(Sq(u)))) (/) Pow(One (-) u, R("7.5"))
N2(e) == LET u == Sq(e) IN (One (+) (R("7.5") (\X) u) (+) (R("5.625") (\X) Sq(u)) (+) (R("0.3125") (\X) Cube(u))) (/) Pow(One (-) u, R("6.0"))
NO(e) == LET u == Sq(e) IN (One (+) (R("3.0") (\X) u) (+) (R("0.375") (\X) Sq(u))) (/) Pow(One (-) u, R("4.5"))
Heat(o) ==
    LET n2 == (o.G (\X) (o.mp (+) o.ms)) (/) Cube(o.a)  y == o.w (/) Sqrt(n2)  c == Cos(o.ob)
        k == R("3.0") (\X) o.kt (\X) ((o.G (\X) Sq(o.ms)) (/) o.rp) (\X) Sq(Cube(o.rp (/) o.a)) (\X) n2
    IN [h |-> k (\X) ((N1(o.e) (-) (Two (\X) N2(o.e) (\X) c (\X) y)) (+) (Half (\X) (One (+) Sq(c)) (\X) NO(o.e) (\X) Sq(y))),
        s |-> k (\X) (N1(o.e) (+) (Two (\X) N2(o.e) (\X) Abs(y)) (+) (NO(o.e) (\X) Sq(y)))]
Heating(r, k) ==
    LET o == E(r, k).args[1]  q == TLCEval(Heat(o)) IN
    Note(r, k, "mean tidal heating", Close(E(r, k).out.h, q.h, q.s, R("1e-12")))
(* the mean of what the simulation records over one orbit and over the directions *)
(* the axis can lean to is what the analysis reports                                *)
Mean(r, k) ==
    LET o == E(r, k).args[1]  q == TLCEval(Heat(o)) IN
    /\ Note(r, k, "mean tidal heating", Close(E(r, k).out.h, q.h, q.s, R("1e-12")))
    /\ Note(r, k, "recorded heating averages to the mean tidal heating", Close(SumR(o.de) (/) OfInt(Len(o.de)), q.h, q.s, R("1e-8")))

(* ---- a grid for so many plots ---- *)
Shape(r, k) ==
    LET n == E(r, k).args[1].n  z == E(r, k).out.xy  x == z[1]  y == z[2] IN
    Note(r, k, "room for every plot, as square as possible, no row to spare", x * y >= n /\ x <= y /\ y <= x + 1 /\ (n > 1 => x * (y - 1) < n))

Allowed(r, k) ==
    LET e == E(r, k) IN
    /\ Note(r, k, "no failure", e.res = "ok")
    /\ e.res = "ok" =>
       CASE e.op = "classify" -> Classify(r, k)
         [] e.op = "resdata" -> ResData(r, k)
         [] e.op = "possible" -> Resonances(r, k)
         [] e.op = "isres" -> Librates(r, k)
         [] e.op = "edot" -> Heating(r, k)
         [] e.op = "mean" -> Mean(r, k)
         [] e.op = "shape" -> Shape(r, k)
         [] OTHER -> TRUE
Next == Walk(Allowed)
=============================================================================
