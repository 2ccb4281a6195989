-------------------------------- MODULE C24 --------------------------------
(* Orbital elements and states: both versions of the tools against the orbits.   *)
EXTENDS OrbitTrace
A(r, k) == Ev(r)[k].args[1]
O(r, k) == Ev(r)[k].out

(* ---- about several bodies ---- *)
(* Elements refer to the centre of mass of the bodies in the middle; the size of    *)
(* the orbit is counted from the origin of the coordinates.                          *)
Heart(o) == LET m == SumR(o.ms) IN
    [m |-> m, x |-> VScale(One (/) m, SumV([j \in 1..Len(o.ms) |-> VScale(o.ms[j], o.xs[j])])), v |-> VScale(One (/) m, SumV([j \in 1..Len(o.ms) |-> VScale(o.ms[j], o.vs[j])]))]
MsunInEarths == R("332946.050895")
ToCartM(r, k, o, xv) ==
    LET c == TLCEval(Heart(o)) d == Norm(c.x)
        g == [gm |-> o.G (\X) (c.m (+) o.m), q |-> o.q (-) (d (\X) (One (-) o.e)), e |-> o.e, i |-> o.i, p |-> o.p, n |-> o.n, l |-> o.l]
    IN ToCart(r, k, g, <<xv[1] (-) c.x[1], xv[2] (-) c.x[2], xv[3] (-) c.x[3], xv[4] (-) c.v[1], xv[5] (-) c.v[2], xv[6] (-) c.v[3]>>)
ToKepM(r, k, o, el) ==
    LET c == TLCEval(Heart(o)) d == Norm(c.x) IN
    ToKep(r, k, o.G (\X) (c.m (+) o.m), VSub(o.x, c.x), VSub(o.v, c.v), [el EXCEPT !.a = el.a (-) d, !.q = el.q (-) (d (\X) (One (-) el.e))])

(* ---- the other tools ---- *)
Tool(r, k) ==
    LET e == Ev(r)[k]  t == e.args[1]  o == e.args[2]  z == e.out.out IN
    CASE t = "qe" -> LET ev == EccVec(o.gm, o.x, o.v)  h2 == Norm2(Cross(o.x, o.v))  n == Norm(ev) IN
            Note(r, k, "perihelion distance and eccentricity", Close(z[2], n, One, R("3e-8")) /\ Close(z[1], (h2 (/) o.gm) (/) (One (+) z[2]), z[1], R("1e-13")))
      [] t = "evec" -> Note(r, k, "eccentricity vector", VClose(<<z[1], z[2], z[3]>>, EccVec(o.gm, o.x, o.v), One (+) ((Norm2(o.v) (\X) Norm(o.x)) (/) o.gm), R("1e-13")))
      [] t = "inc" -> LET h == Cross(o.x, o.v) IN
            Note(r, k, "angle between equator and orbit", IF VZero(o.s) THEN IsFinite(z[1]) ELSE Close(Cos(z[1]), Dot(h, o.s) (/) (Norm(h) (\X) Norm(o.s)), One, R("1e-13")) /\ Zero \preceq z[1] /\ z[1] \preceq Pi)
      [] t = "spin" -> LET s == <<z[1], z[2], z[3]>>  h == DirH(o.i, o.n) IN
            \* the equator shares the line of nodes of the orbit and is tilted by the obliquity
            /\ Note(r, k, "rotation rate", Close(Norm(s), Abs(o.w), Abs(o.w), R("1e-13")))
            /\ Note(r, k, "obliquity", Close(Dot(s, h), o.w (\X) Cos(o.ob), Abs(o.w), R("1e-13")))
            /\ Note(r, k, "spin axis normal to the line of nodes", Close(Dot(s, <<Cos(o.n), Sin(o.n), Zero>>), Zero, Abs(o.w), R("1e-13")))
            /\ Note(r, k, "tilted away from the pole", VClose(s, VScale(o.w, DirH(o.i (+) o.ob, o.n)), Abs(o.w), R("1e-12")))
      [] t = "pseudo" -> LET e2 == Sq(o.e)  n == Sqrt((GSI (\X) MsunKg (\X) (o.ms (+) o.mp)) (/) Cube(o.a (\X) AUm)) (\X) Day
                             num == One (+) (R("7.5") (\X) e2) (+) (R("5.625") (\X) Sq(e2)) (+) (R("0.3125") (\X) Cube(e2))
                             den == (One (+) (R("3.0") (\X) e2) (+) (R("0.375") (\X) Sq(e2))) (\X) Pow(One (-) e2, R("1.5"))
                         IN Note(r, k, "pseudo-synchronous period", Close(z[1], TwoPi (/) (n (\X) (num (/) den)), z[1], R("1e-6")))
      [] t = "lin" -> LET xs == o.xs ys == o.ys n == Len(o.xs) y == z[1] IN
            Note(r, k, "linear interpolation",
              IF o.t \preceq xs[1] THEN RealEq(y, ys[1]) ELSE IF xs[n] \prec o.t THEN RealEq(y, ys[n])
              ELSE LET j == CHOOSE q \in 2..n : xs[q - 1] \prec o.t /\ o.t \preceq xs[q]
                       w == (o.t (-) xs[j - 1]) (/) (xs[j] (-) xs[j - 1])
                   IN Close(y, ys[j - 1] (+) (w (\X) (ys[j] (-) ys[j - 1])), Abs(ys[j]) (+) Abs(ys[j - 1]), R("1e-13")))
      [] t = "cos" -> LET xs == o.xs ys == o.ys n == Len(o.xs) y == z[1] IN
            Note(r, k, "cosine interpolation",
              IF o.t \preceq xs[1] THEN RealEq(y, ys[1]) ELSE IF xs[n] \prec o.t THEN RealEq(y, ys[n])
              ELSE LET j == CHOOSE q \in 2..n : xs[q - 1] \prec o.t /\ o.t \preceq xs[q]
                       w == Half (\X) (One (-) Cos(Pi (\X) ((o.t (-) xs[j - 1]) (/) (xs[j] (-) xs[j - 1]))))
                   IN Close(y, ys[j - 1] (+) (w (\X) (ys[j] (-) ys[j - 1])), Abs(ys[j]) (+) Abs(ys[j - 1]), R("1e-12")))
      [] t = "com" -> LET c == TLCEval(Heart(o))  s(w) == MaxR([j \in 1..Len(w) |-> Norm(w[j])]) IN
            Note(r, k, "centre of mass", Close(z[1], c.m, c.m, R("1e-14")) /\ VClose(<<z[2], z[3], z[4]>>, c.x, s(o.xs), R("1e-14")) /\ VClose(<<z[5], z[6], z[7]>>, c.v, s(o.vs), R("1e-14")))
      [] t = "size" -> LET lg == Ln(IF o.u = "factor" THEN o.m ELSE o.m (\X) MsunInEarths) (/) Ln(R("10.0"))
                           y == ((((R("0.0592") (\X) o.rock) (+) R("0.0975")) (\X) Sq(lg)) (+) (((R("0.2337") (\X) o.rock) (+) R("0.4938")) (\X) lg)) (+) ((R("0.3102") (\X) o.rock) (+) R("0.7932"))
                       IN Note(r, k, "mass-radius relation", Close(z[1], y, One, R("1e-6")))
      [] OTHER -> TRUE
Allowed(r, k) ==
    LET e == Ev(r)[k]  o == e.args[1] IN
    /\ Note(r, k, "no failure", e.res = "ok")
    /\ e.res = "ok" =>
       CASE e.op = "tocart" -> ToCart(r, k, o, O(r, k).xv)
         [] e.op = "tokep" -> ToKep(r, k, o.gm, o.x, o.v, O(r, k).el)
         [] e.op = "tocartm" -> ToCartM(r, k, o, O(r, k).xv)
         [] e.op = "tokepm" -> ToKepM(r, k, o, O(r, k).el)
         [] e.op = "tool" -> Tool(r, k)
         [] OTHER -> TRUE
Next == Walk(Allowed)
=============================================================================
