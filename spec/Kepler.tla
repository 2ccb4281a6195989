------------------------------- MODULE Kepler -------------------------------
(* Two-body motion in universal variables: x'' = -mu x/|x|^3.  Works for        *)
(* ellipses, parabolas and hyperbolas alike and for any interval of time.       *)
EXTENDS Integers, Sequences, TLC, Physics

(* Stumpff functions c0..c3 of z = beta s^2 *)
RECURSIVE StumpffTail(_, _, _, _)
(* sum over k >= n of (-z)^k/(2k + j)! given the term for k = n *)
StumpffTail(z, j, n, term) ==
    IF n > 14 THEN term
    ELSE term (+) StumpffTail(z, j, n + 1, TLCEval(Opp(term (\X) z) (/) OfInt((2 * n + j + 1) * (2 * n + j + 2))))
C23(z) ==
    IF Abs(z) \prec One
    THEN <<StumpffTail(z, 2, 0, Half), StumpffTail(z, 3, 0, One (/) R("6.0"))>>
    ELSE IF Zero \prec z
    THEN LET q == Sqrt(z) IN <<(One (-) Cos(q)) (/) z, (q (-) Sin(q)) (/) (z (\X) q)>>
    ELSE LET q == Sqrt(Opp(z)) IN <<(Cosh(q) (-) One) (/) Opp(z), (Sinh(q) (-) q) (/) (Opp(z) (\X) q)>>
(* G1, G2, G3 *)
GFuns(beta, s) ==
    LET z == beta (\X) Sq(s)  c == TLCEval(C23(z)) IN
    <<s (\X) (One (-) (z (\X) c[2])), Sq(s) (\X) c[1], Cube(s) (\X) c[2]>>

(* the universal variable: r0 s + eta G2 + zeta G3 = h.  The left-hand side      *)
(* grows with s (its derivative is the distance): bracketed Newton iteration.    *)
RECURSIVE SolveS(_, _, _, _, _)
SolveS(k, lo, hi, s, p) ==
    IF k = 0 THEN s
    ELSE LET g == TLCEval(GFuns(p.beta, s))
             f == TLCEval((p.r0 (\X) s) (+) (p.eta (\X) g[2]) (+) (p.zeta (\X) g[3]) (-) p.h)
             d == TLCEval(p.r0 (+) (p.eta (\X) g[1]) (+) (p.zeta (\X) g[2]))
             nlo == IF f \prec Zero THEN s ELSE lo
             nhi == IF f \prec Zero THEN hi ELSE s
             w == TLCEval(s (-) (f (/) d))
             mid == TLCEval((nlo (+) nhi) (\X) Half)
             \* (far out on a hyperbola Newton's method creeps: bisect in turn)
             far == p.beta \prec Zero /\ k > 100 /\ k % 2 = 1 /\ (nhi (\X) R("0.01")) \prec (nhi (-) nlo)
             ns == IF ~far /\ IsFinite(w) /\ nlo \preceq w /\ w \preceq nhi THEN w ELSE mid
         IN IF RealEq(ns, s) THEN s ELSE SolveS(k - 1, TLCEval(nlo), TLCEval(nhi), TLCEval(ns), p)

(* state after the interval h > 0 *)
Drift(mu, x, v, h) ==
    LET r0 == Norm(x)  v2 == Norm2(v)  eta == Dot(x, v)
        beta == ((Two (\X) mu) (/) r0) (-) v2
        zeta == mu (-) (beta (\X) r0)
        h2 == Norm2(Cross(x, v))
        q == (h2 (/) mu) (/) (One (+) Sqrt(Max(Zero, One (-) ((h2 (\X) beta) (/) Sq(mu)))))
        p == TLCEval([r0 |-> r0, eta |-> eta, zeta |-> zeta, beta |-> beta, h |-> h])
        hi == h (/) q
        s0 == IF Zero \prec beta THEN Min(hi, (beta (\X) h) (/) mu) ELSE hi (\X) Half
        s == TLCEval(SolveS(200, Zero, TLCEval(hi (\X) R("1.0000001")), TLCEval(s0), p))
        g == TLCEval(GFuns(beta, s))
        r == TLCEval(r0 (+) (eta (\X) g[1]) (+) (zeta (\X) g[2]))
        f == Opp((mu (\X) g[2]) (/) r0)                 \* minus one
        gg == (r0 (\X) g[1]) (+) (eta (\X) g[2])         \* h - mu G3, without the cancellation
        fd == Opp((mu (\X) g[1]) (/) (r0 (\X) r))
        gd == ((r0 (\X) (One (-) (beta (\X) g[2]))) (+) (eta (\X) g[1])) (/) r
    IN [x |-> VAdd(x, VAdd(VScale(f, x), VScale(gg, v))), v |-> VAdd(VScale(fd, x), VScale(gd, v))]
=============================================================================
