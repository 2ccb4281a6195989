------------------------------ MODULE Reals64 ------------------------------
(* IEEE-754 binary64 numbers for TLC.  A real is the pair <<hi32, lo32>> of   *)
(* the signed 32-bit halves of its bit pattern, which is also how traces      *)
(* carry it in JSON.  The operators below are given their meaning by the      *)
(* Java module override java/Reals64.java; the TLA+ bodies only fix arity.    *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

R(s) == <<0, 0>>           \* literal, e.g. R("0.5")
OfInt(n) == <<0, 0>>
Add(a, b) == <<0, 0>>
Sub(a, b) == <<0, 0>>
Mul(a, b) == <<0, 0>>
Div(a, b) == <<0, 0>>
Opp(a) == <<0, 0>>
Abs(a) == <<0, 0>>
Sqrt(a) == <<0, 0>>
Pow(a, b) == <<0, 0>>
PowI(a, n) == <<0, 0>>
Sin(a) == <<0, 0>>
Cos(a) == <<0, 0>>
Tan(a) == <<0, 0>>
Sinh(a) == <<0, 0>>
Cosh(a) == <<0, 0>>
Acos(a) == <<0, 0>>
Asin(a) == <<0, 0>>
Atan(a) == <<0, 0>>
Atan2(a, b) == <<0, 0>>
Exp(a) == <<0, 0>>
Ln(a) == <<0, 0>>
Floor(a) == <<0, 0>>
Max(a, b) == <<0, 0>>
Min(a, b) == <<0, 0>>
Lt(a, b) == FALSE
Le(a, b) == FALSE
RealEq(a, b) == FALSE
IsFinite(a) == FALSE
ToInt(a) == 0
Show(a) == ""
SumR(s) == <<0, 0>>        \* sum of a sequence of reals
MaxR(s) == <<0, 0>>        \* maximum of 0 and a sequence of reals
SumV(s) == <<0, 0>>        \* sum of a sequence of 3-vectors
Close(a, b, scale, tol) == FALSE   \* |a - b| <= tol * scale (never true for NaN)

a (+) b == Add(a, b)
a (-) b == Sub(a, b)
a (\X) b == Mul(a, b)
a (/) b == Div(a, b)
a \prec b == Lt(a, b)
a \preceq b == Le(a, b)
Zero == <<0, 0>>
One == R("1.0")
Two == R("2.0")
Half == R("0.5")
Pi == R("3.141592653589793")
TwoPi == R("6.283185307179586")
Sq(a) == Mul(a, a)
Cube(a) == Mul(a, Mul(a, a))

(* ------------------------------ 3-vectors ------------------------------ *)
Vec0 == <<Zero, Zero, Zero>>
VAdd(a, b) == <<Add(a[1], b[1]), Add(a[2], b[2]), Add(a[3], b[3])>>
VSub(a, b) == <<Sub(a[1], b[1]), Sub(a[2], b[2]), Sub(a[3], b[3])>>
VScale(k, a) == <<Mul(k, a[1]), Mul(k, a[2]), Mul(k, a[3])>>
VNeg(a) == <<Opp(a[1]), Opp(a[2]), Opp(a[3])>>
Dot(a, b) == Add(Add(Mul(a[1], b[1]), Mul(a[2], b[2])), Mul(a[3], b[3]))
Cross(a, b) == << Sub(Mul(a[2], b[3]), Mul(a[3], b[2])),
                  Sub(Mul(a[3], b[1]), Mul(a[1], b[3])),
                  Sub(Mul(a[1], b[2]), Mul(a[2], b[1])) >>
Norm2(a) == Dot(a, a)
Norm(a) == Sqrt(Norm2(a))
VFinite(a) == IsFinite(a[1]) /\ IsFinite(a[2]) /\ IsFinite(a[3])
VClose(a, b, scale, tol) == /\ Close(a[1], b[1], scale, tol)
                            /\ Close(a[2], b[2], scale, tol)
                            /\ Close(a[3], b[3], scale, tol)
VZero(a) == RealEq(a[1], Zero) /\ RealEq(a[2], Zero) /\ RealEq(a[3], Zero)
=============================================================================
