------------------------------ MODULE Physics ------------------------------
(* Bodies, frames and forces of the N-body model.  A universe is a sequence   *)
(* b of bodies (records with m, r, x, v, s, ... as in the traces) together     *)
(* with the declared configuration c (roles and parameters per body).          *)
EXTENDS Integers, Sequences, Reals64

(* ---- units: solar masses, AU, days (IAU 2009 constants) ---- *)
AUm == R("1.49597870700e11")
Day == R("86400.0")
GSI == R("6.67428e-11")
MsunKg == R("1.9818e30")
G == (GSI (/) Cube(AUm)) (\X) MsunKg (\X) Sq(Day)
Rsun == R("6.957e8") (/) AUm
Light == (R("2.99792458e8") (/) AUm) (\X) Day
Light2 == Sq(Light)
MaxDistance == R("100.0")
MaxBodies == 10

N(b) == Len(b)
Others(b, i) == SelectSeq([j \in 1..Len(b) |-> j], LAMBDA j : j # i)
SumOver(is, F(_)) == SumR([k \in 1..Len(is) |-> F(is[k])])
SumOverV(is, F(_)) == SumV([k \in 1..Len(is) |-> F(is[k])])
All(b) == [j \in 1..Len(b) |-> j]

(* index (1-based) of the most massive body: the first one in case of ties *)
MostMassive(b) == CHOOSE i \in 1..Len(b) :
    /\ \A j \in 1..Len(b) : b[j].m \preceq b[i].m
    /\ \A j \in 1..(i - 1) : b[j].m \prec b[i].m

(* ---- frames ---- *)
MassSum(b) == SumOver(All(b), LAMBDA j : b[j].m)
CoM(b, X(_)) == VScale(One (/) MassSum(b), SumOverV(All(b), LAMBDA j : VScale(b[j].m, X(j))))
RelX(b, i, j) == VSub(b[i].x, b[j].x)
RelV(b, i, j) == VSub(b[i].v, b[j].v)
Dist(b, i, j) == Norm(RelX(b, i, j))

(* ---- Newtonian gravity ---- *)
(* i and j interact in the given mode; h is the most massive body *)
Interact(mode, h, i, j) ==
    LET first == IF h = 1 THEN 2 ELSE 1 IN
    /\ i # j
    /\ (mode = "one" => ~({i, j} = {h, first}))
    /\ (mode = "two" => ~(h \in {i, j}))
PairAcc(b, i, j) == LET d == RelX(b, j, i) r2 == Norm2(d)
                    IN VScale((G (\X) b[j].m) (/) (r2 (\X) Sqrt(r2)), d)
GravSources(b, mode, h, i) == SelectSeq([j \in 1..Len(b) |-> j], LAMBDA j : Interact(mode, h, i, j))
GravAcc(b, mode, h, i) == SumOverV(GravSources(b, mode, h, i), LAMBDA j : PairAcc(b, i, j))
(* size of the terms summed, the yardstick for rounding *)
GravScale(b, mode, h, i) == SumOver(GravSources(b, mode, h, i), LAMBDA j : (G (\X) b[j].m) (/) Norm2(RelX(b, i, j)))

(* ---- close encounters ---- *)
RocheLimit(bi, bj) == IF bj.m \prec bi.m
    THEN (bj.r (/) R("0.462")) (\X) Pow(bi.m (/) bj.m, One (/) R("3.0"))
    ELSE (bi.r (/) R("0.462")) (\X) Pow(bj.m (/) bi.m, One (/) R("3.0"))
=============================================================================
