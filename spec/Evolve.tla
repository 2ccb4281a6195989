------------------------------- MODULE Evolve -------------------------------
(* Evolving bodies: tables of the stellar and planetary models and their       *)
(* interpolation.  A raw table is what the model file holds, row by row.       *)
EXTENDS Physics

Yr == R("365.25")
(* ---- interpolation: linear between rows, constant beyond the ends ---- *)
Interp(ts, ys, t) ==
    LET n == Len(ts)
        after == {i \in 1..n : t \prec ts[i]}
    IN IF after = {} THEN ys[n]
       ELSE LET j == CHOOSE i \in after : \A k \in after : i <= k
            IN IF j = 1 THEN ys[1]
               ELSE LET f == (t (-) ts[j - 1]) (/) (ts[j] (-) ts[j - 1])
                    IN (ys[j - 1] (\X) (One (-) f)) (+) (ys[j] (\X) f)
InterpTol(ys) == R("1e-10") (\X) MaxR([i \in 1..Len(ys) |-> Abs(ys[i])])

(* ---- which masses a model supports ---- *)
Near(m, s, tol) == Abs(m (-) R(s)) \preceq R(tol)
GB == <<"0.3", "0.4", "0.6", "0.7", "0.8", "0.9", "1.0", "1.1", "1.2", "1.4">>
BM == <<"0.4", "0.5", "0.6", "0.7", "0.8", "0.9", "1.0", "1.1", "1.2", "1.3", "1.4", "1.5">>
B15 == <<"0.01", "0.015", "0.02", "0.03", "0.04", "0.05", "0.06", "0.07", "0.072", "0.075", "0.08">>
B15e == <<"0.09", "0.11", "0.13", "0.15", "0.17", "0.2", "0.3", "0.4", "0.5", "0.6", "0.7", "0.8", "0.9", "1.0", "1.1", "1.2", "1.3", "1.4">>
L11 == <<"0.01", "0.012", "0.015", "0.02", "0.03", "0.04", "0.05", "0.06", "0.07", "0.072", "0.075", "0.08">>
OneOf(m, s, tol) == \E i \in 1..Len(s) : Near(m, s[i], tol)
Supported(e) ==
    CASE e.type = "GalletBolmont2017" -> OneOf(e.mass, GB, "0.001")
      [] e.type = "BolmontMathis2016" -> OneOf(e.mass, BM, "0.001")
      [] e.type = "Baraffe2015" -> OneOf(e.mass, B15, "0.0001") \/ OneOf(e.mass, B15e, "1e-7")
      [] e.type = "Leconte2011" -> OneOf(e.mass, L11, "0.0001")
      [] e.type = "Baraffe1998" -> OneOf(e.mass, <<"0.1", "1.0">>, "1e-7")
      [] OTHER -> TRUE
L11Column(m) == 1 + (CHOOSE i \in 1..Len(L11) : Near(m, L11[i], "0.0001"))

(* ---- from the raw table to simulation units, time counted from t0 ---- *)
Col(rows, j) == [i \in 1..Len(rows) |-> rows[i][j]]
MapSeq(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
InRange(rows, aux) == SelectSeq(rows, LAMBDA q : aux[1][1] \preceq q[1] /\ q[1] \preceq aux[Len(aux)][1])
TableOf(e, raw, aux, t0) ==
    LET rows == IF e.type = "Leconte2011" THEN InRange(raw, aux) ELSE raw
        age(y) == IF e.type = "GalletBolmont2017" THEN Pow(R("10.0"), y) ELSE y
        rcol == IF e.type = "Baraffe2015" THEN 3 ELSE IF e.type = "GalletBolmont2017" THEN 4 ELSE 2
        unit == IF e.type = "LeconteChabrier2013" \/ (e.type = "Baraffe1998" /\ Near(e.mass, "1.0", "1e-7")) THEN One (/) AUm ELSE Rsun
    IN [time |-> MapSeq(Col(rows, 1), LAMBDA y : (age(y) (\X) Yr) (-) t0),
        radius |-> MapSeq(Col(rows, rcol), LAMBDA y : y (\X) unit),
        rg2 |-> IF e.type \in {"Baraffe2015", "LeconteChabrier2013"} THEN Col(rows, 4)
                ELSE IF e.type = "Leconte2011" THEN MapSeq(Col(rows, 1), LAMBDA y : Interp(Col(aux, 1), Col(aux, L11Column(e.mass)), y))
                ELSE <<>>,
        love |-> IF e.type = "LeconteChabrier2013" THEN Col(rows, 3) ELSE <<>>,
        q |-> CASE e.type = "BolmontMathis2016" -> Col(rows, 3)
                [] e.type = "GalletBolmont2017" -> MapSeq(Col(rows, 11), LAMBDA y : One (/) Pow(R("10.0"), y))
                [] e.type = "LeconteChabrier2013" /\ e.diss -> Col(rows, 6)
                [] OTHER -> <<>>]
(* a simulation must start within the table and end within it *)
Covered(tb, tlimit) == tb.time[1] \preceq Zero /\ tlimit \preceq tb.time[Len(tb.time)]
(* lag angle of the dynamical tide, without its factor 1/k2: Bolmont & Mathis 2016 *)
LagAngle(tb, q, t) == R("0.75") (\X) (Norm2(VScale(One (/) (q.m (\X) q.rg2 (\X) Sq(q.r)), q.L)) (/) (G (/) Cube(Rsun))) (\X) Interp(tb.time, tb.q, t)
=============================================================================
