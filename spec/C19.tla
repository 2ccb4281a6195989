-------------------------------- MODULE C19 --------------------------------
(* Evolving bodies follow their tables at every queried time. *)
EXTENDS TraceBase, Evolve

Evolving(c, i) == c.bodies[i].evol.type # "none"
Tab(c, i) == TableOf(c.bodies[i].evol, c.raw[i], c.aux, c.t0)
Follows(v, ts, ys, t) == Close(v, Interp(ts, ys, t), One, InterpTol(ys))

(* rounding applied by the model loader (radius of gyration of Leconte 2011: 7 decimals) *)
RgTol(c, i) == IF c.bodies[i].evol.type = "Leconte2011" THEN R("6e-8") ELSE R("1e-12")
SeqClose(a, b, rel, abst) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Close(a[i], b[i], (Abs(b[i]) (\X) R(rel)) (+) abst, One)
MustRefuse(c) == \E i \in 1..Len(c.bodies) : Evolving(c, i) /\
    (~Supported(c.bodies[i].evol) \/ (Len(c.raw[i]) > 0 /\ ~Covered(Tab(c, i), c.tlimit)))

NewOk(r, k) ==
    LET c == Cfg(r) e == Ev(r)[k] IN
    /\ Chk(r, k, "evolution: unsupported mass or time range refused", MustRefuse(c) => e.res = "panic")
    /\ Chk(r, k, "evolution: supported mass and time range accepted", ~MustRefuse(c) => e.res = "ok")
    /\ e.res = "ok" => \A i \in 1..Len(c.bodies) : LET q == Post(r, k).b[i] IN
         /\ (Evolving(c, i) /\ c.effects.evol) => LET tb == Tab(c, i) IN
              /\ Chk(r, k, "evolution: initial radius", Close(q.r, Interp(tb.time, tb.radius, Zero), R("1.001e-6"), One))
              /\ Chk(r, k, "evolution: initial radius of gyration", Len(tb.rg2) > 0 => Close(q.rg2, Interp(tb.time, tb.rg2, Zero), R("1.1e-6"), One))
         /\ Chk(r, k, "evolution: initial spin kept", LET I == q.m (\X) q.rg2 (\X) Sq(q.r) s == VScale(One (/) I, q.L) IN
              VClose(s, c.bodies[i].s, Norm(s), R("1e-12")) /\ Close(q.I, I, I, R("1e-12")))

TableOk(r, k) ==
    LET c == Cfg(r)  i == Ev(r)[k].args[1] + 1  t == Ev(r)[k].out.table IN
    IF ~Evolving(c, i) THEN TRUE
    ELSE LET tb == Tab(c, i) IN
         /\ Chk(r, k, "evolution: table times", SeqClose(t.time, tb.time, "1e-12", R("1e-6")))
         /\ Chk(r, k, "evolution: table radius", SeqClose(t.radius, tb.radius, "1e-12", Zero))
         /\ Chk(r, k, "evolution: table radius of gyration", SeqClose(t.rg2, tb.rg2, "1e-12", RgTol(c, i)))
         /\ Chk(r, k, "evolution: table Love number", SeqClose(t.love, tb.love, "1e-12", Zero))
         /\ Chk(r, k, "evolution: table quality factor", SeqClose(t.q, tb.q, "1e-12", Zero))

QueryOk(r, k) ==
    LET c == Cfg(r)  a == Ev(r)[k].args  i == a[1] + 1  t == a[2]  own == a[3]  v == Ev(r)[k].out.val
        tb == Tab(c, i)
        ys == CASE a[4] = "r" -> tb.radius [] a[4] = "rg2" -> tb.rg2 [] a[4] = "love" -> tb.love [] OTHER -> tb.q
    IN Chk(r, k, "evolution: queried value", IF ~Evolving(c, i) \/ Len(ys) = 0 THEN RealEq(v, own)
            ELSE Close(v, Interp(tb.time, ys, t), One, InterpTol(ys) (+) (IF a[4] = "rg2" THEN RgTol(c, i) ELSE Zero)))

(* universe-level evolution to time t *)
SpinOk(r, k) ==
    LET c == Cfg(r)  p == Pre(r, k)  s == Post(r, k)  t == Ev(r)[k].args[1]  on == Ev(r)[k].args[2] /\ p.eff.evol IN
    \A i \in 1..Len(s.b) : LET q == s.b[i] o == p.b[i] IN
      /\ Chk(r, k, "evolution: angular momentum and mass conserved", q.L = o.L /\ q.m = o.m)
      /\ IF ~on \/ ~Evolving(c, i)
         THEN Chk(r, k, "evolution: quantities of other bodies kept", q.r = o.r /\ q.rg2 = o.rg2 /\ q.k2 = o.k2)
         ELSE LET tb == Tab(c, i) IN
              /\ Chk(r, k, "evolution: radius", Follows(q.r, tb.time, tb.radius, t))
              /\ Chk(r, k, "evolution: radius of gyration", IF Len(tb.rg2) = 0 THEN q.rg2 = o.rg2
                        ELSE Close(q.rg2, Interp(tb.time, tb.rg2, t), One, InterpTol(tb.rg2) (+) RgTol(c, i)))
              /\ Chk(r, k, "evolution: Love number", IF Len(tb.love) = 0 \/ c.bodies[i].tides.model # "ctl" THEN q.k2 = o.k2
                        ELSE Follows(q.k2, tb.time, tb.love, t))
              /\ Chk(r, k, "evolution: lag angle", IF Len(tb.q) = 0 THEN q.lag = Zero
                        ELSE LET l == LagAngle(tb, q, t) IN Close(q.lag, l, l, R("1e-9")))

Allowed(r, k) ==
    LET e == Ev(r)[k] IN
    CASE e.op = "new" -> NewOk(r, k)
      [] e.op = "table" -> TableOk(r, k)
      [] e.op = "query" -> Chk(r, k, "no failure", e.res = "ok") /\ QueryOk(r, k)
      [] e.op = "spin" -> Chk(r, k, "no failure", e.res = "ok") /\ SpinOk(r, k)
      [] OTHER -> Chk(r, k, "no failure", e.res = "ok")
Next == Walk(Allowed)
=============================================================================
