-------------------------------- MODULE C06 --------------------------------
(* What a history entry says is what the state at its time is; and what the    *)
(* reader returns is what was written.                                         *)
EXTENDS TraceBase, Effects, Evolve, History
Tol == R("1e-9")

(* ---- an entry of an observed state, bit for bit ---- *)
Faithful(f, q) ==
    /\ <<f[3], f[4], f[5]>> = q.x /\ <<f[6], f[7], f[8]>> = q.s /\ <<f[9], f[10], f[11]>> = q.v
    /\ f[12] = q.m /\ f[13] = q.r /\ f[14] = q.rg2 /\ f[15] = q.k2 /\ f[16] = q.sig /\ f[17] = q.lag /\ f[18] = q.de /\ f[19] = q.mig

RecordOk(r, k) ==
    LET b == Post(r, k).b  o == Ev(r)[k].out.rec  w == o.words  a == Ev(r)[k].args IN
    /\ Chk(r, k, "record: size", o.bytes = BytesPerBody * Len(b))
    /\ Chk(r, k, "record: bodies in order with their numbers", \A i \in 1..Len(b) : BodyNo(w, i) = i - 1)
    /\ Chk(r, k, "record: time and time step", \A i \in 1..Len(b) : Num(w, i, 1) = a[1] /\ Num(w, i, 2) = a[2])
    /\ Chk(r, k, "record: layout and content", \A i \in 1..Len(b) : Faithful(Entry(w, i).f, b[i]))

(* ---- an entry written by a step: the state before the step, at its time ---- *)
(* the bodies at time t: evolving quantities follow their tables *)
AtTime(r, b, t) ==
    LET c == Cfg(r).bodies on == Ev(r)[1].st.eff.evol IN
    [i \in 1..Len(b) |->
       IF on /\ c[i].evol.type # "none"
       THEN LET tb == TableOf(c[i].evol, Cfg(r).raw[i], Cfg(r).aux, Cfg(r).t0)
                nr == Interp(tb.time, tb.radius, t)
                ng == IF tb.rg2 = <<>> THEN b[i].rg2 ELSE Interp(tb.time, tb.rg2, t)
                q == [b[i] EXCEPT !.r = nr, !.rg2 = ng, !.k2 = IF tb.love = <<>> \/ c[i].tides.model # "ctl" \/ c[i].tides.role = "none" THEN @ ELSE Interp(tb.time, tb.love, t)]
            IN [q EXCEPT !.lag = IF tb.q = <<>> THEN Zero ELSE LagAngle(tb, q, t)]
       ELSE b[i]]
SigmaOf(c, i) == IF c[i].tides.role # "none" /\ c[i].tides.model = "ctl" THEN c[i].tides.scale (\X) c[i].tides.diss ELSE Zero

WrittenOk(r, k) ==
    LET e == Ev(r)[k]  p == Pre(r, k).b  n == Len(p)  s == Ev(r)[k - 1].it  w == e.out.hwords  c == Cfg(r).bodies  eff == Ev(r)[1].st.eff
        b == AtTime(r, p, s.t)
        f == [i \in 1..n |-> Entry(w, i).f] IN
    /\ Chk(r, k, "written: one entry per body, in order", Len(w) = n * WordsPerBody /\ \A i \in 1..n : BodyNo(w, i) = i - 1)
    /\ Chk(r, k, "written: time and time step", \A i \in 1..n : f[i][1] = s.t /\ f[i][2] = s.dt)
    /\ Chk(r, k, "written: position and velocity", \A i \in 1..n : <<f[i][3], f[i][4], f[i][5]>> = p[i].x /\ <<f[i][9], f[i][10], f[i][11]>> = p[i].v)
    /\ Chk(r, k, "written: mass", \A i \in 1..n : f[i][12] = p[i].m)
    /\ Chk(r, k, "written: radius", \A i \in 1..n : Close(f[i][13], b[i].r, b[i].r, Tol))
    /\ Chk(r, k, "written: radius of gyration", \A i \in 1..n : Close(f[i][14], b[i].rg2, b[i].rg2, Tol))
    /\ Chk(r, k, "written: spin", \A i \in 1..n : VClose(<<f[i][6], f[i][7], f[i][8]>>, Spin(b[i]), SpinRate(b[i]), Tol))
    /\ Chk(r, k, "written: Love number", \A i \in 1..n : Close(f[i][15], b[i].k2, b[i].k2, Tol))
    /\ Chk(r, k, "written: dissipation factor", \A i \in 1..n : Close(f[i][16], SigmaOf(c, i), SigmaOf(c, i), Tol))
    /\ Chk(r, k, "written: lag angle", \A i \in 1..n : eff.evol => Close(f[i][17], IF DynamicalTideModels(c[i].evol) THEN b[i].lag ELSE Zero, b[i].lag, Tol))
    /\ eff.tides /\ HasCentral(c, "tides") => LET h == Central(c, "tides") IN
         Chk(r, k, "written: tidal energy loss", \A i \in 1..n :
             IF i # h /\ c[i].tides.role = "orbiting" /\ c[i].tides.model = "ctl"
             THEN (RegimeClear(c, b, i, h) => Close(f[i][18], CTLEnergyLoss(c, b, h, i), CTLEnergyLossScale(c, b, h, i), Tol))
             ELSE c[i].tides.role # "none" \/ RealEq(f[i][18], Zero))
    /\ eff.disk => LET h == Central(c, "disk") IN
         Chk(r, k, "written: disk migration timescale", \A i \in 1..n :
             IF i # h /\ c[i].disk.role = "orbiting"
             THEN LET q == DiskRate(c[h].disk, b, h, i, s.t) IN IF q = Zero THEN TRUE ELSE Close(f[i][19] (\X) q, One, One, Tol)
             ELSE RealEq(f[i][19], Zero))
    /\ ~eff.tides => Chk(r, k, "written: no tides, no energy loss", \A i \in 1..n : RealEq(f[i][18], Zero))
    /\ ~eff.disk => Chk(r, k, "written: no disk, no migration", \A i \in 1..n : RealEq(f[i][19], Zero))

Grown(r, k) == LET h == Ev(r)[k].out.hlen IN
    IF \E j \in 1..(k - 1) : Ev(r)[j].op = "iterate"
    THEN LET j == CHOOSE i \in 1..(k - 1) : Ev(r)[i].op = "iterate" /\ \A q \in (i + 1)..(k - 1) : Ev(r)[q].op # "iterate" IN h > Ev(r)[j].out.hlen
    ELSE h > 0

(* ---- the reader ---- *)
ReadOk(r, k) ==
    LET o == Ev(r)[k].out  n == Cfg(r).n  w == Cfg(r).words  m == CompleteEntries(o.bytes, n) IN
    /\ Chk(r, k, "read: accepted", Ev(r)[k].res = "ok")
    /\ Chk(r, k, "read: number of bodies", o.n = n)
    /\ Chk(r, k, "read: complete record sets and no more", Len(o.recs) = m)
    /\ Chk(r, k, "read: values as written, body by body", \A q \in 1..m : o.recs[q] = Entry(w, q))

Allowed(r, k) ==
    LET e == Ev(r)[k] IN
    CASE e.op = "read" -> ReadOk(r, k)
      [] e.op = "record" -> Chk(r, k, "no failure", e.res = "ok") /\ RecordOk(r, k)
      [] e.op = "iterate" -> Chk(r, k, "no failure", e.res = "ok") /\ (Grown(r, k) => WrittenOk(r, k))
      [] OTHER -> Chk(r, k, "no failure", e.res = "ok")
Next == Walk(Allowed)
=============================================================================
