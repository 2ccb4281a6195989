------------------------------- MODULE C03 -------------------------------
(* Every recorded step of the code takes the records and asks for the         *)
(* snapshots that the schedule prescribes for the state it started from.      *)
EXTENDS Session

Prev(r, k) == It(r, k - 1)
(* one unit of the Schedule model *)
U(x, n) == OfInt(n * x.quarters) (/) R("4.0")
HLen(r, k) == LET j == Last(r, k, LAMBDA i : Op(r, i) \in {"iterate", "hist"} /\ "hlen" \in DOMAIN Ev(r)[i].out) IN IF j = 0 THEN 0 ELSE Out(r, j).hlen

Allowed(r, k) ==
    LET e == Ev(r)[k] IN
    CASE e.op = "iterate" ->
           LET s == Prev(r, k) n == e.it d == RecordDue(s) q == Ret(s, n, Ev(r)[k - 1].st.tl) IN
           /\ Chk(r, k, "the step is made", e.res = "ok" /\ e.out.steps = 1)
           /\ Chk(r, k, "one record exactly when due", e.out.hlen = HLen(r, k) + (IF d THEN e.out.per ELSE 0))
           /\ Chk(r, k, "record size", e.out.per = e.st.n * 156)
           /\ Chk(r, k, "records are counted", n.nh = s.nh + Records(s))
           /\ Chk(r, k, "schedule advances by one period (fixed step) or to the record (adaptive)", RealEq(n.lh, NextLh(s)))
           /\ d => Chk(r, k, "record carries time, step and body numbers of the state before the step",
                       Len(e.out.hlast) = e.st.n /\ \A i \in 1..e.st.n : LET h == e.out.hlast[i] IN
                          h.id = i - 1 /\ RealEq(h.f[1], s.t) /\ RealEq(h.f[2], s.dt))
           /\ s.kind # "ias15" => Chk(r, k, "fixed step", RealEq(n.dt, s.dt) /\ Close(n.t, s.t (+) s.dt, n.t, R("1e-14")))
           /\ s.kind = "ias15" => Chk(r, k, "time goes on", s.t \prec n.t)
           /\ Chk(r, k, "snapshot asked for exactly when due, end exactly at the limit", e.out.ret = q)
           /\ Chk(r, k, "asked snapshots are written", e.out.saved = (IF q = "snap" /\ Len(e.args) > 1 THEN 1 ELSE 0))
           /\ Chk(r, k, "the snapshot clock is set by snapshots only", RealEq(n.lr, IF e.out.saved = 1 THEN n.t ELSE s.lr))
           /\ (Cfg(r).steady /\ s.kind # "ias15") => Chk(r, k, "no drift", Close(n.lh, OfInt(n.nh - 1) (\X) n.hp, n.lh (+) n.hp, R("1e-11")))
      [] e.op = "save" ->
           LET s == Prev(r, k) IN
           Chk(r, k, "saving changes nothing but the snapshot clock", e.res = "ok" /\ e.it.pfp = s.pfp /\ RealEq(e.it.lr, s.t) /\ RealEq(e.it.lh, s.lh)
                  /\ e.it.nh = s.nh /\ RealEq(e.it.hp, s.hp) /\ RealEq(e.it.rp, s.rp) /\ RealEq(e.it.t, s.t) /\ RealEq(e.it.dt, s.dt))
      [] e.op = "restore" ->
           LET s == It(r, SaveOf(r, k)) IN
           Chk(r, k, "the schedule is restored", e.res = "ok" /\ \A f \in {"t", "dt", "lh", "lr", "hp", "rp"} : RealEq(e.it[f], s[f]))
      [] e.op = "periods" ->
           LET s == Prev(r, k) a == e.args IN
           /\ Chk(r, k, "new periods replace the old ones when positive", e.res = "ok"
                    /\ RealEq(e.it.hp, IF Zero \prec a[1] THEN a[1] ELSE s.hp) /\ RealEq(e.it.rp, IF Zero \prec a[2] THEN a[2] ELSE s.rp))
           /\ Chk(r, k, "nothing else changes", e.it.pfp = s.pfp /\ \A f \in {"t", "dt", "lh", "lr"} : RealEq(e.it[f], s[f]))
      [] e.op = "histrecs" ->
           (* replay of a behaviour generated from the Schedule model *)
           LET x == Cfg(r).expect rs == e.out.rec.recs n == Ev(r)[k - 1].st.n
               snaps == {j \in 1..k : Op(r, j) = "iterate" /\ Out(r, j).saved = 1} IN
           /\ Chk(r, k, "as many records as the model", Len(rs) = n * Len(x.recs))
           /\ Chk(r, k, "records at the times of the model", \A i \in 1..Len(x.recs) : \A b \in 1..n : RealEq(rs[(i - 1) * n + b].f[1], U(x, x.recs[i])))
           /\ Chk(r, k, "snapshots at the times of the model", Cardinality(snaps) = Len(x.snaps) /\ \A j \in snaps : \E i \in 1..Len(x.snaps) : RealEq(It(r, j).t, U(x, x.snaps[i])))
           /\ Chk(r, k, "ends when the model does", RealEq(Ev(r)[k - 1].it.t, U(x, x.t)))
      [] OTHER -> Chk(r, k, "the program works", e.res = "ok")

Next == Walk(Allowed)
=============================================================================
