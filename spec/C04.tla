-------------------------------- MODULE C04 --------------------------------
(* Ends of runs and run-time options: library executions, and runs of the     *)
(* real program with its command line.                                        *)
EXTENDS Session
O == INSTANCE Options WITH DT <- 1, MaxOps <- 0, Emit <- FALSE, s <- [t |-> Zero], tl <- Zero, tl0 <- Zero, ends <- <<>>, ops <- <<>>, ret <- "go", over <- FALSE

Keep(n, s, fs) == \A f \in fs : RealEq(n[f], s[f])
Ends(r) == Cfg(r).ends
Tl(r, k) == Ev(r)[k].st.tl
(* the limit may have been less than one step away when the run (re)started *)
Allowed(r, k) ==
    LET e == Ev(r)[k] IN
    CASE e.op = "iterate" ->
           LET s == It(r, k - 1) n == e.it tl == Tl(r, k - 1) IN
           /\ Chk(r, k, "a step is made", e.res = "ok" /\ e.out.steps >= 1)
           /\ Chk(r, k, "the limit and the periods stay", RealEq(Tl(r, k), tl) /\ Keep(n, s, {"hp", "rp"}))
           /\ Chk(r, k, "the run ends exactly when one more step would pass the limit", (e.out.ret = "done") <=> (tl \prec (n.t (+) n.dt)))
           /\ Chk(r, k, "the limit is not overshot", e.out.steps = 1 \/ n.t \preceq (tl (+) (R("1e-9") (\X) n.dt)))   \* the two halves of a step may round up
           /\ (s.kind # "ias15") => Chk(r, k, "every step fits", e.out.ret = "done" => LET q == Floor((tl (-) s.t) (/) s.dt) IN
                 \/ e.out.steps = 1 /\ q \prec Two
                 \/ Abs(OfInt(e.out.steps) (-) q) \preceq One)
      [] e.op = "limits" ->
           LET s == It(r, k - 1) tl == Tl(r, k - 1) x == e.args[1] a == O!AcceptLimit(s, tl, x, Ends(r)) IN
           /\ Chk(r, k, "a limit before the current time or beyond the tables is refused, any other accepted", (e.res = "ok") <=> a)
           /\ e.res = "ok" => Chk(r, k, "the new limit replaces the old one when positive", RealEq(Tl(r, k), O!NewLimit(tl, x)))
           /\ e.res = "ok" => Chk(r, k, "nothing else changes", e.it.pfp = s.pfp /\ Keep(e.it, s, {"t", "dt", "lh", "lr", "hp", "rp"}) /\ e.it.nh = s.nh)
      [] e.op = "periods" ->
           LET s == It(r, k - 1) IN
           /\ Chk(r, k, "new periods replace the old ones when positive", e.res = "ok" /\ RealEq(e.it.hp, O!NewPeriod(s.hp, e.args[1])) /\ RealEq(e.it.rp, O!NewPeriod(s.rp, e.args[2])))
           /\ Chk(r, k, "nothing else changes", e.it.pfp = s.pfp /\ Keep(e.it, s, {"t", "dt", "lh", "lr"}) /\ e.it.nh = s.nh /\ RealEq(Tl(r, k), Tl(r, k - 1)))
      [] e.op = "restore" -> Chk(r, k, "limit and periods are restored", e.res = "ok" /\ LET j == SaveOf(r, k) IN j = 0 \/ (Keep(e.it, It(r, j), {"t", "dt", "hp", "rp"}) /\ RealEq(Tl(r, k), Tl(r, j))))
      [] e.op = "program" ->
           (* the real program resumed with options *)
           LET x == e.out a == O!AcceptLimit([t |-> x.t], x.tl, x.new, Ends(r)) IN
           /\ Chk(r, k, "options: accepted exactly when they may be", (x.rc = 0) <=> a)
           /\ ~a => Chk(r, k, "a refused run leaves every file as it was", x.same)
           /\ a => Chk(r, k, "the history goes on as the options say", x.hlen = x.reflen /\ x.hgood = x.hlen)
           /\ a => Chk(r, k, "the last recovery snapshot is that of a run with these options", x.snapgood)
      [] e.op = "stopwatch" ->
           (* the real program with an execution time limit *)
           LET x == e.out IN
           /\ Chk(r, k, "the run ends with success", x.rc = 0)
           /\ Chk(r, k, "it is stopped when the execution time limit has passed", x.must => x.hlen < Cfg(r).reflen)
           /\ Chk(r, k, "it is not stopped before", x.mustnot => x.hlen = Cfg(r).reflen)
           /\ Chk(r, k, "a resumed run too is stopped when the limit has passed", x.rmust => x.r1len < Cfg(r).reflen)
           /\ Chk(r, k, "its history is that of the run", x.hgood = x.hlen)
           /\ Chk(r, k, "it leaves a recovery snapshot counting the history", x.full /\ (x.hlen < Cfg(r).reflen => x.nh * Cfg(r).per = x.hlen))
           /\ Chk(r, k, "the periodic recovery snapshots are all written", x.mustnot => x.files = Cfg(r).files)
           /\ Chk(r, k, "it can be resumed to the end", x.rrc = 0 /\ x.rhlen = Cfg(r).reflen /\ x.rhgood = x.rhlen)
      [] e.op = "form" -> Chk(r, k, "every documented form of the options is accepted", e.out.rc = 0 /\ e.out.hlen = Cfg(r).reflen /\ e.out.hgood = e.out.hlen)
      [] OTHER -> Chk(r, k, "the program works", e.res = "ok")
Next == Walk(Allowed)
=============================================================================
