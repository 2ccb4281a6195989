------------------------------- MODULE C01 -------------------------------
(* Interrupted and resumed runs go through the states, and write the history, *)
(* of the run that was never interrupted.                                     *)
(*                                                                            *)
(* A run of this specification is one uninterrupted execution (from "new" to   *)
(* the first "histfp"), then "reset" and further executions of the same case   *)
(* in which snapshots are saved, processes lost (events after a save that a    *)
(* restore goes back over) and restored.  `Steps` counts the steps a simulation *)
(* has behind it, whichever processes made them; the reference is the          *)
(* uninterrupted execution after as many steps.                                *)
EXTENDS Session

RefEnd(r) == CHOOSE j \in 1..Len(Ev(r)) : Op(r, j) = "histfp" /\ \A i \in 1..(j - 1) : Op(r, i) # "histfp"
(* the event of the uninterrupted execution after n steps *)
FirstStep(r) == CHOOSE j \in 1..RefEnd(r) : Op(r, j) = "iterate" /\ \A i \in 1..(j - 1) : Op(r, i) # "iterate"
Ref(r, n) == FirstStep(r) + n - 1

(* has the simulation of event k been through a JSON snapshot? *)
RECURSIVE ThroughJson(_, _)
ThroughJson(r, k) ==
    CASE k = 0 -> FALSE
      [] Op(r, k) \in {"new", "reset"} -> FALSE
      [] Op(r, k) = "restore" -> Ev(r)[k].args[1] = "x.json" \/ ThroughJson(r, SaveOf(r, k))
      [] OTHER -> ThroughJson(r, k - 1)

Tol(r) == IF Cfg(r).kind = "ias15" THEN R("1e-4") ELSE R("1e-9")
BClose(r, a, b) ==
    /\ \A f \in {"m", "r", "rg2", "I"} : Close(a[f], b[f], Abs(a[f]), Tol(r))
    /\ VClose(a.x, b.x, Norm(a.x) (+) Cfg(r).xs, Tol(r))
    /\ VClose(a.v, b.v, Norm(a.v) (+) Cfg(r).vs, Tol(r))
    /\ VClose(a.s, b.s, Norm(a.s), Tol(r))

(* IAS15 chooses its steps from the rounding noise of its own error estimate, so that decimal rounding grows  *)
(* fast: after a JSON snapshot its first two steps are compared with those made after that snapshot was saved *)
Loose(r, k) == Cfg(r).kind = "ias15" /\ ThroughJson(r, k)
RestoreOf(r, k) == Last(r, k, LAMBDA j : Op(r, j) = "restore")
Since(r, a, b) == {j \in (a + 1)..b : Op(r, j) = "iterate"}
Twin(r, k) ==
    LET q == RestoreOf(r, k) sv == SaveOf(r, q) m == Cardinality(Since(r, q, k))
        T == {j \in Since(r, sv, q - 1) : Cardinality(Since(r, sv, j)) = m /\ \A i \in sv..j : Op(r, i) # "restore"} IN
    IF q = 0 \/ m > 2 \/ T = {} THEN 0 ELSE CHOOSE j \in T : TRUE
StateClose(r, k, e, a) ==
    /\ Chk(r, k, "json: same time", Close(e.it.t, a.it.t, Abs(a.it.t) (+) a.it.dt, Tol(r)))
    /\ Chk(r, k, "json: same state", \A i \in 1..a.st.n : BClose(r, a.st.b[i], e.st.b[i]))

Allowed(r, k) ==
    LET e == Ev(r)[k] IN
    CASE e.op = "iterate" /\ k > RefEnd(r) /\ Loose(r, k) ->
           LET j == Twin(r, k) IN
           /\ Chk(r, k, "a resumed run goes on", e.res = "ok")
           /\ j > 0 => StateClose(r, k, e, Ev(r)[j])
      [] e.op = "iterate" /\ k > RefEnd(r) /\ ~Loose(r, k) ->
           LET n == Steps(r, k) j == Ref(r, n) a == Ev(r)[j] IN
           /\ Chk(r, k, "a resumed run goes on", e.res = "ok")
           /\ Chk(r, k, "it ends when the uninterrupted run does", (e.out.ret = "done") = (a.out.ret = "done"))
           /\ Chk(r, k, "same number of history records", e.it.nh = a.it.nh)
           /\ IF ~ThroughJson(r, k)
              THEN /\ Chk(r, k, "same time and step", RealEq(e.it.t, a.it.t) /\ RealEq(e.it.dt, a.it.dt) /\ RealEq(e.it.lh, a.it.lh))
                   /\ Chk(r, k, "same physical state, bit for bit", e.it.pfp = a.it.pfp)
              ELSE StateClose(r, k, e, a)
      [] e.op = "histfp" /\ k > RefEnd(r) ->
           LET a == Ev(r)[RefEnd(r)] IN
           /\ Loose(r, k) \/ Chk(r, k, "history has the same length", e.out.hlen = a.out.hlen)
           /\ ThroughJson(r, k) \/ Chk(r, k, "history is the same, byte for byte", e.out.hfp = a.out.hfp)
      [] e.op = "restore" -> Chk(r, k, "the snapshot is restored", e.res = "ok" /\ e.out.ret = "ok")
      [] OTHER -> Chk(r, k, "the program works", e.res = "ok")

Next == Walk(Allowed)
=============================================================================
