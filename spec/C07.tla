------------------------------- MODULE C07 -------------------------------
(* Snapshots restore the exact simulation; proper prefixes are rejected.     *)
EXTENDS Session

BodyClose(a, b) ==
    /\ \A f \in {"m", "r", "rg2", "I"} : Close(a[f], b[f], Abs(a[f]), R("1e-13"))
    /\ VClose(a.x, b.x, Norm(a.x), R("1e-13"))
    /\ VClose(a.v, b.v, Norm(a.v), R("1e-13"))
    /\ VClose(a.L, b.L, Norm(a.L), R("1e-13"))
    /\ VClose(a.s, b.s, Norm(a.s), R("1e-13"))

Same(x, y) == RealEq(x, y) \/ Close(x, y, Abs(x), R("1e-13"))

Allowed(r, k) ==
    LET e == Ev(r)[k] IN
    CASE e.op = "save" -> Chk(r, k, "saving works", e.res = "ok")
      [] e.op = "restore" ->
           LET j == SaveOf(r, k) a == Ev(r)[j] IN
           /\ Chk(r, k, "a complete snapshot is restored", e.res = "ok" /\ e.out.ret = "ok")
           /\ Chk(r, k, "same integrator", e.it.kind = a.it.kind)
           /\ IF e.args[1] \in {"a.bin", "b.bin"}
              THEN /\ Chk(r, k, "binary: same simulation bit for bit", e.it.fp = a.it.fp)
                   /\ Chk(r, k, "binary: same state", e.st = a.st /\ e.it = a.it)
              ELSE /\ Chk(r, k, "json: same configuration", e.st.host = a.st.host /\ e.st.eff = a.st.eff /\ e.st.gri = a.st.gri /\ e.st.n = a.st.n /\ e.it.nh = a.it.nh)
                   /\ Chk(r, k, "json: same bodies", \A i \in 1..a.st.n : BodyClose(a.st.b[i], e.st.b[i]))
                   /\ Chk(r, k, "json: same times", \A f \in {"t", "dt", "lh", "lr", "hp", "rp"} : Same(a.it[f], e.it[f]))
                   /\ Chk(r, k, "json: same limits", Same(a.st.tl, e.st.tl) /\ Same(a.st.t0, e.st.t0))
      [] e.op = "truncall" ->
           /\ Chk(r, k, "prefixes are tried", e.res = "ok" /\ e.out.tried > 0)
           /\ Chk(r, k, "no proper prefix is restored", \A i \in DOMAIN e.out.accepted : e.out.accepted[i] = e.out.lf)
           /\ Chk(r, k, "no prefix of the LeapFrog layout's length is restored", Len(e.out.accepted) = 0)
      [] OTHER -> Chk(r, k, "the simulation runs", e.res = "ok")

Next == Walk(Allowed)
=============================================================================
