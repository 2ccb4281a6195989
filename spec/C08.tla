-------------------------------- MODULE C08 --------------------------------
(* Declarations replayed into the code: accepted exactly as in Config, with    *)
(* the effects, hosts and reference the specification says.                     *)
EXTENDS TraceBase, Physics, Config

Decl(r) == [i \in 1..Len(Cfg(r).bodies) |-> LET q == Cfg(r).bodies[i] IN
    [tides |-> [role |-> q.tides.role, model |-> q.tides.model, visc |-> IF "visc" \in DOMAIN q.tides THEN q.tides.visc ELSE Zero],
     flat |-> [role |-> q.flat.role, model |-> q.flat.model, visc |-> IF "visc" \in DOMAIN q.flat THEN q.flat.visc ELSE Zero],
     gr |-> q.gr,
     disk |-> [role |-> q.disk.role, void |-> IF q.disk.role = "central" THEN RealEq(q.disk.inner, Zero) /\ RealEq(q.disk.outer, Zero) ELSE FALSE],
     wind |-> [on |-> q.wind.on], evol |-> [on |-> q.evol.type # "none"]]]
Wanted(r) == {e \in Effects6 : Cfg(r).effects[e]}

NewOk(r, k) ==
    LET e == Ev(r)[k]  d == Decl(r)  mx == MostMassive(Cfg(r).bodies)  on == Enabled(d, Wanted(r)) IN
    IF Accepted(d, Wanted(r), mx)
    THEN /\ Chk(r, k, "accepted", e.res = "ok")
         /\ Chk(r, k, "number of bodies", e.st.n = Len(d))
         /\ Chk(r, k, "reference is the most massive body", e.st.host.mm + 1 = mx)
         /\ Chk(r, k, "enabled exactly when requested and provided", \A x \in Effects6 : e.st.eff[x] = (x \in on))
         /\ Chk(r, k, "the host is the declared central body", \A x \in Hosted \cap on : e.st.host[x] + 1 = HostOf(d, x))
         /\ Chk(r, k, "relativity as declared", e.st.gri = (IF "gr" \in on THEN d[HostOf(d, "gr")].gr.impl ELSE "none"))
         /\ Chk(r, k, "bodies in the order listed", \A i \in 1..Len(d) : e.st.b[i].id = i - 1 /\ e.st.b[i].m = Cfg(r).bodies[i].m)
    ELSE Chk(r, k, "rejected", e.res = "panic")

(* an accepted declaration can be simulated *)
Allowed(r, k) ==
    LET e == Ev(r)[k] IN
    (IF e.op = "new" THEN NewOk(r, k)
        ELSE Chk(r, k, "an accepted configuration works", e.res = "ok" \/ (e.res = "panic" /\ e.why \in {"destroyed", "collision", "ejected"})))
Next == Walk(Allowed)
=============================================================================
