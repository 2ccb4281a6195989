-------------------------------- MODULE C25 --------------------------------
(* The Python front end.  A declaration written as a case file by the Python     *)
(* package and read by the simulator is the simulation that the declaration       *)
(* describes: accepted under the same conditions, with the same bodies, effects,   *)
(* hosts, model tables and integrator as when declared in Rust.                    *)
(* A run: note (what Python did), new, integ, iinit (declared in Rust), keep,       *)
(* restore (the case file), differ (leaves of both that are not the same number).  *)
EXTENDS TraceBase, Physics, Config

Decl(r) == [i \in 1..Len(Cfg(r).bodies) |-> LET q == Cfg(r).bodies[i] IN
    [tides |-> [role |-> q.tides.role, model |-> q.tides.model, visc |-> IF "visc" \in DOMAIN q.tides THEN q.tides.visc ELSE Zero],
     flat |-> [role |-> q.flat.role, model |-> q.flat.model, visc |-> IF "visc" \in DOMAIN q.flat THEN q.flat.visc ELSE Zero],
     gr |-> q.gr,
     disk |-> [role |-> q.disk.role, void |-> IF q.disk.role = "central" THEN RealEq(q.disk.inner, Zero) /\ RealEq(q.disk.outer, Zero) ELSE FALSE],
     wind |-> [on |-> q.wind.on], evol |-> [on |-> q.evol.type # "none"]]]
Wanted(r) == {e \in Effects6 : Cfg(r).effects[e]}
Top(r) == MostMassive(Cfg(r).bodies)

(* a model must exist for the body's mass, and cover the whole simulation *)
Covered(r) == \A i \in 1..Len(Cfg(r).bodies) : LET t == Cfg(r).bodies[i].tab IN
    (t.on => (t.known /\ Le(t.lo, Cfg(r).t0) /\ Le(Cfg(r).t0 (+) Cfg(r).tlimit, t.hi)))
Good(r) == Accepted(Decl(r), Wanted(r), Top(r)) /\ Covered(r)
(* two centres of an effect nobody asked for: a front end may refuse them *)
Spare(r) == [i \in 1..Len(Decl(r)) |-> [e \in DOMAIN Decl(r)[i] |->
    IF e \in Hosted /\ e \notin Wanted(r) /\ i # (IF Centres(Decl(r), e) = {} THEN 0 ELSE HostOf(Decl(r), e)) THEN [Decl(r)[i][e] EXCEPT !.role = "none"] ELSE Decl(r)[i][e]]]
Open(r) == ~Good(r) /\ Covered(r) /\ Accepted(Spare(r), Wanted(r), Top(r)) /\ \A i \in 1..Len(Decl(r)) : BodyOk(Decl(r)[i])

NoteOk(r, k) == LET o == Ev(r)[k].out.note IN
    /\ Chk(r, k, "python: a valid declaration is accepted", Good(r) => o.res = "ok")
    /\ Chk(r, k, "python: an invalid declaration is refused", (Good(r) \/ Open(r)) \/ o.res = "panic")
    /\ Chk(r, k, "python: written twice, the same case", o.again)
NewOk(r, k) == Chk(r, k, "rust: accepted exactly when valid", (Ev(r)[k].res = "ok") <=> Good(r))

(* the case as the simulator reads it *)
CaseOk(r, k) ==
    LET e == Ev(r)[k]  d == Decl(r)  on == Enabled(d, Wanted(r))  b == e.st.b  c == Cfg(r).bodies  n == Len(c)  g == Cfg(r).integ
        xs == MaxR([i \in 1..n |-> Norm(c[i].x)]) (+) R("1e-300")  vs == MaxR([i \in 1..n |-> Norm(c[i].v)]) (+) R("1e-300")
        Tol == R("1e-11")
    IN IF Ev(r)[1].out.note.res # "ok" THEN TRUE
       ELSE /\ Chk(r, k, "the case can be read", e.res = "ok" /\ e.out.ret = "ok")
            /\ Chk(r, k, "case: number of bodies", e.st.n = n)
            /\ Chk(r, k, "case: bodies in the order listed", \A i \in 1..n : b[i].id = i - 1 /\ Close(b[i].m, c[i].m, c[i].m, R("1e-15")) /\ Close(b[i].mg, G (\X) c[i].m, b[i].mg, Tol))
            /\ Chk(r, k, "case: relative positions", \A i, j \in 1..n : VClose(RelX(b, i, j), VSub(c[i].x, c[j].x), xs, Tol))
            /\ Chk(r, k, "case: relative velocities", \A i, j \in 1..n : VClose(RelV(b, i, j), VSub(c[i].v, c[j].v), vs, Tol))
            /\ Chk(r, k, "case: barycentric", VClose(CoM(b, LAMBDA j : b[j].x), Vec0, xs, Tol) /\ VClose(CoM(b, LAMBDA j : b[j].v), Vec0, vs, Tol))
            /\ Chk(r, k, "case: reference is the most massive body", e.st.host.mm + 1 = Top(r))
            /\ Chk(r, k, "case: effects as requested and provided", Open(r) \/ \A x \in Effects6 : e.st.eff[x] = (x \in on))
            /\ Chk(r, k, "case: hosts as declared", Open(r) \/ \A x \in Hosted \cap on : e.st.host[x] + 1 = HostOf(d, x))
            /\ Chk(r, k, "case: relativity as declared", e.st.gri = (IF "gr" \in on THEN d[HostOf(d, "gr")].gr.impl ELSE "none"))
            /\ Chk(r, k, "case: angular momentum of the declared spin", \A i \in 1..n : VClose(b[i].L, VScale(b[i].I, c[i].s), b[i].I (\X) Norm(c[i].s) (+) R("1e-300"), Tol))
            /\ Chk(r, k, "case: integrator", e.it.kind = g.kind /\ RealEq(e.it.dt, g.dt) /\ RealEq(e.it.hp, g.hp) /\ RealEq(e.it.rp, g.rp) /\ RealEq(e.it.t, Zero) /\ e.it.nh = 0)

(* Differences that mean nothing: bookkeeping of searches, the stored hash, the   *)
(* relativity factor of bodies without relativity, numbers that come from sums     *)
(* whose order is free (scale: what was added) and the last of seven digits to      *)
(* which a table is rounded.                                                        *)
Known(r, x) ==
    LET p == x.p  m == Len(p)  num == x.kind = "number" IN
    \/ p = <<"hash">>
    \/ p[m] = "left_index"
    \/ num /\ m >= 2 /\ p[2] = "roche_radiuses" /\ Close(x.a, x.b, Abs(x.a), R("1e-12"))
    \/ /\ num /\ m >= 4 /\ p[1] = "universe" /\ p[2] = "particles"
       /\ \/ p[4] \in {"inertial_position", "inertial_velocity"}
          \/ p[4] = "general_relativity" /\ p[m] = "factor" /\ \A i \in 1..Len(Cfg(r).bodies) : (ToString(i - 1) = p[3]) => Cfg(r).bodies[i].gr.role # "orbiting"
          \/ Close(x.a, x.b, Abs(x.a), R("1e-12"))
    \/ /\ num /\ m = 5 /\ p[2] = "particles_evolvers"
       /\ \/ p[4] = "time" /\ Close(x.a, x.b, Abs(x.a) (+) Cfg(r).t0, R("1e-14"))
          \/ p[4] = "radius_of_gyration_2" /\ Close(x.a, x.b, One, R("1.1e-7"))
          \/ p[4] \in {"radius", "inverse_tidal_q_factor", "love_number"} /\ Close(x.a, x.b, Abs(x.a), R("1e-13"))
(* the gyration radius of a brown dwarf model, and what follows from it *)
Gyration(r, x) ==
    LET p == x.p IN
    /\ x.kind = "number" /\ Len(p) >= 4 /\ p[2] \in {"particles", "particles_evolvers"}
    /\ p[4] \in {"radius_of_gyration_2", "moment_of_inertia", "angular_momentum"}
    /\ \E i \in 1..Len(Cfg(r).bodies) : ToString(i - 1) = p[3] /\ Cfg(r).bodies[i].evol.type = "Leconte2011"
DifferOk(r, k) ==
    LET e == Ev(r)[k]  D == e.out.diffs IN
    IF Ev(r)[1].out.note.res # "ok" \/ Ev(r)[2].res # "ok" \/ Ev(r)[6].res # "ok" THEN TRUE
    ELSE /\ Chk(r, k, "same as when declared in Rust", \A j \in 1..Len(D) : Gyration(r, D[j]) \/ Known(r, D[j]))
         /\ Note(r, k, "brown dwarfs: gyration radii as when declared in Rust", \A j \in 1..Len(D) : Gyration(r, D[j]) => Known(r, D[j]))
         /\ Chk(r, k, "list of differences complete", e.out.ndiffs = Len(D))

Allowed(r, k) ==
    LET e == Ev(r)[k] IN
    CASE e.op = "note" -> k > 1 \/ NoteOk(r, k)
      [] e.op = "new" -> NewOk(r, k)
      [] e.op = "restore" -> CaseOk(r, k)
      [] e.op = "differ" -> DifferOk(r, k)
      [] OTHER -> TRUE
Next == Walk(Allowed)
=============================================================================
