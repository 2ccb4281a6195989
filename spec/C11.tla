-------------------------------- MODULE C11 --------------------------------
(* Newtonian gravity, frames, energy and angular momentum. *)
EXTENDS TraceBase, Physics

Tol == R("1e-11")

(* Building a universe: barycentric frame, relative state preserved, masses kept. *)
NewOk(r, k) ==
    LET b == Post(r, k).b  c == Cfg(r).bodies  n == Len(c)
        xs == MaxR([i \in 1..n |-> Norm(c[i].x)])  vs == MaxR([i \in 1..n |-> Norm(c[i].v)])
    IN /\ Chk(r, k, "new: number of bodies", Len(b) = n)
       /\ Chk(r, k, "new: masses", \A i \in 1..n : b[i].m = c[i].m /\ Close(b[i].mg, G (\X) c[i].m, b[i].mg, Tol))
       /\ Chk(r, k, "new: relative positions preserved", \A i, j \in 1..n :
                VClose(RelX(b, i, j), VSub(c[i].x, c[j].x), xs (+) R("1e-300"), Tol))
       /\ Chk(r, k, "new: relative velocities preserved", \A i, j \in 1..n :
                VClose(RelV(b, i, j), VSub(c[i].v, c[j].v), vs (+) R("1e-300"), Tol))
       /\ Chk(r, k, "new: centre of mass at rest at the origin",
                /\ VClose(CoM(b, LAMBDA j : b[j].x), Vec0, xs (+) R("1e-300"), Tol)
                /\ VClose(CoM(b, LAMBDA j : b[j].v), Vec0, vs (+) R("1e-300"), Tol))
       /\ Chk(r, k, "new: reference is the most massive body", Post(r, k).host.mm + 1 = MostMassive(b))

Unmoved(r, k) == Chk(r, k, "positions, velocities, masses and angular momenta untouched",
    LET b == Post(r, k).b  p == Pre(r, k).b IN
    \A i \in 1..Len(p) : b[i].x = p[i].x /\ b[i].v = p[i].v /\ b[i].m = p[i].m /\ b[i].L = p[i].L)

GravityOk(r, k) ==
    LET b == Post(r, k).b  h == MostMassive(b)  mode == Ev(r)[k].args[1]
        sc == [i \in 1..Len(b) |-> GravScale(b, mode, h, i)]
        msc == SumR([i \in 1..Len(b) |-> b[i].m (\X) sc[i]])
        lsc == SumR([i \in 1..Len(b) |-> b[i].m (\X) sc[i] (\X) Norm(b[i].x)])
    IN /\ Unmoved(r, k)
       /\ Chk(r, k, "gravity: acceleration", \A i \in 1..Len(b) : VClose(b[i].a, GravAcc(b, mode, h, i), sc[i], Tol))
       /\ Chk(r, k, "gravity: total force vanishes",
              VClose(SumOverV(All(b), LAMBDA i : VScale(b[i].m, b[i].a)), Vec0, msc, Tol))
       /\ Chk(r, k, "gravity: total torque vanishes",
              VClose(SumOverV(All(b), LAMBDA i : VScale(b[i].m, Cross(b[i].x, b[i].a))), Vec0, lsc, Tol))

HelioOk(r, k) ==
    LET b == Post(r, k).b  h == MostMassive(b) IN
    /\ Unmoved(r, k)
    /\ \A i \in 1..Len(b) : LET x == RelX(b, i, h) v == RelV(b, i, h) IN
       /\ Chk(r, k, "helio: position", VClose(b[i].hx, x, Norm(x), Tol))
       /\ Chk(r, k, "helio: velocity", VClose(b[i].hv, v, Norm(v), Tol))
       /\ Chk(r, k, "helio: distance", Close(b[i].hd, Norm(x), Norm(x), Tol))
       /\ Chk(r, k, "helio: radial velocity", i = h \/ Close(b[i].hrv, Dot(x, v) (/) Norm(x), Norm(v), Tol))
       /\ Chk(r, k, "helio: speed", Close(b[i].hn, Norm(v), Norm(v), Tol) /\ Close(b[i].hn2, Norm2(v), Norm2(v), Tol))

(* kinetic energy of the heliocentric velocities and pairwise potential energy *)
EnergyOk(r, k) ==
    LET b == Post(r, k).b  o == Ev(r)[k].out
        kin == SumOver(All(b), LAMBDA i : Half (\X) b[i].m (\X) Norm2(b[i].hv))
        pot == SumOver(All(b), LAMBDA i : Half (\X) SumOver(Others(b, i), LAMBDA j :
                 (G (\X) b[i].m (\X) b[j].m) (/) Norm(VSub(b[i].hx, b[j].hx))))
        Lz == SumOverV(All(b), LAMBDA i : VScale(b[i].m, Cross(b[i].hx, b[i].hv)))
        ls == SumOver(All(b), LAMBDA i : b[i].m (\X) Norm(b[i].hx) (\X) Norm(b[i].hv))
    IN /\ Unmoved(r, k)
       /\ Chk(r, k, "energy", Close(o.e, kin (-) pot, kin (+) pot, Tol))
       /\ Chk(r, k, "angular momentum", Close(o.l, Norm(Lz), ls, Tol))

Allowed(r, k) ==
    LET e == Ev(r)[k] IN
    /\ Chk(r, k, "no failure", e.res = "ok")
    /\ CASE e.op = "new" -> NewOk(r, k)
         [] e.op = "gravity" -> GravityOk(r, k)
         [] e.op = "helio" -> HelioOk(r, k)
         [] e.op = "energy" -> EnergyOk(r, k)
         [] OTHER -> TRUE

Next == Walk(Allowed)
=============================================================================
