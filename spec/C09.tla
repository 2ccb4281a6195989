-------------------------------- MODULE C09 --------------------------------
(* What is computed for a physical state is a function of that state: it does    *)
(* not depend on earlier calculations, on output, nor on what is switched off.    *)
EXTENDS Listing
Same(r, k, a, b) ==          \* a, b: the same body in two observations of the same state
    /\ Ev(r)[k].args[4] => a.ad = b.ad
    /\ Ev(r)[k].args[3] => a.dL = b.dL
    /\ a.r = b.r /\ a.rg2 = b.rg2 /\ a.s = b.s
    /\ On(r, "tides") => a.k2 = b.k2 /\ a.lag = b.lag
Near(r, k, a, b) ==
    /\ Ev(r)[k].args[4] => VClose(a.ad, b.ad, Norm(b.ad), R("1e-11"))
    /\ Ev(r)[k].args[3] => VClose(a.dL, b.dL, Norm(b.dL), R("1e-11"))
(* earlier visits of the same state with the same question *)
Visits(r, k) == {j \in 1..(k - 1) : /\ Ev(r)[j].op = Ev(r)[k].op /\ Ev(r)[j].args = Ev(r)[k].args /\ Ev(r)[j].res = "ok"
                                    /\ Ids(r, k) \subseteq Ids(r, j)
                                    /\ SameState(ById(r, k), ById(r, j))
                                    /\ (Ev(r)[k].op = "effects" => GravityKnown(r, j))}
First(S) == {j \in S : \A q \in S : j <= q}
EffectsOk(r, k) ==
    LET now == TLCEval(ById(r, k)) v == TLCEval(Visits(r, k)) IN
    /\ Chk(r, k, "finite results", \A i \in DOMAIN now : (Ev(r)[k].args[4] => VFin(now[i].ad)) /\ (Ev(r)[k].args[3] => VFin(now[i].dL)) /\ VFin(now[i].s) /\ IsFinite(now[i].r))
    /\ Chk(r, k, "idle bodies receive nothing", \A i \in DOMAIN now : Idle(r, i) => (Ev(r)[k].args[4] => VZero(now[i].ad)) /\ (Ev(r)[k].args[3] => VZero(now[i].dL)))
    /\ Chk(r, k, "same state, same forces, torques and properties",
           \A j \in First({j \in v : Order(r, j) = Order(r, k)}) : LET was == ById(r, j) IN \A i \in DOMAIN now : Same(r, k, now[i], was[i]))
    /\ Chk(r, k, "idle bodies do not matter",
           GRKind(r) \notin {"anderson", "newhall"} =>
           \A j \in First({j \in v : Ids(r, j) # Ids(r, k) /\ \A i \in Ids(r, j) \ Ids(r, k) : Idle(r, i) /\ i # Host(r)}) :
              LET was == ById(r, j) IN \A i \in DOMAIN now : Near(r, k, now[i], was[i]))
(* output and other bookkeeping do not steer the simulation *)
SameSetup(a, b) == a.kind = b.kind /\ a.dt = b.dt /\ a.coord = b.coord
IterateOk(r, k) ==
    LET n == StepNo(r, k)
        e == {j \in 1..(k - 1) : Ev(r)[j].op = "iterate" /\ StepNo(r, j) = n /\ SameSetup(Setup(r, j), Setup(r, k)) /\ Order(r, j) = Order(r, k)}
    IN \A j \in First(e) : Chk(r, k, "history, queries and snapshots do not change the trajectory",
          /\ Ev(r)[j].res = Ev(r)[k].res
          /\ (Ev(r)[j].out.ret = "done") = (Ev(r)[k].out.ret = "done")
          /\ \A i \in 1..Len(Post(r, k).b) : SameBody(Post(r, k).b[i], Post(r, j).b[i]) /\ Post(r, k).b[i].r = Post(r, j).b[i].r)
(* everything that is written was calculated just before (as the integrators do) *)
Full(r, k) == LET j == LastOp(r, k, "effects") IN j > 0 /\ Ev(r)[j].args[3] /\ Ev(r)[j].args[4] /\ (\A q \in (j + 1)..(k - 1) : Ev(r)[q].op = "denergy")
                 /\ (On(r, "tides") /\ HasCentral(Cfg(r).bodies, "tides") => k - j > 1)
Allowed(r, k) ==
    LET e == Ev(r)[k] IN
    /\ e.op # "gravity" => Chk(r, k, "no failure", e.res = "ok")
    /\ IsReadOnly(e.op) /\ e.res = "ok" => Chk(r, k, "calculations leave the physical state alone", \A i \in 1..Len(Post(r, k).b) : SameBody(Post(r, Known(r, k - 1)).b[i], Post(r, k).b[i]))
    /\ CASE e.op = "effects" /\ ~GravityKnown(r, k) -> TRUE
         [] e.op = "effects" -> EffectsOk(r, k)
         [] e.op = "iterate" -> IterateOk(r, k)
         [] e.op = "record" -> Chk(r, k, "same state, same record",
                Full(r, k) => \A j \in First({j \in Visits(r, k) : Order(r, j) = Order(r, k) /\ Full(r, j) /\ Ev(r)[LastOp(r, j, "effects")].args = Ev(r)[LastOp(r, k, "effects")].args}) : e.out.rec = Ev(r)[j].out.rec)
         [] OTHER -> TRUE
Next == Walk(Allowed)
=============================================================================
