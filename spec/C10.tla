-------------------------------- MODULE C10 --------------------------------
(* The order in which bodies are listed carries no meaning, except where the      *)
(* algorithm itself is defined by it (Jacobi coordinates).                        *)
EXTENDS Listing
(* mode "one" leaves out the pair of the host and the first other body; Anderson   *)
(* relativity uses Jacobi coordinates of the orbiting bodies                        *)
OrderMatters(r, k) == LET e == Ev(r)[k] IN
    \/ GRKind(r) = "anderson"
    \/ e.op = "gravity" /\ e.args[1] = "one"
    \/ e.op = "effects" /\ e.args[5] = "one" /\ GRKind(r) # "none"
    \/ e.op = "iterate" /\ Setup(r, k).kind = "whfast" /\ Setup(r, k).coord = "jacobi"
Comparable(r, j, k) == OrderMatters(r, k) => Rest(r, j) = Rest(r, k)
Visits(r, k) == {j \in 1..(k - 1) : /\ Ev(r)[j].op = Ev(r)[k].op /\ Ev(r)[j].args = Ev(r)[k].args
                                    /\ Comparable(r, j, k)
                                    /\ SameState(ById(r, k), ById(r, j))
                                    /\ (Ev(r)[k].op = "effects" => GravityKnown(r, j))}
(* (which of several offending pairs is found first does depend on the order) *)
SameEnd(r, j, k) == Ev(r)[j].res = Ev(r)[k].res
First(S) == {j \in S : \A q \in S : j <= q}
(* the mean motion of the partners sets the size of what is summed at the host *)
Big(b, F(_)) == MaxR([q \in 1..Len(b) |-> b[q].m (\X) Norm(F(b[q]))])
Agree(r, k, j) ==
    LET now == TLCEval(ById(r, k))  was == TLCEval(ById(r, j))  b == Post(r, Known(r, k)).b  op == Ev(r)[k].op
        fa == Big(b, LAMBDA q : q.ad)  ta == Big(b, LAMBDA q : q.dL)  ga == Big(b, LAMBDA q : q.a) IN
    SameEnd(r, j, k) /\ (Ev(r)[k].res = "ok" => \A i \in DOMAIN now : LET p == now[i] q == was[i] IN
        CASE op = "effects" ->
               /\ Ev(r)[k].args[4] => VClose(p.ad, q.ad, IF i = Host(r) \/ GRKind(r) # "none" THEN fa (/) p.m ELSE Norm(p.ad), R("1e-10"))
               /\ Ev(r)[k].args[3] => VClose(p.dL, q.dL, Norm(p.dL) (+) (R("1e-3") (\X) SumR([z \in 1..Len(b) |-> Norm(b[z].dL)])), R("1e-9"))
               /\ p.r = q.r /\ p.rg2 = q.rg2
          [] op = "gravity" -> VClose(p.a, q.a, (ga (/) p.m) (+) Norm(p.a), R("1e-11"))
          [] op = "helio" -> p.hx = q.hx /\ p.hv = q.hv /\ Close(p.hd, q.hd, p.hd, R("1e-14"))
          [] OTHER -> TRUE)
Extent(b) == MaxR([q \in 1..Len(b) |-> Norm(b[q].x)])
Speed(b) == MaxR([q \in 1..Len(b) |-> Norm(b[q].v)])
Push(b) == MaxR([q \in 1..Len(b) |-> Norm(b[q].a) (+) Norm(b[q].ad)])
IterateOk(r, k) ==
    LET n == StepNo(r, k)
        e == {j \in 1..(k - 1) : Ev(r)[j].op = "iterate" /\ StepNo(r, j) = n /\ Setup(r, j) = Setup(r, k) /\ Comparable(r, j, k)}
    IN \A j \in First(e) : LET now == TLCEval(ById(r, k)) was == TLCEval(ById(r, j)) b == Post(r, Known(r, k)).b IN
        Chk(r, k, "trajectory whatever the order of the bodies",
          /\ SameEnd(r, j, k)
          /\ Ev(r)[k].res = "ok" => Ev(r)[j].out.ret = Ev(r)[k].out.ret
          /\ Ev(r)[k].res = "ok" => \A i \in DOMAIN now : LET lag == Abs(Ev(r)[k].it.t (-) Ev(r)[j].it.t) IN
                                   \* an adaptive step may be chosen slightly differently: then the bodies are that much ahead
                                   /\ VClose(now[i].x, was[i].x, Extent(b) (+) (R("2e8") (\X) lag (\X) Speed(b)), R("1e-8"))
                                   /\ VClose(now[i].v, was[i].v, Speed(b) (+) (R("1e9") (\X) lag (\X) Push(b)), R("1e-8"))
                                   /\ VClose(now[i].L, was[i].L, Norm(now[i].L) (+) (R("1e9") (\X) lag (\X) (Norm(now[i].dL) (+) Norm(now[i].L))), R("1e-8")))
Allowed(r, k) ==
    LET e == Ev(r)[k] IN
    /\ e.op \notin {"gravity", "iterate"} => Chk(r, k, "no failure", e.res = "ok")
    /\ CASE e.op = "effects" /\ ~GravityKnown(r, k) -> TRUE
         [] e.op \in {"effects", "gravity", "helio"} -> \A j \in First(Visits(r, k)) : Chk(r, k, "same result whatever the order of the bodies", Agree(r, k, j))
         [] e.op = "energy" -> \A j \in First(Visits(r, k)) : Chk(r, k, "energy whatever the order of the bodies",
                /\ Close(e.out.e, Ev(r)[j].out.e, Abs(e.out.e), R("1e-10")) /\ Close(e.out.l, Ev(r)[j].out.l, Abs(e.out.l), R("1e-10")))
         [] e.op = "iterate" -> IterateOk(r, k)
         [] OTHER -> TRUE
Next == Walk(Allowed)
=============================================================================
