-------------------------------- MODULE C17 --------------------------------
(* General relativity: the accelerations and torques of the selected formula. *)
EXTENDS TraceBase, Relativity
Tol == R("1e-12")
AccOk(c, b, q, var) ==
    LET nw == TLCEval(Newton(b))  e == TLCEval(GRAcc(c, b, nw, var))  z == TLCEval(GRAccSize(c, b, nw, var))  s == TLCEval(GRSlack(c, b, nw)) IN
    \A i \in 1..Len(b) : VClose(q[i].ad, e[i], (Tol (\X) z[i]) (+) s[i], One)
TorOk(c, b, q, var) ==
    \A i \in 1..Len(b) : VClose(q[i].dL, GRTorque(c, b, i, var), GRTorqueSize(c, b, i, var), Tol)
Clears(c, q) == \A i \in 1..Len(q) : Takes(c, i) \/ VZero(q[i].ad)
EffectsOk(r, k) ==
    LET c == Cfg(r).bodies  p == Pre(r, k).b  q == Post(r, k).b  impl == GRImpl(c)
        acc == Ev(r)[k].args[4]  dl == Ev(r)[k].args[3]
        variants == IF impl = "kidder" THEN {"published", "known"} ELSE {"published"}
    IN /\ Chk(r, k, "state untouched", \A i \in 1..Len(p) : p[i].x = q[i].x /\ p[i].v = q[i].v /\ p[i].L = q[i].L /\ p[i].m = q[i].m)
       /\ acc => /\ Chk(r, k, "relativistic accelerations of the selected formula", \E var \in variants : AccOk(c, p, q, var))
                 /\ impl = "kidder" => Note(r, k, "kidder: accelerations as published", AccOk(c, p, q, "published"))
                 /\ Chk(r, k, "only bodies with relativity are accelerated", Clears(c, q))
                 /\ impl = "kidder" => Chk(r, k, "kidder: forces on host and bodies are opposite",
                        LET h == Central(c, "gr") s == SumOver(GROrbiting(c), LAMBDA j : p[j].m (\X) Norm(q[j].ad)) IN
                        VClose(SumOverV(All(p), LAMBDA j : VScale(p[j].m, q[j].ad)), Vec0, s, Tol))
       /\ (dl /\ impl = "kidder") => /\ Chk(r, k, "kidder: spin precession", \E var \in variants : TorOk(c, p, q, var))
                                     /\ Note(r, k, "kidder: spin precession as published", TorOk(c, p, q, "published"))
       /\ (dl /\ impl # "kidder") => Chk(r, k, "no torque without Kidder", \A i \in 1..Len(q) : VZero(q[i].dL))
Allowed(r, k) ==
    LET e == Ev(r)[k] IN
    /\ Chk(r, k, "no failure", e.res = "ok")
    /\ CASE e.op = "effects" -> EffectsOk(r, k)
         [] OTHER -> TRUE
Next == Walk(Allowed)
=============================================================================
