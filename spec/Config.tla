------------------------------- MODULE Config -------------------------------
(* Which declarations make a universe, and which effects it ends up with.       *)
(* A declaration is a sequence b of bodies, each with a role per effect, and the *)
(* set req of requested effects.  mm is the index of the most massive body.      *)
EXTENDS Integers, Sequences, FiniteSets
Effects6 == {"tides", "flat", "gr", "disk", "wind", "evol"}
Hosted == {"tides", "flat", "gr", "disk"}
MaxN == 10

(* body q hosts effect e: a relativity centre without formula and a disk without *)
(* extent are no centres                                                         *)
Hosts(q, e) == q[e].role = "central" /\ (e = "gr" => q[e].impl # "none") /\ (e = "disk" => ~q[e].void)
Centres(b, e) == {i \in 1..Len(b) : Hosts(b[i], e)}
Provided(b, e) == IF e \in Hosted THEN Centres(b, e) # {} ELSE \E i \in 1..Len(b) : b[i][e].on
Enabled(b, req) == {e \in Effects6 : e \in req /\ Provided(b, e)}
HostOf(b, e) == CHOOSE i \in Centres(b, e) : TRUE

(* one body: creep is not mixed with another model, nor two viscosities *)
BodyOk(q) ==
    (q.tides.role # "none" /\ q.flat.role # "none") =>
        /\ (q.tides.model = "creep") <=> (q.flat.model = "creep")
        /\ (q.tides.model = "creep") => q.tides.visc = q.flat.visc

Accepted(b, req, mm) ==
    LET on == Enabled(b, req) IN
    /\ Len(b) <= MaxN
    /\ \A i \in 1..Len(b) : BodyOk(b[i])
    /\ \A e \in Hosted : Cardinality(Centres(b, e)) <= 1
    /\ "gr" \in on => HostOf(b, "gr") = mm
    /\ {"tides", "flat"} \subseteq on => HostOf(b, "tides") = HostOf(b, "flat")
=============================================================================
