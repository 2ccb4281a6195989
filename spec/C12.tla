-------------------------------- MODULE C12 --------------------------------
(* Collisions, tidal disruptions and ejections. *)
EXTENDS TraceBase, Physics
(* relative margin within which rounding may decide *)
Eps == R("1e-9")

(* Roche limits are those of the radii when they were computed (event kr). *)
RocheEvents(r, k) == {q \in 1..k : Ev(r)[q].op \in {"roche", "iinit"} /\ Ev(r)[q].res = "ok"}
Roche(r, k, i, j) == IF RocheEvents(r, k) = {} THEN Zero
    ELSE LET q == CHOOSE q \in RocheEvents(r, k) : \A p \in RocheEvents(r, k) : p <= q
             b == Post(r, q).b IN RocheLimit(b[i], b[j])
(* Conditions on a pair at distance d against limit l: +1 surely within, -1 surely outside, 0 too close to call *)
Within(d, l) == IF d \preceq (l (\X) (One (-) Eps)) THEN 1 ELSE IF (l (\X) (One (+) Eps)) \prec d THEN -1 ELSE 0
Pairs(b) == {<<i, j>> \in (1..Len(b)) \X (1..Len(b)) : i < j}
Hit(r, k, b, p) ==
    LET i == p[1] j == p[2] d == Dist(b, i, j) h == MostMassive(b)
        roche == Within(d, Roche(r, k, i, j))  touch == Within(d, b[i].r (+) b[j].r)
        far == IF h \in {i, j} THEN 0 - Within(d, MaxDistance) ELSE -1
    IN [roche |-> roche, touch |-> touch, far |-> far]
GravityOk(r, k) ==
    LET b == Pre(r, k).b  H == [p \in Pairs(b) |-> Hit(r, k - 1, b, p)]  e == Ev(r)[k]
        sure == \E p \in Pairs(b) : H[p].roche = 1 \/ H[p].touch = 1 \/ H[p].far = 1
        maybe(x) == \E p \in Pairs(b) : H[p][x] >= 0
    IN IF e.res = "ok" THEN Chk(r, k, "encounter: undetected collision, disruption or ejection", ~sure)
       ELSE /\ Chk(r, k, "encounter: stops with the proper diagnosis", e.why \in {"destroyed", "collision", "ejected"})
            /\ Chk(r, k, "encounter: false disruption", e.why = "destroyed" => maybe("roche"))
            /\ Chk(r, k, "encounter: false collision", e.why = "collision" => maybe("touch"))
            /\ Chk(r, k, "encounter: false ejection", e.why = "ejected" => maybe("far"))

Allowed(r, k) ==
    LET e == Ev(r)[k] IN
    CASE e.op = "gravity" -> GravityOk(r, k)
      [] OTHER -> Chk(r, k, "no failure", e.res = "ok")
Next == Walk(Allowed)
=============================================================================
