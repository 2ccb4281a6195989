----------------------------- MODULE Schedule -----------------------------
(* Model of the run loop: when history records and recovery snapshots are     *)
(* taken and when a run ends, over all small step sizes, periods and limits.  *)
(* The transition is made of the operators of Session, which the recorded     *)
(* executions of the real code are validated against (C03, C04); here TLC      *)
(* checks that they guarantee what the properties promise.  Times are small    *)
(* integers; the code is replayed with a quarter of a day as unit.            *)
EXTENDS Session

CONSTANTS MaxDT, MaxHP, MaxRP, MaxTL, Kinds, Emit

Cfgs == [kind : Kinds, dt : 1..MaxDT, hp : 1..MaxHP, rp : 1..MaxRP, tl : 1..MaxTL]

VARIABLES cf, s, recs, snaps, starts, ret, plan
svars == <<cf, s, recs, snaps, starts, ret, plan, run, pos>>

N(x) == ToInt(x)
SInit ==
    /\ run = 0 /\ pos = 0
    /\ cf \in Cfgs
    /\ s = [kind |-> IF cf.kind = "ias15" THEN "ias15" ELSE "leapfrog", t |-> Zero, dt |-> OfInt(cf.dt),
            lh |-> OfInt(-1), lr |-> OfInt(-1), hp |-> OfInt(cf.hp), rp |-> OfInt(cf.rp), nh |-> 0]
    /\ recs = <<>> /\ snaps = <<>> /\ starts = <<>> /\ ret = "go" /\ plan = cf

(* one step and, if it asks for one, the recovery snapshot that follows it *)
SStep ==
    /\ ret # "done"
    /\ \E d \in IF cf.kind = "ias15" THEN 1..MaxDT ELSE {cf.dt} :
       LET n == [s EXCEPT !.t = @ (+) s.dt, !.dt = OfInt(d), !.lh = NextLh(s), !.nh = @ + Records(s)]
           q == Ret(s, n, OfInt(plan.tl)) IN
       /\ ret' = q
       /\ s' = IF q = "snap" THEN [n EXCEPT !.lr = n.t] ELSE n
       /\ recs' = IF RecordDue(s) THEN Append(recs, N(s.t)) ELSE recs
       /\ snaps' = IF q = "snap" THEN Append(snaps, N(n.t)) ELSE snaps
       /\ starts' = Append(starts, N(s.t))
       /\ IF Emit /\ q = "done" /\ cf.kind # "ias15"
          THEN PrintT(<<"BEH", cf.dt, cf.hp, cf.rp, cf.tl, recs', snaps', N(n.t)>>) ELSE TRUE
    /\ UNCHANGED <<cf, plan, run, pos>>
SNext == SStep
Spec == SInit /\ [][SNext]_svars

(* ------------------------------ guarantees ------------------------------ *)
Times == {starts[i] : i \in DOMAIN starts}
Ceil(a, b) == ((a + b - 1) \div b) * b
TypeOK == s.nh = Len(recs) /\ (starts # <<>> => recs # <<>> /\ recs[1] = 0)
NoOvershoot == Len(starts) > 1 => N(s.t) <= cf.tl
EndsInTime == ret = "done" => N(s.t) + N(s.dt) > cf.tl
(* fixed step: record number k at the first step that starts at or after the k-th multiple of the period: no drift *)
FixedSchedule == cf.kind # "ias15" =>
    /\ \A k \in DOMAIN recs : recs[k] = IF cf.hp >= cf.dt THEN Ceil((k - 1) * cf.hp, cf.dt) ELSE (k - 1) * cf.dt
    /\ \A k \in 0..MaxTL : Ceil(k * cf.hp, cf.dt) \in Times => (IF cf.hp >= cf.dt THEN k + 1 \in DOMAIN recs ELSE TRUE)
(* adaptive step: a record at the first step that starts a period or more after the previous record *)
AdaptiveSchedule == cf.kind = "ias15" =>
    \A u \in Times : u \in {recs[k] : k \in DOMAIN recs} <=>
        (u = 0 \/ LET p == MaxOf({recs[k] : k \in DOMAIN recs} \cap 0..(u - 1)) IN u >= p + cf.hp)
(* recovery snapshots: after the first step, then after each step that started a period or more after the last one *)
StepEnd(i) == IF i < Len(starts) THEN starts[i + 1] ELSE N(s.t)
SnapSet == {snaps[k] : k \in DOMAIN snaps}
SnapSchedule == \A i \in DOMAIN starts : (i < Len(starts) \/ ret # "done") =>
    (StepEnd(i) \in SnapSet <=> (i = 1 \/ LET B == SnapSet \cap 0..starts[i] IN B # {} /\ starts[i] >= MaxOf(B) + cf.rp))
=============================================================================
