---------------------------- MODULE ConfigModel ----------------------------
(* All declarations of up to MaxBodies bodies, one group of interacting        *)
(* effects at a time, with their verdicts.                                     *)
EXTENDS Config, TLC, Json
CONSTANTS MaxBodies, Emit
VARIABLES b, req, mm, verdict
cvars == <<b, req, mm, verdict>>
Plain == [tides |-> [role |-> "none", model |-> "none", visc |-> 0], flat |-> [role |-> "none", model |-> "none", visc |-> 0],
          gr |-> [role |-> "none", impl |-> "none"], disk |-> [role |-> "none", void |-> FALSE], wind |-> [on |-> FALSE], evol |-> [on |-> FALSE]]
Roles == {"none", "central", "orbiting"}
TideFlat == {[Plain EXCEPT !.tides = t, !.flat = f] : t \in [role : {"none"}, model : {"none"}, visc : {0}] \cup [role : {"central", "orbiting"}, model : {"ctl"}, visc : {0}] \cup [role : {"central", "orbiting"}, model : {"creep"}, visc : {1}],
                                                      f \in [role : {"none"}, model : {"none"}, visc : {0}] \cup [role : {"central", "orbiting"}, model : {"oblate"}, visc : {0}] \cup [role : {"central", "orbiting"}, model : {"creep"}, visc : {1, 2}]}
Gr == {[Plain EXCEPT !.gr = g] : g \in [role : {"none", "orbiting"}, impl : {"none"}] \cup [role : {"central"}, impl : {"none", "kidder", "newhall"}]}
Disky == {[Plain EXCEPT !.disk = g] : g \in [role : {"none", "orbiting"}, void : {FALSE}] \cup [role : {"central"}, void : BOOLEAN]}
WindEvol == {[Plain EXCEPT !.wind.on = w, !.evol.on = v] : w, v \in BOOLEAN}
Groups == {TideFlat, Gr, Disky, WindEvol}
Req(g) == IF g = TideFlat THEN SUBSET {"tides", "flat"} ELSE IF g = Gr THEN SUBSET {"gr"} ELSE IF g = Disky THEN SUBSET {"disk"} ELSE SUBSET {"wind", "evol"}
Seqs(g, n) == [1..n -> g]
CInit == /\ verdict = "none" /\ \E n \in 1..MaxBodies, g \in Groups :
                /\ b \in Seqs(g, n) /\ req \in Req(g) /\ mm \in (IF g = Gr THEN 1..n ELSE {1})
CNext == /\ verdict = "none" /\ verdict' = (IF Accepted(b, req, mm) THEN "accepted" ELSE "rejected")
         /\ UNCHANGED <<b, req, mm>>
         /\ (Emit => PrintT("CFG " \o ToJson([b |-> b, req |-> req, mm |-> mm])))
(* what acceptance buys *)
OnlyRequested == Enabled(b, req) \subseteq req
UniqueHosts == verdict = "accepted" => \A e \in Hosted \cap Enabled(b, req) : \E h \in 1..Len(b) : Centres(b, e) = {h}
SameHost == verdict = "accepted" /\ {"tides", "flat"} \subseteq Enabled(b, req) => Centres(b, "tides") = Centres(b, "flat")
GrReference == verdict = "accepted" /\ "gr" \in Enabled(b, req) => Centres(b, "gr") = {mm}
(* asking for less never turns an accepted declaration into a rejected one *)
Monotone == verdict = "accepted" => \A s \in SUBSET req : Accepted(b, s, mm)
=============================================================================
