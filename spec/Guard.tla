------------------------------- MODULE Guard -------------------------------
(* Who may touch which file when a run is started or resumed.  The state space *)
(* is the matrix of commands and of the files found; TLC enumerates it and      *)
(* emits every combination, which the driver then sets up for the real program. *)
EXTENDS Integers, Sequences, TLC

Commands == {"start", "resume"}
(* snapshot file: for "start" the file named as snapshot; for "resume" the one resumed from *)
SnapStates == {"missing", "ok", "garbage", "cut", "empty"}
(* history, compared with the n records the snapshot counts: none, empty, fewer records, one byte short, *)
(* exactly n, n and a torn record, more records, more than the whole run, n other records                 *)
HistStates == {"missing", "empty", "fewer", "byteshort", "exact", "torn", "more", "beyond", "other"}
CaseStates == {"ok", "missing", "garbage", "cut"}

Short(h) == h \in {"missing", "empty", "fewer", "byteshort"}
(* does the program run? *)
Runs1(q) == IF q.cmd = "start" THEN q.case = "ok" /\ q.snap = "missing" /\ q.hist = "missing"
            ELSE q.snap = "ok" /\ ~Short(q.hist)
(* what happens to the history already there: nothing, or cut to the counted records and appended to *)
HistoryRule(q) == IF ~Runs1(q) THEN "untouched" ELSE IF q.cmd = "start" THEN "new" ELSE "cut and continued"

VARIABLES q, done
GInit == /\ done = FALSE
         /\ q \in [cmd : {"start"}, snap : SnapStates, hist : HistStates, case : CaseStates]
               \cup [cmd : {"resume"}, snap : SnapStates, hist : HistStates, case : {"ok"}]
GNext == ~done /\ done' = TRUE /\ PrintT(<<"GUARD", q.cmd, q.snap, q.hist, q.case>>) /\ UNCHANGED q
(* a run that is not allowed changes nothing; an allowed start never meets an existing file *)
NoOverwrite == Runs1(q) /\ q.cmd = "start" => q.snap = "missing" /\ q.hist = "missing"
NoInvent == Runs1(q) /\ q.cmd = "resume" => ~Short(q.hist)
=============================================================================
