----------------------------- MODULE Lifecycle -----------------------------
(* The life of a case on disk: steps, buffered history records, recovery       *)
(* snapshots written as the program writes them (flush the history, keep the   *)
(* old snapshot as backup, create the new file, fill it), the process dying    *)
(* between or in the middle of any of these, an operation failing, and the run *)
(* being resumed from any snapshot that can be restored.  Checked exhaustively *)
(* with TLC.  A history record is two halves long, so that a process can die   *)
(* in the middle of writing one.                                               *)
EXTENDS Disk

CONSTANTS Steps,     \* steps of the complete run
          MaxHP, MaxSP,    \* largest history and snapshot period, in steps
          MaxCap,    \* records the history buffer holds, at most
          MaxCrash   \* crashes and failures explored

None == [full |-> FALSE, idx |-> 0, nh |-> 0, step |-> 0, there |-> FALSE]
VARIABLES pc,        \* "run", "flush", "backup", "create", "fill", "ending", "done", "dead", "failed"
          step, nh, snap, nsnap,   \* memory: steps made, records counted, step of the last snapshot, snapshots taken
          buf,       \* memory: records (as numbers) not yet in the file, in halves
          main, back,              \* disk
          hist,      \* disk: halves of records
          last,      \* the most recent snapshot completed by this run
          crashes,
          par        \* the periods and the buffer size of this run
HP == par.hp
SP == par.sp
Cap == par.cap
lvars == <<par, pc, step, nh, snap, nsnap, buf, main, back, hist, last, crashes>>

Halves(k) == <<2 * k - 1, 2 * k>>
RefRecords == 1 + (Steps - 1) \div HP
Ref == [k \in 1..(2 * RefRecords) |-> k]
D == [cands |-> <<main, back>>, hlen |-> Len(hist),
      hgood |-> IF \E k \in 1..Len(hist) : hist[k] # k THEN (CHOOSE k \in 1..Len(hist) : hist[k] # k /\ \A j \in 1..(k - 1) : hist[j] = j) - 1 ELSE Len(hist)]

LInit == /\ par \in [hp : 1..MaxHP, sp : 1..MaxSP, cap : 1..MaxCap]
         /\ pc = "run" /\ step = 0 /\ nh = 0 /\ snap = -1 /\ nsnap = 0 /\ buf = <<>> /\ main = None /\ back = None /\ hist = <<>> /\ last = 0 /\ crashes = 0

(* which snapshot of the uninterrupted run is the one taken after step s *)
SnapNo(s) == 1 + (IF s <= 1 THEN 0 ELSE ((s - 1) \div (SP + 1)))
SnapStep(s) == s = 1 \/ (s > 1 /\ (s - 1) % (SP + 1) = 0)

Drain == /\ Len(buf) > 2 * Cap
         /\ hist' = Append(hist, Head(buf)) /\ buf' = Tail(buf)
         /\ UNCHANGED <<pc, step, nh, snap, nsnap, main, back, last, crashes>>
Step == /\ pc = "run" /\ step < Steps /\ Len(buf) <= 2 * Cap
        /\ LET due == step % HP = 0 IN
           /\ buf' = IF due THEN buf \o Halves(nh + 1) ELSE buf
           /\ nh' = IF due THEN nh + 1 ELSE nh
        /\ step' = step + 1
        (* after the first step, or when the step began SP steps or more after the last snapshot *)
        /\ pc' = IF step + 1 = Steps THEN "ending" ELSE IF snap = -1 \/ step >= snap + SP THEN "flush" ELSE "run"
        /\ UNCHANGED <<snap, nsnap, main, back, hist, last, crashes>>
Flush == /\ pc \in {"flush", "ending"}
         /\ IF buf = <<>> THEN /\ pc' = IF pc = "ending" THEN "done" ELSE IF main.there THEN "backup" ELSE "create"
                               /\ UNCHANGED <<buf, hist>>
            ELSE /\ hist' = Append(hist, Head(buf)) /\ buf' = Tail(buf) /\ UNCHANGED pc
         /\ UNCHANGED <<step, nh, snap, nsnap, main, back, last, crashes>>
Backup == pc = "backup" /\ back' = main /\ main' = None /\ pc' = "create" /\ UNCHANGED <<step, nh, snap, nsnap, buf, hist, last, crashes>>
Create == pc = "create" /\ main' = [None EXCEPT !.there = TRUE] /\ pc' = "fill" /\ UNCHANGED <<step, nh, snap, nsnap, buf, back, hist, last, crashes>>
Fill == /\ pc = "fill" /\ nsnap' = SnapNo(step)
        /\ main' = [full |-> TRUE, idx |-> SnapNo(step), nh |-> nh, step |-> step, there |-> TRUE]
        /\ snap' = step /\ last' = SnapNo(step) /\ pc' = "run"
        /\ UNCHANGED <<step, nh, buf, back, hist, crashes>>
Crash == /\ pc \notin {"dead", "failed", "done"} /\ crashes < MaxCrash /\ crashes' = crashes + 1
         /\ pc' \in {"dead", "failed"} /\ buf' = <<>> /\ step' = 0 /\ nh' = 0 /\ snap' = -1 /\ nsnap' = 0
         /\ UNCHANGED <<main, back, hist, last>>
(* the user resumes from a restorable snapshot; resuming from the backup makes that file the snapshot *)
Resume == /\ pc \in {"dead", "failed"}
          /\ \E c \in {main, back} : /\ c.full /\ c.nh * 2 <= Len(hist)
                /\ step' = c.step /\ nh' = c.nh /\ snap' = c.step /\ nsnap' = c.idx /\ last' = c.idx
                /\ hist' = SubSeq(hist, 1, 2 * c.nh) /\ pc' = "run"
                /\ IF c = main THEN UNCHANGED <<main, back>> ELSE main' = back /\ back' = None
          /\ UNCHANGED <<buf, crashes>>
(* nothing to resume from yet: the user removes the leftovers and starts again *)
Restart == /\ pc \in {"dead", "failed"} /\ Full(D) = {} /\ pc' = "run" /\ step' = 0 /\ nh' = 0 /\ snap' = -1 /\ nsnap' = 0 /\ last' = 0
           /\ main' = None /\ back' = None /\ hist' = <<>> /\ UNCHANGED <<buf, crashes>>
LNext == UNCHANGED par /\ (Drain \/ Step \/ Flush \/ Backup \/ Create \/ Fill \/ Crash \/ Resume \/ Restart)

LType == /\ step \in 0..Steps /\ nh \in 0..RefRecords /\ (pc = "run" /\ snap > 0 => SnapStep(snap))
AlwaysRecoverable == Recoverable(D, 2, last)
AlwaysResumable == (pc \in {"dead", "failed"} /\ last > 0) => \E c \in {main, back} : c.full /\ c.nh * 2 <= Len(hist)
OnlyOwn == NoInvention(D)
Exact == HistoryExact(D)
Kept == pc = "run" /\ main.full /\ back.full => back.idx = main.idx - 1
Complete == pc = "done" => hist = Ref
=============================================================================
