------------------------------- MODULE Disk -------------------------------
(* What a run leaves on disk and what can be recovered from it.               *)
(* A disk d has                                                               *)
(*   cands: sequence of snapshot files [full, idx, nh]; full: restorable,     *)
(*          idx: which of the run's recovery snapshots it is (0: none),       *)
(*          nh: number of history records it counts;                          *)
(*   hlen:  length of the history file; hgood: how much of it, from the start, *)
(*          is the history of the uninterrupted run.                          *)
(* per is the length of one record.                                           *)
EXTENDS Integers, Sequences

Full(d) == {i \in 1..Len(d.cands) : d.cands[i].full}
Covered(d, per, i) == d.cands[i].nh * per <= d.hgood
(* a snapshot at least as recent as number `last` from which the run can go on *)
Recoverable(d, per, last) == last = 0 \/ \E i \in Full(d) : d.cands[i].idx >= last /\ Covered(d, per, i)
(* no file that can be restored is anything but a snapshot of this run *)
NoInvention(d) == \A i \in Full(d) : d.cands[i].idx > 0
HistoryExact(d) == d.hgood = d.hlen
(* the snapshot replaced by number `last` is still there *)
BackupKept(d, last) == last < 2 \/ \E i \in Full(d) : d.cands[i].idx = last - 1
Best(d) == IF Full(d) = {} THEN 0 ELSE CHOOSE i \in Full(d) : \A j \in Full(d) : d.cands[j].idx <= d.cands[i].idx
=============================================================================
