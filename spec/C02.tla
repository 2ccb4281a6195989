-------------------------------- MODULE C02 --------------------------------
(* Disks left behind by the real program, killed or with a failing operation   *)
(* at every one of its file-system operations, judged with the operators whose *)
(* invariance spec/Lifecycle.tla establishes; then what the resumed program    *)
(* makes of them.  cfg: per (bytes per record), ref (records, length), nref.   *)
EXTENDS TraceBase, Disk

(* the most recent snapshot known to have been completed *)
MaxS(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
MainIdx(d) == MaxS({d.cands[i].idx : i \in {j \in Full(d) : d.cands[j].name = "s." \o d.ext}})
Passed(r, d) == MaxS({k \in 1..Len(Cfg(r).refnh) : Cfg(r).refnh[k] * Cfg(r).per < d.hlen})
LastOf(r, d) == LET a == MainIdx(d) b == Passed(r, d) IN IF a < b THEN b ELSE a
DD(e, x) == [cands |-> x.cands, hlen |-> x.hlen, hgood |-> x.hgood, ext |-> e]

DiskOk(r, k, x) ==
    LET d == DD(Cfg(r).ext, x) last == LastOf(r, d) IN
    /\ Chk(r, k, "the history on disk is a beginning of the uninterrupted run's", HistoryExact(d))
    /\ Chk(r, k, "a complete, recent snapshot covered by the history is left", Recoverable(d, Cfg(r).per, last))
    /\ Chk(r, k, "every restorable snapshot is one of this run", NoInvention(d))
    /\ Chk(r, k, "a completed snapshot is covered by the history", \A i \in Full(d) : d.cands[i].idx > 0 => Covered(d, Cfg(r).per, i))
    /\ (x.chain = 1 /\ MainIdx(d) >= 2) => Chk(r, k, "the replaced snapshot is kept as backup", BackupKept(d, MainIdx(d)))

(* x.resume: sequence of resumes tried [idx, nh, rc, hlen, hgood] *)
ResumeOk(r, k, x) ==
    \A i \in 1..Len(x.resume) : LET q == x.resume[i] IN
        /\ Chk(r, k, "a restorable snapshot can be resumed to the end", q.rc = 0)
        /\ Chk(r, k, "the resumed run completes the history", q.hlen = Cfg(r).reflen)
        /\ Chk(r, k, "the completed history is that of the uninterrupted run", q.hgood = Cfg(r).reflen)

Allowed(r, k) ==
    LET e == Ev(r)[k] x == e.out IN
    CASE e.op = "plain" ->
           /\ Chk(r, k, "the uninterrupted program ends well", x.rc = 0)
           /\ Chk(r, k, "with the history of the library", x.hlen = Cfg(r).reflen /\ x.hgood = x.hlen)
           /\ Chk(r, k, "and its last two snapshots", BackupKept(DD(Cfg(r).ext, x), Len(Cfg(r).refnh)) /\ MainIdx(DD(Cfg(r).ext, x)) = Len(Cfg(r).refnh))
      [] e.op = "kill" -> DiskOk(r, k, x) /\ ResumeOk(r, k, x)
      [] e.op = "fault" ->
           /\ Chk(r, k, "a failed operation is not reported as success", x.rc # 0 \/ (x.hgood = Cfg(r).reflen /\ x.hlen = Cfg(r).reflen /\ MainIdx(DD(Cfg(r).ext, x)) = Len(Cfg(r).refnh)))
           /\ Chk(r, k, "a failed operation ends the run", x.rc # -14)
           /\ DiskOk(r, k, x) /\ ResumeOk(r, k, x)
      [] e.op = "short" ->
           Chk(r, k, "a short or interrupted write makes no difference", x.rc = 0 /\ x.hlen = Cfg(r).reflen /\ x.hgood = x.hlen /\ MainIdx(DD(Cfg(r).ext, x)) = Len(Cfg(r).refnh))
      [] OTHER -> FALSE
Next == Walk(Allowed)
=============================================================================
