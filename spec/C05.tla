-------------------------------- MODULE C05 --------------------------------
(* The real program against the matrix of Guard.  Each event records the files *)
(* before and after: for every file its length and fingerprint; for the history *)
(* additionally kept (bytes unchanged from the start) and hgood (bytes equal to *)
(* the uninterrupted run's from the counted records on).                        *)
EXTENDS TraceBase
G1 == INSTANCE Guard WITH q <- [cmd |-> "start", snap |-> "missing", hist |-> "missing", case |-> "ok"], done <- FALSE

Names(fs) == {fs[i].name : i \in 1..Len(fs)}
FileOf(fs, n) == CHOOSE i \in 1..Len(fs) : fs[i].name = n
Untouched(b, a, names) == \A n \in names : n \in Names(a) /\ a[FileOf(a, n)].fp = b[FileOf(b, n)].fp /\ a[FileOf(a, n)].len = b[FileOf(b, n)].len

Allowed(r, k) ==
    LET e == Ev(r)[k] x == e.out q == x.q rule == G1!HistoryRule(q) IN
    /\ Chk(r, k, "a run that may not be made is refused", rule = "untouched" => x.rc # 0)
    /\ Chk(r, k, "a run that may be made is made", rule # "untouched" => x.rc = 0)
    /\ rule = "untouched" => Chk(r, k, "a refused run leaves every file as it was", Untouched(x.before, x.after, Names(x.before)))
    /\ rule = "untouched" => Chk(r, k, "a refused run leaves no new snapshot or history record", \A n \in Names(x.after) \ Names(x.before) : x.after[FileOf(x.after, n)].len = 0)
    /\ Chk(r, k, "files that do not belong to the run are left alone", Untouched(x.before, x.after, Names(x.before) \cap {"bystander.bin", "s2.bin", "case.json"}))
    /\ rule = "new" => Chk(r, k, "a new run writes the history of the run", x.hlen = Cfg(r).reflen /\ x.hgood = x.hlen)
    /\ rule = "cut and continued" =>
         /\ Chk(r, k, "the counted records are kept as they were", x.kept >= x.counted)
         /\ Chk(r, k, "what follows them is the history of the run, and nothing else", x.hlen = Cfg(r).reflen /\ x.tailgood)
Next == Walk(Allowed)
=============================================================================
