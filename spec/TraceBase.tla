----------------------------- MODULE TraceBase -----------------------------
(* Trace validation.  Runs are recorded executions of the real code, one per  *)
(* line of the file named by TRACE; each is a sequence of events carrying the  *)
(* operation, its arguments, its outcome and the state observed after it.      *)
(* A trace specification says, with Walk, which event may follow which state:  *)
(* an execution that the specification does not allow gets stuck, and the      *)
(* reason is printed.  The driver requires every event of every run consumed.  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Reals64

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES run, pos
vars == <<run, pos>>

Cfg(r) == Runs[r].cfg
Ev(r) == Runs[r].ev

(* A named obligation; a failing one is reported and makes the event illegal. *)
Chk(r, k, name, cond) ==
    IF cond THEN TRUE
    ELSE PrintT(<<"REJECT", Cfg(r).id, k, name>>) /\ FALSE

(* An obligation whose failure is reported but lets the run go on: what the     *)
(* failing code does instead is specified too.                                  *)
Note(r, k, name, cond) ==
    IF cond THEN TRUE ELSE PrintT(<<"NOTE", Cfg(r).id, k, name>>)

Walk(Allowed(_, _)) ==
    \/ /\ run = 0
       /\ run' \in 1..Len(Runs)
       /\ pos' = 0
    \/ /\ run > 0
       /\ pos < Len(Ev(run))
       /\ Allowed(run, pos + 1)
       /\ pos' = pos + 1
       /\ UNCHANGED run

WalkInit == run = 0 /\ pos = 0

(* State observed before event k of run r (only meaningful when there is one). *)
Pre(r, k) == Ev(r)[k - 1].st
Post(r, k) == Ev(r)[k].st
Ok(r, k) == Ev(r)[k].res = "ok"
=============================================================================
