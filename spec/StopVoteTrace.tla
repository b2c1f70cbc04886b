--------------------------- MODULE StopVoteTrace ---------------------------
(* Recorded on the real guard: each rank's program is a list of steps "s" (raise a signal), "c" (check), "r" (reset).
   e.prog[r] the programs (same number of checks), e.seen[r] the answers rank r got, e.loc[r] its local answers at the checks. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
e == Trace[l]
R == Len(e.prog)
(* local flag of rank r at its c-th check *)
RECURSIVE Flag(_, _, _, _)
Flag(q, i, c, f) == IF q[i] = "c" THEN (IF c = 1 THEN f ELSE Flag(q, i + 1, c - 1, f)) ELSE Flag(q, i + 1, c, q[i] = "s")
Loc(r, c) == Flag(e.prog[r], 1, c, FALSE)
Ok == /\ e.verdict = "ok"
      /\ \A r \in 1..R : Len(e.seen[r]) = e.checks /\ Len(e.loc[r]) = e.checks
      /\ \A c \in 1..e.checks : LET any == \E q \in 1..R : Loc(q, c) IN \A r \in 1..R : e.seen[r][c] = any /\ e.loc[r][c] = Loc(r, c)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
