------------------------------- MODULE TraceBase -------------------------------
(* Frame of all conformance specifications.  The trace is a file of events recorded from the real code,
   one JSON object per line.  A conformance specification defines, for the abstract state st before event
   e, the clauses that the event has to satisfy (a record of booleans with one field per clause) and the
   abstract state after it.  Clauses that fail are printed with the event number, and validation goes on,
   so that one run reports everything. *)
EXTENDS Cert, TLC, Json, IOUtils

VARIABLES l, st

Trace == ndJsonDeserialize(IOEnv.TRACE)

Report(i, clauses) == \A c \in DOMAIN clauses : IF clauses[c] THEN TRUE ELSE PrintT(<<"BAD", i, c>>)
Finished(i) == IF i < Len(Trace) THEN TRUE ELSE PrintT(<<"DONE", i>>)

Has(r, f) == f \in DOMAIN r
Raised(e) == e.exc # ""
Good == [ok |-> TRUE]
Clause(b) == [ok |-> b]
===============================================================================
