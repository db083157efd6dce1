---- MODULE MC_Session ----
EXTENDS Session
\* the history of actions is only needed for replay
View == <<m, file, pc, first, conv, err, due, total, calls, faults>>
====
