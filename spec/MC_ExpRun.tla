------------------------------- MODULE MC_ExpRun -------------------------------
EXTENDS ExpRun
View == <<groups, meta, nxt, given, Len(hist)>>
===============================================================================
