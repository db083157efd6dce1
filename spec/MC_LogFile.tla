------------------------------- MODULE MC_LogFile -------------------------------
EXTENDS LogFile
View == <<disk, lg, seen, nxt, Len(hist)>>
===============================================================================
