------------------------------- MODULE MC_Store -------------------------------
EXTENDS Store
View == <<mem, disk, got, want, Len(hist)>>
===============================================================================
