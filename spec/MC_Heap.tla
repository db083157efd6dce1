-------------------------------- MODULE MC_Heap --------------------------------
EXTENDS Heap
View == <<kind, class, ver, Len(hist)>>
Few == {"unfold", "kruskal", "k_tensor", "k_single", "k_normalize", "permute", "cp_fit", "cp_fit_from", "cp_continue",
        "cp_decomposition", "evolving", "pf2_fit_from", "pf2_decomposition", "p_slices"}
All == DOMAIN Sig
================================================================================
