------------------------------ MODULE Concurrent -----------------------------
(* Several threads at once (C28).  A shared object (index, fitted model,      *)
(* matrix) is only read; what a call works on (buffers, visited sets, labels, *)
(* the order of its own indices) is private to the call.  Hence every call    *)
(* returns, in every schedule, what it returns alone; a step of the code that *)
(* touches unprotected memory another thread may write (a data race) is no    *)
(* step of this specification.                                                *)
EXTENDS Search, DBSCAN, MST, DualTree
\* nearest of the centres (doubled coordinates) and four times the squared distance to it
Four(x, c2) == FoldLeftDomain(LAMBDA a, f : a + Sq(2 * x[f] - c2[f]), 0, x)
NearestCentre(X, C2, p, d) ==
    /\ Len(p) = Len(X) /\ Len(d) = Len(X)
    /\ \A i \in DOMAIN X : /\ p[i] + 1 \in DOMAIN C2
                           /\ d[i] = Four(X[i], C2[p[i] + 1])
                           /\ \A j \in DOMAIN C2 : Four(X[i], C2[j]) >= d[i]
NearestMedoid(X, M, p, d) ==
    /\ Len(p) = Len(X) /\ Len(d) = Len(X)
    /\ \A i \in DOMAIN X : /\ p[i] + 1 \in DOMAIN M
                           /\ d[i] = Dist2(X[i], X[M[p[i] + 1] + 1])
                           /\ \A j \in DOMAIN M : Dist2(X[i], X[M[j] + 1]) >= d[i]
\* an order of the indices ind with the p-th smallest value of feature f at its place
Selected(X, ind, f, p, v) ==
    /\ SameBag(v, ind)
    /\ \A i \in DOMAIN v : IF i <= p THEN X[v[i]+1][f+1] <= X[v[p+1]+1][f+1] ELSE X[v[i]+1][f+1] >= X[v[p+1]+1][f+1]
=============================================================================
