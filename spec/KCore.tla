------------------------------- MODULE KCore -------------------------------
(***************************************************************************)
(* Core decomposition by bucket sort (Batagelj and Zaversnik), the machine   *)
(* of lib/algorithms/misc/core_decomposition.h.                              *)
(* vert lists the vertices by current degree, pos is its inverse, bin[d] is   *)
(* the first place of a vertex of degree >= d.  The vertices are visited in   *)
(* order; the neighbours of larger degree lose one.                           *)
(***************************************************************************)
EXTENDS Graphs
CONSTANTS N, Strict
VARIABLES e, deg, vert, pos, bin, k, todo
vars == <<e, deg, vert, pos, bin, k, todo>>
V == Verts(N)
Pairs == {p \in V \X V : p[1] < p[2]}
AdjOf(s) == [v \in V |-> {u \in V : <<u, v>> \in s \/ <<v, u>> \in s}]

\* what the decomposition is supposed to be
RECURSIVE Peel(_, _, _)
Peel(adj, S, c) == LET low == {v \in S : Cardinality(adj[v] \cap S) < c} IN IF low = {} THEN S ELSE Peel(adj, S \ low, c)
CoreNumber(adj, v) == Max({c \in 0 .. N : v \in Peel(adj, V, c)})

Init == /\ e \in SUBSET Pairs
        /\ deg = [v \in V |-> Cardinality(AdjOf(e)[v])]
        /\ vert = SetToSortSeq(V, LAMBDA a, b : deg[a] < deg[b] \/ (deg[a] = deg[b] /\ a < b))
        /\ pos = [v \in V |-> CHOOSE p \in 1 .. N : vert[p] = v]
        /\ bin = [d \in 0 .. N |-> Cardinality({v \in V : deg[v] < d}) + 1]
        /\ k = 1 /\ todo = AdjOf(e)[vert[1]]
\* neighbour u of the visited vertex
Relax(u) ==
    /\ u \in todo /\ todo' = todo \ {u}
    /\ IF IF Strict THEN deg[u] > deg[vert[k]] ELSE deg[u] >= deg[vert[k]] /\ deg[u] > 0 /\ pos[u] > k
       THEN LET d == deg[u]
                w == vert[bin[d]]
            IN  /\ vert' = [vert EXCEPT ![bin[d]] = u, ![pos[u]] = w]
                /\ pos' = [pos EXCEPT ![w] = pos[u], ![u] = bin[d]]
                /\ bin' = [bin EXCEPT ![d] = @ + 1]
                /\ deg' = [deg EXCEPT ![u] = d - 1]
       ELSE UNCHANGED <<vert, pos, bin, deg>>
    /\ UNCHANGED <<e, k>>
Visit == /\ todo = {} /\ k < N /\ k' = k + 1 /\ todo' = AdjOf(e)[vert[k + 1]]
         /\ UNCHANGED <<e, deg, vert, pos, bin>>
Next == (\E u \in V : Relax(u)) \/ Visit
Spec == Init /\ [][Next]_vars

Sorted == \A p \in 1 .. N - 1 : deg[vert[p]] <= deg[vert[p + 1]]
PosInverse == \A v \in V : vert[pos[v]] = v
Starts == \A d \in 0 .. N : bin[d] = Cardinality({v \in V : deg[v] < d}) + 1
NeverBelow == LET adj == AdjOf(e) IN \A v \in V : deg[v] >= CoreNumber(adj, v)
CoresAtEnd == (k = N /\ todo = {}) => LET adj == AdjOf(e) IN \A v \in V : deg[v] = CoreNumber(adj, v)
=============================================================================
