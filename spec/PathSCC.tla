------------------------------ MODULE PathSCC ------------------------------
(***************************************************************************)
(* Path-based strong components with explicit stacks, the machine of         *)
(* lib/algorithms/misc/strongly_connected_components.h: open vertices wait    *)
(* on `unf`, tentative component roots on `roots`; an edge into an open        *)
(* vertex merges the roots above it; leaving a root closes its component.     *)
(* Edges of a vertex are looked at in any order.                              *)
(***************************************************************************)
EXTENDS Graphs
CONSTANTS N, MergeOpenOnly
VARIABLES arcs, num, comp, cnt, closed, unf, roots, path, left
vars == <<arcs, num, comp, cnt, closed, unf, roots, path, left>>
V == Verts(N)
None == -1
Out(v) == {u \in V : <<v, u>> \in arcs}
Init == /\ arcs \in SUBSET {p \in V \X V : p[1] # p[2]}
        /\ num = [v \in V |-> None] /\ comp = [v \in V |-> None] /\ cnt = 0 /\ closed = 0
        /\ unf = << >> /\ roots = << >> /\ path = << >> /\ left = [v \in V |-> {}]
Open(v) == /\ num' = [num EXCEPT ![v] = cnt] /\ cnt' = cnt + 1
           /\ unf' = Append(unf, v) /\ roots' = Append(roots, v) /\ path' = Append(path, v)
           /\ left' = [left EXCEPT ![v] = Out(v)]
           /\ UNCHANGED <<arcs, comp, closed>>
Start == path = << >> /\ \E v \in V : num[v] = None /\ (\A u \in V : u < v => num[u] # None) /\ Open(v)
\* the popped roots are those numbered above the target
Merged(u) == SelectSeq(roots, LAMBDA r : num[r] <= num[u])
Look == path # << >> /\ LET v == Last(path) IN \E u \in left[v] :
        IF num[u] = None
        THEN /\ num' = [num EXCEPT ![u] = cnt] /\ cnt' = cnt + 1
             /\ unf' = Append(unf, u) /\ roots' = Append(roots, u) /\ path' = Append(path, u)
             /\ left' = [left EXCEPT ![v] = @ \ {u}, ![u] = Out(u)]
             /\ UNCHANGED <<arcs, comp, closed>>
        ELSE /\ left' = [left EXCEPT ![v] = @ \ {u}]
             /\ roots' = IF comp[u] = None \/ ~MergeOpenOnly THEN Merged(u) ELSE roots
             /\ UNCHANGED <<arcs, num, comp, cnt, closed, unf, path>>
Leave == path # << >> /\ left[Last(path)] = {} /\ LET v == Last(path) IN
         /\ path' = Front(path)
         /\ IF roots # << >> /\ Last(roots) = v
            THEN LET p == CHOOSE j \in 1 .. Len(unf) : unf[j] = v IN
                 /\ comp' = [u \in V |-> IF \E j \in p .. Len(unf) : unf[j] = u THEN closed ELSE comp[u]]
                 /\ unf' = SubSeq(unf, 1, p - 1) /\ closed' = closed + 1 /\ roots' = Front(roots)
            ELSE UNCHANGED <<comp, unf, closed, roots>>
         /\ UNCHANGED <<arcs, num, cnt, left>>
Next == Start \/ Look \/ Leave
Spec == Init /\ [][Next]_vars

Reach(v) == ReachFrom([x \in V |-> {y \in V : <<x, y>> \in arcs}], {v}, {v})
Done == path = << >> /\ \A v \in V : num[v] # None
StrongAtEnd == Done => LET R == TLCEval([v \in V |-> Reach(v)]) IN
    /\ \A u, v \in V : (comp[u] = comp[v]) = (u \in R[v] /\ v \in R[u])
    /\ {comp[v] : v \in V} = 0 .. closed - 1
    /\ \A a \in arcs : comp[a[1]] >= comp[a[2]]
=============================================================================
