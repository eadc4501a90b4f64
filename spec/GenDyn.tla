------------------------------- MODULE GenDyn -------------------------------
(* Behaviours of DynamicMinCut, printed as histories for replay on the code.  *)
EXTENDS DynamicMinCut, Json
CONSTANTS Depth
VARIABLES hist, start
GInit == Init /\ hist = << >> /\ start = EdgesOf(W)
GNext == \E p \in P :
           /\ Len(hist) < Depth
           /\ UNCHANGED start
           /\ \/ Delete(p) /\ hist' = Append(hist, <<0, p[1], p[2], 0, lam'>>)
              \/ \E w \in 1 .. WMax : Insert(p, w) /\ hist' = Append(hist, <<1, p[1], p[2], w, lam'>>)
Emit == Len(hist) = Depth => PrintT("HIST " \o ToJson([n |-> N, e |-> start, ops |-> hist]))
=============================================================================
