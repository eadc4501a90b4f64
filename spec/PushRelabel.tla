---------------------------- MODULE PushRelabel ----------------------------
(***************************************************************************)
(* Push-relabel on an undirected graph with one source and a set of sinks.  *)
(* Discharging, relabelling, the gap step and the global relabelling may    *)
(* happen in any order.  When no vertex is active the flow is maximum and   *)
(* the vertices that cannot reach a sink in the residual graph are the      *)
(* largest source side of a minimum cut.                                    *)
(* Slack = 0 is the algorithm; Slack = 1 relabels one too high and must     *)
(* break maximality.                                                        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, FiniteSetsExt, TLC
CONSTANTS N, WMax, Slack, SinkSets
V == 0 .. (N - 1)
S == 0
P == {p \in V \X V : p[1] < p[2]}
VARIABLES w, f, d, T
vars == <<w, f, d, T>>
Cap(u, v) == IF u = v THEN 0 ELSE IF u < v THEN w[<<u, v>>] ELSE w[<<v, u>>]
Flow(u, v) == IF u = v THEN 0 ELSE IF u < v THEN f[<<u, v>>] ELSE 0 - f[<<v, u>>]
Res(u, v) == Cap(u, v) - Flow(u, v)
Ex(v) == MapThenSumSet(LAMBDA u : Flow(u, v), V)
Init == /\ w \in [P -> 0 .. WMax]
        /\ T \in SinkSets
        /\ f = [p \in P |-> IF p[1] = S THEN w[p] ELSE 0]
        /\ d = [v \in V |-> IF v = S THEN N ELSE 0]
Inner == V \ ({S} \cup T)
Active(v) == v \in Inner /\ Ex(v) > 0
Push(u, v) ==
    /\ Active(u) /\ Res(u, v) > 0 /\ d[u] > d[v]
    /\ LET a == Min({Ex(u), Res(u, v)})
       IN  f' = IF u < v THEN [f EXCEPT ![<<u, v>>] = @ + a] ELSE [f EXCEPT ![<<v, u>>] = @ - a]
    /\ UNCHANGED <<w, d, T>>
Relabel(u) ==
    /\ Active(u) /\ \A v \in V : Res(u, v) > 0 => d[u] <= d[v]
    /\ d' = [d EXCEPT ![u] = Min({2 * N - 1} \cup {d[v] + 1 + Slack : v \in {x \in V : Res(u, x) > 0}})]
    /\ UNCHANGED <<w, f, T>>
Gap(k) ==
    /\ k < N /\ \A v \in V : d[v] # k
    /\ \E v \in V : d[v] > k /\ d[v] < N
    /\ d' = [v \in V |-> IF d[v] > k /\ d[v] < N THEN N ELSE d[v]]
    /\ UNCHANGED <<w, f, T>>
RECURSIVE Dist(_, _, _)
Dist(front, seen, k) ==      \* residual distance to the sinks, as a function
    LET new == {u \in V \ seen : \E v \in front : Res(u, v) > 0}
    IN  IF front = {} THEN [u \in {} |-> 0]
        ELSE [u \in front |-> k] @@ Dist(new, seen \cup new, k + 1)
Global ==
    LET D == TLCEval(Dist(T, T \cup {S}, 0))
    IN  /\ d' = [v \in V |-> IF v = S THEN N ELSE IF v \in DOMAIN D THEN D[v] ELSE IF d[v] < N THEN N ELSE d[v]]
        /\ UNCHANGED <<w, f, T>>
Next == \/ \E u, v \in V : Push(u, v)
        \/ \E u \in V : Relabel(u)
        \/ \E k \in 1 .. N : Gap(k)
        \/ Global
Work == (\E u, v \in V : Push(u, v)) \/ (\E u \in V : Relabel(u))
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)
\* ------------------------------------------------------------- properties
Preflow == /\ \A p \in P : f[p] <= w[p] /\ 0 - f[p] <= w[p]
           /\ \A v \in V \ {S} : Ex(v) >= 0
Valid == \A u, v \in V : Res(u, v) > 0 => d[u] <= d[v] + 1
Bounded == \A v \in V : d[v] <= 2 * N - 1
Done == \A v \in Inner : Ex(v) = 0
Value == MapThenSumSet(LAMBDA t : Ex(t), T)
CutOf(X) == MapThenSumSet(LAMBDA p : IF (p[1] \in X) # (p[2] \in X) THEN w[p] ELSE 0, P)
Sides == {X \in SUBSET V : S \in X /\ X \cap T = {}}
MinCutValue == Min({CutOf(X) : X \in Sides})
ToSinks == DOMAIN Dist(T, T, 0)
MaxAtEnd == Done => Value = MinCutValue
LargestSide == Done => LET X == V \ ToSinks
                       IN  X \in Sides /\ CutOf(X) = MinCutValue /\ \A Y \in Sides : CutOf(Y) = MinCutValue => Y \subseteq X
Terminates == <>Done
=============================================================================
