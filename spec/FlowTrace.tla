----------------------------- MODULE FlowTrace -----------------------------
(***************************************************************************)
(* Recorded flow computations.  The observed flow must be a flow and the    *)
(* observed source set a cut of the same weight: by duality both are then   *)
(* optimal (PushRelabel!MaxAtEnd), whatever the size of the graph.  The     *)
(* source set must be the part of PushRelabel!LargestSide around the source. *)
(***************************************************************************)
EXTENDS Graphs, Sequences, SequencesExt, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, rejected
Init == i = 1 /\ rejected = 0
\* net flow out of every vertex
NetOut(n, ge, fl) ==
    FoldLeft(LAMBDA a, k : [a EXCEPT ![ge[k][1]] = @ + fl[k], ![ge[k][2]] = @ - fl[k]], [v \in Verts(n) |-> 0], [k \in 1 .. Len(ge) |-> k])
Others(x) == {x.src[k] : k \in (1 .. Len(x.src)) \ {x.idx + 1}}
Source(x) == x.src[x.idx + 1]
FlowBad(rec, x) ==
    LET net == TLCEval(NetOut(rec.n, x.ge, x.fl)) IN
    IF Len(x.fl) # Len(x.ge) THEN "flow-missing"
    ELSE IF \E k \in 1 .. Len(x.ge) : x.fl[k] > x.ge[k][3] \/ 0 - x.fl[k] > x.ge[k][3] THEN "flow-above-capacity"
    ELSE IF \E v \in Verts(rec.n) : v # Source(x) /\ v \notin Others(x) /\ net[v] # 0 THEN "flow-not-conserved"
    ELSE IF net[Source(x)] # x.f THEN "flow-value-" \o ToString(net[Source(x)]) \o "-reported-" \o ToString(x.f)
    ELSE ""
\* vertices that reach a sink in the residual graph
ResPred(rec, x) ==
    [v \in Verts(rec.n) |-> {x.ge[k][1] : k \in {j \in 1 .. Len(x.ge) : x.ge[j][2] = v /\ x.ge[j][3] - x.fl[j] > 0}}
                       \cup {x.ge[k][2] : k \in {j \in 1 .. Len(x.ge) : x.ge[j][1] = v /\ x.ge[j][3] + x.fl[j] > 0}}]
Largest(rec, x) ==      \* x carries a maximum flow
    LET pred == TLCEval(ResPred(rec, x))
        sinks == TLCEval(ReachFrom(pred, Others(x), Others(x)))
        X == Verts(rec.n) \ sinks
        adj == TLCEval(AdjSets(rec.n, rec.e))
        inside == TLCEval([v \in Verts(rec.n) |-> IF v \in X THEN adj[v] \cap X ELSE {}])
    IN  ReachFrom(inside, {Source(x)}, {Source(x)})
SetBad(rec, x, big) ==
    LET S == ToSet(x.set) IN
    IF Source(x) \notin S \/ S \cap Others(x) # {} THEN "source-set-does-not-separate"
    ELSE IF Cardinality(S) # Len(x.set) THEN "source-set-repeats-vertices"
    ELSE IF CutW(rec.e, S) # x.f THEN "source-set-weighs-" \o ToString(CutW(rec.e, S)) \o "-flow-" \o ToString(x.f)
    ELSE IF S # big THEN "source-set-not-largest"
    ELSE ""
First(a, b) == IF a # "" THEN a ELSE b
RunBad(rec, x, base, big) ==
    IF x.st # "ok" THEN "abnormal-" \o x.st
    ELSE IF base.st # "ok" THEN ""
    ELSE IF PairWeights(x.ge) # PairWeights(rec.e) THEN "graph-changed"
    ELSE CASE x.var = "N" -> First(FlowBad(rec, x), SetBad(rec, x, big))
           [] x.var = "P" -> IF x.f # base.f THEN "value-" \o ToString(x.f) \o "-not-" \o ToString(base.f) ELSE SetBad(rec, x, big)
           [] OTHER -> IF base.f >= x.limit
                       THEN (IF x.f < x.limit \/ x.f > base.f THEN "limited-value-" \o ToString(x.f) \o "-limit-" \o ToString(x.limit) \o "-maximum-" \o ToString(base.f) ELSE "")
                       ELSE IF x.f # base.f THEN "value-" \o ToString(x.f) \o "-not-" \o ToString(base.f)
                       ELSE First(FlowBad(rec, x), IF x.wantset = 1 THEN SetBad(rec, x, big) ELSE "")
Base(rec, j) == rec.runs[Max({k \in 1 .. j : rec.runs[k].var = "N"})]
Verdict(rec, j) ==
    \* every problem starts with an unlimited run
    LET b == Base(rec, j)
        big == IF b.st # "ok" \/ Len(b.fl) # Len(b.ge) THEN {} ELSE TLCEval(Largest(rec, b))
    IN  RunBad(rec, rec.runs[j], b, big)
Step ==
    /\ i <= Len(Recs)
    /\ \E rec \in {Recs[i]} :
       \E bad \in {{p \in {<<j, Verdict(rec, j)>> : j \in 1 .. Len(rec.runs)} : p[2] # ""}} :
           /\ \A p \in bad : PrintT("REJECT " \o rec.id \o " " \o rec.runs[p[1]].c \o " " \o p[2])
           /\ rejected' = rejected + Cardinality(bad)
    /\ i' = i + 1
Next == Step
Accepted == PrintT("JUDGED " \o ToString(TLCGet("distinct") - 1) \o " of " \o ToString(Len(Recs)))
            /\ TLCGet("distinct") = Len(Recs) + 1
=============================================================================
