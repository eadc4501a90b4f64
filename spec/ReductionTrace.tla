--------------------------- MODULE ReductionTrace ---------------------------
(* Observed reductions and contractions of the real code against the          *)
(* definitions of Reductions, ParallelCapforest and MinCut (which cuts must    *)
(* survive a join) and of Graphs (the quotient graph).                         *)
EXTENDS Graphs, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, rejected
Init == i = 1 /\ rejected = 0

\* sequences are 1-based: part[v + 1] is the block of v
Same(part, u, v) == part[u + 1] = part[v + 1]
Crosses(rec, S) == \E v \in Verts(rec.n) : \E r \in {rec.part[v + 1]} : (v \in S) # (r \in S)
Blocks(rec) == Cardinality(ToSet(rec.part))

JoinVerdict(rec) ==
    LET w == CutTable(rec.n, rec.e)
        lam == Min({w[S] : S \in DOMAIN w})
    IN  IF rec.ufn # Blocks(rec) THEN "reports-" \o ToString(rec.ufn) \o "-of-" \o ToString(Blocks(rec)) \o "-blocks"
        ELSE IF rec.kind \in {"capforest", "noi", "edges", "triangles"}
        THEN \* only pairs with connectivity at least the bound are joined
             IF \E S \in DOMAIN w : w[S] < rec.bound /\ Crosses(rec, S) THEN "joins-across-a-cut-below-" \o ToString(rec.bound) ELSE ""
        ELSE IF lam >= rec.bound THEN ""
        ELSE IF rec.all = 1
        THEN IF \E S \in DOMAIN w : w[S] = lam /\ Crosses(rec, S) THEN "loses-a-minimum-cut-of-" \o ToString(lam) ELSE ""
        ELSE IF \A S \in DOMAIN w : w[S] = lam => Crosses(rec, S) THEN "loses-every-minimum-cut-of-" \o ToString(lam) ELSE ""

\* both directions of every adjacent pair exactly once, with the summed weight
QuotientVerdict(rec) ==
    LET lab == [v \in Verts(rec.n) |-> rec.pos[v + 1]]
        pw == PairWeights(QuotientEdges(rec.e, lab))
        want == {<<p[1], p[2], pw[p]>> : p \in DOMAIN pw} \cup {<<p[2], p[1], pw[p]>> : p \in DOMAIN pw}
    IN  IF Cardinality(ToSet(rec.part)) # Cardinality(ToSet(rec.pos))
           \/ \E u, v \in Verts(rec.n) : Same(rec.part, u, v) /\ lab[u] # lab[v] THEN "positions-are-not-the-partition"
        ELSE IF ToSet(rec.pos) # 0 .. (rec.num - 1) \/ rec.ufn # rec.num THEN "wrong-number-of-blocks"
        ELSE IF ToSet(rec.he) # want THEN "edges-are-not-the-quotient"
        ELSE IF Len(rec.he) # Cardinality(want) THEN "parallel-edges"
        ELSE IF rec.badrev # 0 THEN "reverse-edges"
        ELSE ""

\* moving single vertices out of their clusters: still a partition, every old
\* cluster keeps a part of its own
TrivialVerdict(rec) ==
    IF Len(rec.he) # rec.num THEN "number-of-clusters"
    ELSE IF \E v \in Verts(rec.n) : ~(rec.part[v + 1] \in 0 .. rec.num - 1) THEN "cluster-out-of-range"
    ELSE IF \E b \in 1 .. rec.num : ToSet(rec.he[b]) # {v \in Verts(rec.n) : rec.part[v + 1] = b - 1}
                                     \/ Len(rec.he[b]) # Cardinality(ToSet(rec.he[b])) THEN "lists-are-not-the-clusters"
    ELSE IF \E u, v \in Verts(rec.n) : Same(rec.part, u, v) /\ ~Same(rec.pos, u, v) THEN "clusters-joined"
    ELSE ""

Verdict(rec) ==
    IF rec.st # "ok" THEN rec.how \o " abnormal-" \o rec.st
    ELSE LET w == CASE rec.kind \in {"capforest", "noi", "pr12", "pr34", "edges", "triangles"} -> JoinVerdict(rec)
                    [] rec.kind = "trivial" -> TrivialVerdict(rec)
                    [] OTHER -> QuotientVerdict(rec)
         IN  IF w = "" THEN "" ELSE rec.how \o " " \o w

Step ==
    /\ i <= Len(Recs)
    /\ \E rec \in {Recs[i]} : \E w \in {Verdict(rec)} :
        /\ w # "" => PrintT("REJECT " \o rec.id \o " " \o w)
        /\ rejected' = rejected + (IF w = "" THEN 0 ELSE 1)
    /\ i' = i + 1
Next == Step
Accepted == PrintT("JUDGED " \o ToString(TLCGet("distinct") - 1) \o " of " \o ToString(Len(Recs)))
            /\ TLCGet("distinct") = Len(Recs) + 1
=============================================================================
