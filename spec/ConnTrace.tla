----------------------------- MODULE ConnTrace -----------------------------
(* Recorded connectivity computations: strong components of residual graphs  *)
(* (PathSCC!StrongAtEnd), connected components, the largest one, extracted    *)
(* blocks, the articulation point reduction and breadth first search.         *)
EXTENDS Graphs, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, rejected
Init == i = 1 /\ rejected = 0
SamePart(a, classes) ==      \* a: sequence of labels by vertex
    /\ \A c \in classes : Cardinality({a[v + 1] : v \in c}) = 1
    /\ Cardinality({a[v] : v \in DOMAIN a}) = Cardinality(classes)
Id(c) == TLCEval([v \in c |-> Cardinality({u \in c : u < v})])
InducedEdges(rec, c) == LET id == Id(c) IN
    {<<Min({id[x[1]], id[x[2]]}), Max({id[x[1]], id[x[2]]}), x[3]>> : x \in {rec.e[k] : k \in {j \in 1 .. Len(rec.e) : rec.e[j][1] \in c /\ rec.e[j][2] \in c}}}
Both(es) == es \cup {<<x[2], x[1], x[3]>> : x \in es}
Exactly(s, set) == Len(s) = Cardinality(set) /\ {s[k] : k \in 1 .. Len(s)} = set
CompBad(rec, classes) ==
    LET big == Max({Cardinality(c) : c \in classes} \cup {0}) IN
    IF ~SamePart(rec.cn, classes) \/ rec.cc # Cardinality(classes) THEN "connected-components"
    ELSE IF \E v \in 1 .. rec.n : rec.cn[v] \notin 0 .. rec.cc - 1 THEN "component-number-out-of-range"
    ELSE IF rec.ln # big \/ ~\E c \in classes : Cardinality(c) = big /\ Exactly(rec.larcs, Both(InducedEdges(rec, c))) THEN "largest-component"
    ELSE ""
BlockBad(rec) ==
    LET c == {v \in Verts(rec.n) : rec.lab[v + 1] = rec.want}
        id == Id(c)
        ie == TLCEval(InducedEdges(rec, c))
        rev == [v \in 1 .. rec.n |-> IF v - 1 \in c THEN id[v - 1] ELSE -1]
    IN  IF rec.xn # Cardinality(c) \/ ~Exactly(rec.xarcs, Both(ie)) \/ rec.xrev # rev THEN "extracted-block"
        ELSE IF rec.yn # Cardinality(c) \/ ~Exactly(rec.ye, ie) \/ rec.yrev # rev THEN "extracted-mutable-block"
        ELSE IF \E v \in c : rec.ymap[id[v] + 1] # v THEN "extracted-mapping"
        ELSE ""
\* residual graph: an arc exists unless it carries its full weight
ResAdj(n, x) ==
    [v \in Verts(n) |-> {x.e[k][2] : k \in {j \in 1 .. Len(x.e) : x.e[j][1] = v /\ x.fl[j] # x.e[j][3]}}
                   \cup {x.e[k][1] : k \in {j \in 1 .. Len(x.e) : x.e[j][2] = v /\ 0 - x.fl[j] # x.e[j][3]}}]
ResBad(rec, x) ==
    LET adj == TLCEval(ResAdj(rec.n, x))
        V == Verts(rec.n)
        R == TLCEval([v \in V |-> ReachFrom(adj, {v}, {v})])
        classes == TLCEval({{u \in R[v] : v \in R[u]} : v \in V})
    IN  IF ~SamePart(x.comp, classes) \/ x.num # Cardinality(classes) THEN "strong-components"
        ELSE IF {x.comp[v] : v \in 1 .. rec.n} # 0 .. x.num - 1 THEN "component-numbers"
        ELSE IF Len(x.sizes) # x.num \/ \E c \in 0 .. x.num - 1 : x.sizes[c + 1] # Cardinality({v \in 1 .. rec.n : x.comp[v] = c}) THEN "component-sizes"
        ELSE ""
\* what is left of the terminals' reach without a
Without(adj, a, n) == [v \in Verts(n) |-> IF v = a THEN {} ELSE adj[v] \ {a}]
IsCut(adj, n, a) == LET w == TLCEval(Without(adj, a, n)) IN adj[a] # {} /\ LET u == Min(adj[a]) IN ~(adj[a] \subseteq ReachFrom(w, {u}, {u}))
APBad(rec, adj, classes) ==
    LET V == Verts(rec.n)
        T == {rec.T[k] : k \in 1 .. Len(rec.T)}
        cuts == TLCEval({a \in V : IsCut(adj, rec.n, a)})
        first == {Min(c) : c \in classes}
        labs == {rec.apb[k] : k \in 1 .. Len(rec.apb)}
        BlockOK(b) == LET B == TLCEval({v \in V : rec.apb[v + 1] = b}) IN
            Cardinality(B) = 1 \/
            /\ Cardinality(B \cap T) <= 1
            /\ LET near == [a \in B |-> ReachFrom(TLCEval(Without(adj, a, rec.n)), T \ {a}, T \ {a})] IN
               \A y \in B : \E a \in B : y = a \/ y \notin near[a]
    IN  IF rec.ap = 1 /\ cuts = {} THEN "articulation-point-reported-but-none"
        ELSE IF rec.ap = 0 /\ ~(cuts \subseteq first) THEN "articulation-point-missed"
        ELSE IF ~\A b \in labs : BlockOK(b) THEN "articulation-reduction-unsafe"
        ELSE ""
RECURSIVE Layers(_, _, _, _)
Layers(adj, dist, front, d) ==
    IF front = {} THEN dist
    ELSE LET nxt == TLCEval((UNION {adj[v] : v \in front}) \ DOMAIN dist)
         IN  Layers(adj, TLCEval(dist @@ [v \in nxt |-> d + 1]), nxt, d + 1)
BfsBad(rec, adj) ==
    LET D == TLCEval(Layers(adj, (rec.bs :> 0), {rec.bs}, 0)) IN
    IF \E v \in Verts(rec.n) : IF v \in DOMAIN D /\ v # rec.bs
                               THEN rec.bdist[v + 1] # D[v] \/ rec.bpar[v + 1] \notin adj[v] \/ D[rec.bpar[v + 1]] # D[v] - 1
                               ELSE rec.bpar[v + 1] # -1 THEN "bfs-distance-or-parent"
    ELSE IF rec.blast \notin DOMAIN D \/ D[rec.blast] # Max({D[v] : v \in DOMAIN D}) THEN "bfs-farthest-vertex"
    ELSE ""
First(s) == FoldLeft(LAMBDA a, w : IF a # "" THEN a ELSE w, "", s)
Verdict(rec) ==
    IF rec.st # "ok" THEN "conn abnormal-" \o rec.st
    ELSE LET adj == TLCEval(AdjSets(rec.n, rec.e))
             classes == TLCEval(ComponentsOf(adj, Verts(rec.n)))
             w == First(<<CompBad(rec, classes), BlockBad(rec), APBad(rec, adj, classes), BfsBad(rec, adj)>> \o [k \in 1 .. Len(rec.res) |-> ResBad(rec, rec.res[k])])
         IN  IF w = "" THEN "" ELSE "conn " \o w

Step ==
    /\ i <= Len(Recs)
    /\ \E rec \in {Recs[i]} : \E w \in {Verdict(rec)} :
        /\ w # "" => PrintT("REJECT " \o rec.id \o " " \o w)
        /\ rejected' = rejected + (IF w = "" THEN 0 ELSE 1)
    /\ i' = i + 1
Next == Step
Accepted == PrintT("JUDGED " \o ToString(TLCGet("distinct") - 1) \o " of " \o ToString(Len(Recs)))
            /\ TLCGet("distinct") = Len(Recs) + 1
=============================================================================
