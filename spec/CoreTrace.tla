----------------------------- MODULE CoreTrace -----------------------------
(* Recorded core decompositions: the degrees left must be the core numbers   *)
(* (KCore!CoresAtEnd), the arrays consistent, and every core graph a largest *)
(* component of the core with the input's weights, vertices in their order.  *)
EXTENDS Graphs, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, rejected
Init == i = 1 /\ rejected = 0
RECURSIVE Peel(_, _, _)
Peel(adj, S, c) == LET low == TLCEval({v \in S : Cardinality(adj[v] \cap S) < c}) IN IF low = {} THEN S ELSE Peel(adj, TLCEval(S \ low), c)
\* the largest sets, from core to core
CoreSets(adj, n) ==
    FoldLeft(LAMBDA a, c : Append(a, TLCEval(Peel(adj, a[Len(a)], c))), <<Verts(n)>>, [c \in 1 .. n |-> c])
ArrayBad(rec) ==
    LET n == rec.n IN
    IF \E v \in Verts(n) : rec.vert[rec.pos[v + 1] + 1] # v THEN "positions-not-inverse"
    ELSE IF \E p \in 1 .. n - 1 : rec.deg[rec.vert[p] + 1] > rec.deg[rec.vert[p + 1] + 1] THEN "vertices-not-sorted-by-core"
    ELSE IF \E d \in 1 .. Len(rec.bin) : rec.bin[d] # Cardinality({v \in 1 .. n : rec.deg[v] < d - 1}) THEN "bucket-start"
    ELSE ""
\* c: a set of vertices; the arcs of its induced subgraph, renumbered in order
Induced(rec, c) ==
    LET id == TLCEval([v \in c |-> Cardinality({u \in c : u < v})])
        es == SelectSeq(rec.e, LAMBDA x : x[1] \in c /\ x[2] \in c)
    IN  {<<id[es[k][1]], id[es[k][2]], es[k][3]>> : k \in 1 .. Len(es)} \cup {<<id[es[k][2]], id[es[k][1]], es[k][3]>> : k \in 1 .. Len(es)}
GraphBad(rec, adj, S, x) ==
    LET inner == TLCEval([v \in Verts(rec.n) |-> adj[v] \cap S])
        comps == TLCEval(ComponentsOf(inner, S))
        big == Max({Cardinality(c) : c \in comps} \cup {0})
        arcs == TLCEval({x.arcs[k] : k \in 1 .. Len(x.arcs)})
    IN  IF x.n # big THEN "core-graph-size-" \o ToString(x.n) \o "-largest-" \o ToString(big)
        ELSE IF Cardinality(arcs) # Len(x.arcs) THEN "core-graph-repeats-arcs"
        ELSE IF ~\E c \in comps : Cardinality(c) = big /\ Induced(rec, c) = arcs THEN "core-graph-not-induced"
        ELSE ""
Verdict(rec) ==
    IF rec.st # "ok" THEN "core abnormal-" \o rec.st
    ELSE LET adj == TLCEval(AdjSets(rec.n, rec.e))
             sets == TLCEval(CoreSets(adj, rec.n))
             num == TLCEval([v \in Verts(rec.n) |-> Cardinality({c \in 2 .. Len(sets) : v \in sets[c]})])
             ab == ArrayBad(rec)
         IN  IF \E v \in Verts(rec.n) : rec.deg[v + 1] # num[v]
             THEN "core number-of-vertex-" \o ToString(CHOOSE v \in Verts(rec.n) : rec.deg[v + 1] # num[v])
             ELSE IF ab # "" THEN "core " \o ab
             ELSE FoldLeft(LAMBDA a, x : IF a # "" THEN a ELSE LET w == GraphBad(rec, adj, sets[x.k + 1], x) IN IF w = "" THEN "" ELSE "core" \o ToString(x.k) \o " " \o w,
                           "", rec.cores)

Step ==
    /\ i <= Len(Recs)
    /\ \E rec \in {Recs[i]} : \E w \in {Verdict(rec)} :
        /\ w # "" => PrintT("REJECT " \o rec.id \o " " \o w)
        /\ rejected' = rejected + (IF w = "" THEN 0 ELSE 1)
    /\ i' = i + 1
Next == Step
Accepted == PrintT("JUDGED " \o ToString(TLCGet("distinct") - 1) \o " of " \o ToString(Len(Recs)))
            /\ TLCGet("distinct") = Len(Recs) + 1
=============================================================================
