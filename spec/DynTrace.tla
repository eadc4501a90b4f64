------------------------------ MODULE DynTrace ------------------------------
(* Recorded histories of the real dynamic minimum cut against DynamicMinCut.  *)
EXTENDS Cactus, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, rejected
Init == i = 1 /\ rejected = 0

Minus(e, u, v) == LET k == {j \in 1 .. Len(e) : {e[j][1], e[j][2]} = {u, v}}
                  IN  IF k = {} THEN e ELSE RemoveAt(e, Min(k))
WeightOf(e, u, v) == LET k == {j \in 1 .. Len(e) : {e[j][1], e[j][2]} = {u, v}}
                     IN  IF k = {} THEN 0 ELSE e[Min(k)][3]
Apply(e, op) == CASE op.k = "add" -> Append(e, <<op.u, op.v0, op.w>>)
                  [] op.k = "del" -> Minus(e, op.u, op.v0)
                  [] OTHER -> e

\* with lam = 0 the represented cuts are given by the labelling alone
SameComps(n, e, pos) == \A C \in Components(n, e) : \A u, v \in C : pos[u + 1] = pos[v + 1]

\* ghost state carried along: the edges, the value and the minimum cuts, whether
\* the representation must be complete, values a cached cactus may exist for
Ghost(n, st, op) ==
    LET e2 == TLCEval(Apply(st.e, op))
        l2 == TLCEval(MinCutHB(n, e2))
        c2 == TLCEval(IF l2 = 0 THEN {} ELSE AllMinCuts(n, e2, l2))
        grew == l2 > st.lam
        fell == l2 < st.lam
    IN  [e |-> e2, lam |-> l2, cuts |-> c2,
         full |-> CASE op.k = "init" -> TRUE
                    [] op.k = "add"  -> IF grew THEN l2 \notin st.put ELSE st.full
                    [] fell          -> TRUE
                    [] OTHER         -> st.full /\ (IF l2 = 0 THEN Components(n, e2) = Components(n, st.e) ELSE c2 = st.cuts),
         put |-> IF op.k = "del" /\ fell THEN st.put \cup {st.lam} ELSE st.put]

Bad(n, g, x, bal) ==
    IF x.v # g.lam THEN "value-" \o ToString(x.v) \o "-mincut-" \o ToString(g.lam)
    ELSE IF x.cur # x.v THEN "currentcut-differs"
    ELSE IF Len(x.pos) # n \/ \E v \in 1 .. n : x.pos[v] \notin Verts(x.hn) THEN "position-out-of-range"
    ELSE IF g.lam = 0
    THEN IF ~SameComps(n, g.e, x.pos) THEN "separates-a-component"
         ELSE IF Cardinality(ToSet(x.pos)) < 2 THEN "no-cut-represented"
         ELSE IF g.full /\ Cardinality(ToSet(x.pos)) # Cardinality(Components(n, g.e)) THEN "components-not-all-represented"
         ELSE ""
    ELSE IF ~WellFormedCactus(n, x.hn, x.he, x.cont, x.pos, g.lam) THEN "malformed-cactus"
    ELSE LET R == TLCEval(CactusCuts(n, x.hn, x.he, x.pos, g.lam))
         IN  IF R = {} \/ ~(R \subseteq g.cuts) THEN "represents-a-cut-that-is-not-minimum"
             ELSE IF g.full /\ R # g.cuts THEN "misses-minimum-cuts"
             ELSE IF bal = 1 /\ x.k # "init" /\ Canon(n, ToSet(x.side)) \notin g.cuts THEN "side-is-not-a-minimum-cut"
             ELSE ""

WalkStep(rec, a, x) ==
    IF a.bad # "" THEN a
    ELSE LET g == TLCEval(Ghost(rec.n, a.st, x))
             b == TLCEval(Bad(rec.n, g, x, rec.bal))
         IN  [st |-> g, j |-> a.j + 1, bad |-> IF b = "" THEN "" ELSE x.k \o " op" \o ToString(a.j) \o " " \o b]
Walk(rec, st) == FoldLeft(LAMBDA a, x: TLCEval(WalkStep(rec, a, x)), [st |-> st, j |-> 0, bad |-> ""], rec.ops).bad

(* Long cacti (hubs of high degree): the represented cuts are evaluated one by  *)
(* one; each must weigh the reported value, and with value 1 or a disconnected *)
(* graph that value is then certainly the minimum.  Bridges are the cuts of    *)
(* weight 1, so their number is compared too.                                  *)
BadBig(n, e, x) ==
    LET conn == TLCEval(Connected(n, e)) IN
    IF x.cur # x.v THEN "currentcut-differs"
    ELSE IF (x.v = 0) # ~conn THEN "value-" \o ToString(x.v)
    ELSE IF Len(x.pos) # n \/ \E v \in 1 .. n : x.pos[v] \notin Verts(x.hn) THEN "position-out-of-range"
    ELSE IF x.v = 0 THEN (IF SameComps(n, e, x.pos) THEN "" ELSE "separates-a-component")
    ELSE IF ~(/\ \A k \in 1 .. Len(x.he) : x.he[k][3] = x.v \/ 2 * x.he[k][3] = x.v
              /\ Connected(x.hn, x.he)) THEN "malformed-cactus"
    ELSE LET b == [v \in Verts(n) |-> x.pos[v + 1]]
             q == TLCEval(QuotientEdges(e, b))
             R == TLCEval(UNION {CutBy(x.hn, x.he, {j}) : j \in {k \in 1 .. Len(x.he) : x.he[k][3] = x.v}})
         IN  IF \E S \in R : CutW(q, S) # x.v THEN "represents-a-cut-that-is-not-minimum"
             ELSE IF x.v = 1 /\ R = {} THEN "no-cut-represented"
             ELSE ""

RECURSIVE WalkBig(_, _, _, _)
WalkBig(rec, j, e, acc) ==
    IF j > Len(rec.ops) \/ acc # "" THEN acc
    ELSE LET e2 == TLCEval(Apply(e, rec.ops[j]))
             b == TLCEval(BadBig(rec.n, e2, rec.ops[j]))
         IN  WalkBig(rec, j + 1, e2, IF b = "" THEN "" ELSE rec.ops[j].k \o " op" \o ToString(j) \o " " \o b)

Verdict(rec) ==
    IF rec.st # "ok" THEN "history abnormal-" \o rec.st
    ELSE IF rec.n > 40 THEN WalkBig(rec, 1, rec.e, "")
    ELSE Walk(rec, [e |-> rec.e, lam |-> 0, cuts |-> {}, full |-> TRUE, put |-> {}])

Step ==
    /\ i <= Len(Recs)
    /\ \E rec \in {Recs[i]} : \E w \in {Verdict(rec)} :
        /\ w # "" => PrintT("REJECT " \o rec.id \o " " \o w)
        /\ rejected' = rejected + (IF w = "" THEN 0 ELSE 1)
    /\ i' = i + 1
Next == Step
Accepted == PrintT("JUDGED " \o ToString(TLCGet("distinct") - 1) \o " of " \o ToString(Len(Recs)))
            /\ TLCGet("distinct") = Len(Recs) + 1
=============================================================================
