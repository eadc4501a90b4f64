------------------------- MODULE MutableGraphTrace -------------------------
(* Recorded histories of the real mutable_graph against MutableGraph.         *)
EXTENDS MutableGraph, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, rejected
Init == i = 1 /\ rejected = 0

\* what the implementation shows, as a graph
SeenW(st) ==
    FoldLeft(LAMBDA W, v : FoldLeft(LAMBDA X, y : IF y[1] > st.l[v] THEN ({st.l[v], y[1]} :> ((IF {st.l[v], y[1]} \in DOMAIN X THEN X[{st.l[v], y[1]}] ELSE 0) + y[2])) @@ X ELSE X,
                                    W, st.a[v]),
             [p \in {} |-> 0], [v \in 1 .. Len(st.l) |-> v])

Bad(g, st, orig) ==
    LET n == Len(st.l)
        At(l) == CHOOSE v \in 1 .. n : st.l[v] = l
    IN
    IF ToSet(st.l) # g.L \/ n # Cardinality(g.L) THEN "wrong-vertices"
    ELSE IF \E v \in 1 .. n : ToSet(st.c[v]) # g.C[st.l[v]] \/ Len(st.c[v]) # Cardinality(g.C[st.l[v]]) THEN "wrong-contents"
    ELSE IF \E v \in 1 .. n : \E j \in 1 .. Len(st.a[v]) : st.a[v][j][3] # 1 THEN "edge-and-reverse-edge-disagree"
    ELSE IF TLCEval(SeenW(st)) # g.W THEN "wrong-weights"
    ELSE IF \E v \in 1 .. n : st.d[v] # FoldLeft(LAMBDA s, y : s + y[2], 0, st.a[v]) THEN "wrong-weighted-degree"
    ELSE IF st.m # FoldLeft(LAMBDA s, x : s + Len(x), 0, st.a) THEN "wrong-edge-count"
    ELSE IF \E v \in 1 .. n : g.F[st.l[v]] # 2 /\ st.f[v] # g.F[st.l[v]] THEN "mark-moved-to-another-vertex"
    ELSE IF n > 0 /\ (st.mx # Max(ToSet(st.d)) \/ st.mn # Min(ToSet(st.d))) THEN "wrong-extreme-degree"
    ELSE IF st.sum # FoldLeft(LAMBDA s, x : s + x, 0, st.d) THEN "wrong-weight-sum"
    ELSE IF \E l \in g.L : \E o \in g.C[l] : o >= Len(st.pos) \/ st.pos[o + 1] # l THEN "wrong-position"
    ELSE IF st.orig # orig THEN "wrong-number-of-original-vertices"
    ELSE ""

\* the mark of a contracted vertex is not specified (2)
Apply(g, op) ==
    CASE op.k = "edge" -> AddW(g, op.S[1], op.S[2], op.w)
      [] op.k = "addw" -> AddW(g, op.S[1], op.S[2], op.w)
      [] op.k = "contract" ->
            IF Len(op.S) = 1 THEN g
            ELSE LET S == ToSet(op.S)
                     left == S \cap ToSet(op.st.l)
                     r == IF left = {} THEN op.S[1] ELSE Min(left)
                 IN  [ContractL(g, S, r) EXCEPT !.F[r] = 2]
      [] op.k = "delv" -> RemoveV(g, op.S[1])
      [] op.k = "newv" -> AddV(g, op.S[1])
      [] op.k = "reset" -> [g EXCEPT !.C = [l \in g.L |-> {v - 1 : v \in {x \in 1 .. Len(op.st.l) : op.st.l[x] = l}}]]
      [] OTHER -> g

WalkStep(a, x) ==
    IF a.bad # "" THEN a
    ELSE LET g == TLCEval(IF x.k = "init" THEN a.g ELSE Apply(a.g, x))
             o == IF x.k = "reset" THEN Len(x.st.l) ELSE a.o
             b == TLCEval(Bad(g, x.st, o))
         IN  [g |-> g, o |-> o, j |-> a.j + 1, bad |-> IF b = "" THEN "" ELSE x.k \o " " \o b \o "-after-op-" \o ToString(a.j)]
\* marks are given by the first observation
Start(rec) ==
    LET V == 0 .. (rec.n - 1)
        g0 == [L |-> V, W |-> [p \in {} |-> 0], C |-> [v \in V |-> {v}],
               F |-> [v \in V |-> rec.ops[1].st.f[v + 1]]]
    IN  FoldLeft(LAMBDA g, x : AddW(g, x[1], x[2], x[3]), g0, rec.e)
Verdict(rec) ==
    IF rec.st # "ok" THEN "history abnormal-" \o rec.st
    ELSE FoldLeft(LAMBDA a, x : TLCEval(WalkStep(a, x)), [g |-> TLCEval(Start(rec)), o |-> rec.n, j |-> 0, bad |-> ""], rec.ops).bad

Step ==
    /\ i <= Len(Recs)
    /\ \E rec \in {Recs[i]} : \E w \in {Verdict(rec)} :
        /\ w # "" => PrintT("REJECT " \o rec.id \o " " \o w)
        /\ rejected' = rejected + (IF w = "" THEN 0 ELSE 1)
    /\ i' = i + 1
Next == Step
Accepted == PrintT("JUDGED " \o ToString(TLCGet("distinct") - 1) \o " of " \o ToString(Len(Recs)))
            /\ TLCGet("distinct") = Len(Recs) + 1
=============================================================================
