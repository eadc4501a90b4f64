------------------------------ MODULE IOTrace ------------------------------
(* Recorded file reading and writing.  Meaning of a METIS file: as in          *)
(* MetisReader!Row, over the numbers of each line.                             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, rejected
Init == i = 1 /\ rejected = 0
Comment(r) == Len(r) = 1 /\ r[1] = -1
Fmt(h) == IF Len(h) >= 3 THEN h[3] ELSE 0
\* arcs a line contributes
RowArcs(v, r, weighted, vw) ==
    LET t == IF vw THEN Tail(r) ELSE r
        all == IF weighted THEN [k \in 1 .. Len(t) \div 2 |-> <<v, t[2 * k - 1] - 1, t[2 * k]>>] ELSE [k \in 1 .. Len(t) |-> <<v, t[k] - 1, 1>>]
    IN  SelectSeq(all, LAMBDA x : x[2] # v)
FileArcs(rows, fmt) == FlattenSeq([k \in 1 .. Len(rows) - 1 |-> RowArcs(k - 1, rows[k + 1], fmt % 10 = 1, fmt >= 10)])
Same(a, b) == Len(a) = Len(b) /\ {a[k] : k \in 1 .. Len(a)} = {b[k] : k \in 1 .. Len(b)}
\* the arcs of the graph itself
Both(es, weighted) == LET w(x) == IF weighted THEN x[3] ELSE 1 IN
    [k \in 1 .. 2 * Len(es) |-> IF k % 2 = 1 THEN <<es[(k + 1) \div 2][1], es[(k + 1) \div 2][2], w(es[(k + 1) \div 2])>>
                                ELSE <<es[k \div 2][2], es[k \div 2][1], w(es[k \div 2])>>]
GraphIs(g, n, arcs) == g.n = n /\ Same(g.arcs, arcs)
ReadBad(rec) ==
    LET rows == TLCEval(SelectSeq(rec.rows, LAMBDA r : ~Comment(r)))
        arcs == TLCEval(FileArcs(rows, Fmt(rows[1])))
    IN  IF ~GraphIs(rec.ga, rows[1][1], arcs) THEN "read-graph-access"
        ELSE IF ~GraphIs(rec.mg, rows[1][1], arcs) THEN "read-mutable-graph"
        ELSE ""
WriteBad(rec, w) ==
    LET want == TLCEval(Both(rec.e, w.weighted = 1)) IN
    IF Len(w.rows) # rec.n + 1 THEN "written-line-count"
    ELSE IF w.rows[1][1] # rec.n \/ w.rows[1][2] # Len(rec.e) THEN "written-header"
    ELSE IF (Fmt(w.rows[1]) = 1) # (w.weighted = 1) THEN "written-format"
    ELSE IF ~Same(FileArcs(w.rows, Fmt(w.rows[1])), want) THEN "written-graph"
    ELSE IF ~GraphIs(w.ga, rec.n, want) THEN "round-trip"
    ELSE ""
CutBad(rec) ==
    IF rec.cutrows # [k \in 1 .. rec.n |-> <<rec.cut[k]>>] THEN "cut-file"
    ELSE IF rec.cutvec # rec.cut THEN "cut-read-back" ELSE ""
VecBad(rec) ==
    IF SelectSeq(rec.vrows, LAMBDA r : ~Comment(r)) # [k \in 1 .. Len(rec.vec) |-> <<rec.vec[k]>>] THEN "abnormal-driver"
    ELSE IF rec.v1 # rec.vec THEN "vector-read" ELSE IF rec.v2 # rec.vec THEN "vector-round-trip" ELSE ""
\* the entries in order of time, entries of the same time in file order
TempBad(rec) ==
    LET T == rec.tw  G == rec.tg
        ord == TLCEval(SortSeq([k \in 1 .. Len(T) |-> k], LAMBDA a, b : T[a][4] < T[b][4] \/ (T[a][4] = T[b][4] /\ a < b)))
        ends == {T[k][1] + 1 : k \in 1 .. Len(T)} \cup {T[k][2] + 1 : k \in 1 .. Len(T)} \cup {0}
    IN  IF Len(G) # Len(T) THEN "temporal-count"
        ELSE IF \E k \in 1 .. Len(T) : G[k] # T[ord[k]] THEN "temporal-order-or-entry"
        ELSE IF rec.tn # (CHOOSE m \in ends : \A o \in ends : o <= m) THEN "temporal-vertices" ELSE ""
First(s) == FoldLeft(LAMBDA a, x : IF a # "" THEN a ELSE x, "", s)
Verdict(rec) ==
    IF rec.st # "ok" THEN "io abnormal-" \o rec.st
    ELSE LET w == First(<<ReadBad(rec)>> \o [k \in 1 .. Len(rec.w) |-> LET b == WriteBad(rec, rec.w[k]) IN IF b = "" THEN "" ELSE b \o "-" \o ToString(k)]
                        \o <<CutBad(rec), VecBad(rec), TempBad(rec)>>)
         IN  IF w = "" THEN "" ELSE "io " \o w

Step ==
    /\ i <= Len(Recs)
    /\ \E rec \in {Recs[i]} : \E w \in {Verdict(rec)} :
        /\ w # "" => PrintT("REJECT " \o rec.id \o " " \o w)
        /\ rejected' = rejected + (IF w = "" THEN 0 ELSE 1)
    /\ i' = i + 1
Next == Step
Accepted == PrintT("JUDGED " \o ToString(TLCGet("distinct") - 1) \o " of " \o ToString(Len(Recs)))
            /\ TLCGet("distinct") = Len(Recs) + 1
=============================================================================
