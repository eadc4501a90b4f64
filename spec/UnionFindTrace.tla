--------------------------- MODULE UnionFindTrace ---------------------------
(***************************************************************************)
(* Recorded histories of the disjoint set structures.  A history is accepted *)
(* iff it is linearizable: a set of configurations <<partition, calls that  *)
(* have taken effect>> is carried through the invocations and responses in  *)
(* the order of their times.  Afterwards find and n() must give exactly the  *)
(* partition of one remaining configuration.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC, TLCExt, IOUtils, Json
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, rejected
Init == i = 1 /\ rejected = 0
\* a call: <<thread, kind, a, b, invocation, response, answer>>
Merge(p, a, b) == LET m == Min({p[a], p[b]}) IN [e \in DOMAIN p |-> IF p[e] \in {p[a], p[b]} THEN m ELSE p[e]]
Fits(p, o) ==
    CASE o[2] = 0 -> (o[7] # 0) = (p[o[3]] # p[o[4]])
      [] o[2] = 1 -> (o[7] # 0) = (p[o[3]] = p[o[4]])
      [] OTHER -> o[7] \in DOMAIN p /\ p[o[7]] = p[o[3]]
After(p, o) == IF o[2] = 0 THEN Merge(p, o[3], o[4]) ELSE p
RECURSIVE Close(_, _, _)
Close(S, open, ops) ==
    LET new == UNION {{<<After(c[1], ops[j]), c[2] \cup {j}>> : j \in {x \in open \ c[2] : Fits(c[1], ops[x])}} : c \in S}
    IN  IF new \subseteq S THEN S ELSE Close(TLCEval(S \cup new), open, ops)
EventStep(ops, s, ev) ==
    LET j == ev[2] IN
    IF ev[3] THEN [S |-> s.S, open |-> s.open \cup {j}]
    ELSE [S |-> TLCEval({c \in Close(s.S, s.open, ops) : j \in c[2]}), open |-> s.open \ {j}]
Events(ops) ==
    LET m == Len(ops)
        all == {<<ops[j][5], j, TRUE>> : j \in 1 .. m} \cup {<<ops[j][6], j, FALSE>> : j \in 1 .. m}
    IN  SetToSortSeq(all, LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[3] /\ ~y[3]) \/ (x[1] = y[1] /\ x[3] = y[3] /\ x[2] < y[2]))
FinalOK(p, rec) ==
    /\ rec.cnt = Cardinality({p[e] : e \in DOMAIN p})
    /\ \A x \in DOMAIN p : rec.fin[x + 1] \in DOMAIN p /\ p[rec.fin[x + 1]] = p[x]
    /\ \A x, y \in DOMAIN p : (rec.fin[x + 1] = rec.fin[y + 1]) = (p[x] = p[y])
\* number of sets after every call of a sequential history
Counts(p0, rec) ==
    rec.ns = << >> \/
    FoldLeft(LAMBDA s, o : LET q == TLCEval(After(s.p, o)) IN
                [p |-> q, j |-> s.j + 1, ok |-> s.ok /\ rec.ns[s.j + 1] = Cardinality({q[e] : e \in DOMAIN q})],
             [p |-> p0, j |-> 0, ok |-> TRUE], rec.ops).ok
Verdict(rec) ==
    IF rec.st # "ok" THEN "history abnormal-" \o rec.st
    ELSE LET p00 == [e \in 0 .. (rec.n - 1) |-> e]
             pre == FoldLeft(LAMBDA s, o : [ok |-> s.ok /\ Fits(s.p, o), p |-> TLCEval(After(s.p, o))], [ok |-> TRUE, p |-> p00], rec.pre)
             res == FoldLeft(LAMBDA s, ev : TLCEval(EventStep(rec.ops, s, ev)), [S |-> {<<pre.p, {}>>}, open |-> {}], Events(rec.ops))
         IN  IF ~pre.ok THEN "prefix wrong-answer"
             ELSE IF res.S = {} THEN "history not-linearizable"
             ELSE IF ~\E c \in res.S : FinalOK(c[1], rec) THEN "history final-partition-or-count"
             ELSE IF ~Counts(pre.p, rec) THEN "history wrong-number-of-sets"
             ELSE ""

Step ==
    /\ i <= Len(Recs)
    /\ \E rec \in {Recs[i]} : \E w \in {Verdict(rec)} :
        /\ w # "" => PrintT("REJECT " \o rec.id \o " " \o w)
        /\ rejected' = rejected + (IF w = "" THEN 0 ELSE 1)
    /\ i' = i + 1
Next == Step
Accepted == PrintT("JUDGED " \o ToString(TLCGet("distinct") - 1) \o " of " \o ToString(Len(Recs)))
            /\ TLCGet("distinct") = Len(Recs) + 1
=============================================================================
