------------------------- MODULE PriorityQueueTrace -------------------------
(* Recorded histories of the five priority queue classes, replayed on the    *)
(* abstract queue of PriorityQueue.tla: every answer must be one that queue   *)
(* allows (deleteMax and maxElement may pick any node of largest key).        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC, TLCExt, IOUtils, Json
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, rejected
Init == i = 1 /\ rejected = 0
\* an observation: << <<kind, node, key, answer, size, empty, maxValue, maxElement>>, <<key of node 0, ...>> >>
Members(q) == {n \in DOMAIN q : q[n] # -1}
Top(q) == Max({q[n] : n \in DOMAIN q} \cup {-1})
After(q, o) ==
    CASE o[1] = 1 -> [q EXCEPT ![o[4] + 1] = -1]
      [] o[1] = 2 -> [q EXCEPT ![o[2] + 1] = -1]
      [] o[1] \in {6, 7} -> q
      [] OTHER -> [q EXCEPT ![o[2] + 1] = o[3]]
Legal(q, o) ==
    CASE o[1] = 0 -> q[o[2] + 1] = -1
      [] o[1] = 1 -> Members(q) # {}
      [] o[1] = 7 -> TRUE
      [] OTHER -> q[o[2] + 1] # -1
Answer(q, o) == o[1] = 1 => (o[4] + 1) \in DOMAIN q /\ q[o[4] + 1] = Top(q)
Shown(q, o, keys) ==
    /\ keys = q
    /\ o[5] = Cardinality(Members(q))
    /\ (o[6] = 1) = (Members(q) = {})
    /\ Members(q) # {} => o[7] = Top(q) /\ (o[8] + 1) \in DOMAIN q /\ q[o[8] + 1] = Top(q)
One(s, ob) ==
    IF s.why # "" THEN s
    ELSE IF ~Legal(s.q, ob[1]) THEN [s EXCEPT !.why = "driver-made-an-illegal-call"]
    ELSE IF ~Answer(s.q, ob[1]) THEN [s EXCEPT !.why = "deleteMax-not-maximal"]
    ELSE LET q == TLCEval(After(s.q, ob[1])) IN
         IF Shown(q, ob[1], ob[2]) THEN [q |-> q, why |-> ""] ELSE [q |-> q, why |-> "contents-after-call-kind-" \o ToString(ob[1][1])]
RunWhy(rec, run) == FoldLeft(One, [q |-> [n \in 1 .. rec.n |-> -1], why |-> ""], run.ops).why
Verdict(rec) ==
    IF rec.st # "ok" THEN "history abnormal-" \o rec.st
    ELSE FoldLeft(LAMBDA a, run : IF a # "" THEN a ELSE LET w == RunWhy(rec, run) IN IF w = "" THEN "" ELSE run.q \o " " \o w, "", rec.runs)

Step ==
    /\ i <= Len(Recs)
    /\ \E rec \in {Recs[i]} : \E w \in {Verdict(rec)} :
        /\ w # "" => PrintT("REJECT " \o rec.id \o " " \o w)
        /\ rejected' = rejected + (IF w = "" THEN 0 ELSE 1)
    /\ i' = i + 1
Next == Step
Accepted == PrintT("JUDGED " \o ToString(TLCGet("distinct") - 1) \o " of " \o ToString(Len(Recs)))
            /\ TLCGet("distinct") = Len(Recs) + 1
=============================================================================
