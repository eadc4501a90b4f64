---------------------------- MODULE BranchTrace ----------------------------
(* The events recorded from real runs of the parallel branch and reduce are    *)
(* replayed on the abstract state of BranchQueue: the problems held (queued or *)
(* set aside) with their lower bounds, the problem each thread works on, and   *)
(* whether the end was declared.                                               *)
EXTENDS Graphs, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, rejected
Init == i = 1 /\ rejected = 0

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Start == [held |-> << >>, work |-> << >>, fin |-> FALSE, why |-> ""]
\* one event on the state; opt: the value the search ends with
Apply(opt, s, ev) ==
    LET k == ev[1]  t == ev[2]  o == ev[3]  v == ev[4] IN
    IF s.why # "" THEN s
    ELSE IF k = "a" THEN
        IF o \in DOMAIN s.held THEN [s EXCEPT !.why = "added-twice"]
        ELSE IF s.fin THEN [s EXCEPT !.why = "added-after-the-end"]
        ELSE [s EXCEPT !.held = Put(@, o, v)]
    ELSE IF k = "p" THEN
        IF o \notin DOMAIN s.held THEN [s EXCEPT !.why = "pulled-a-problem-not-held"]
        ELSE IF t \in DOMAIN s.work THEN [s EXCEPT !.why = "pulled-while-working"]
        ELSE [s EXCEPT !.held = Without(@, o), !.work = Put(@, t, o)]
    ELSE IF k = "d" THEN
        IF o \notin DOMAIN s.held THEN [s EXCEPT !.why = "dropped-a-problem-not-held"]
        ELSE IF s.held[o] < v THEN [s EXCEPT !.why = "dropped-below-the-bound"]
        ELSE IF v < opt THEN [s EXCEPT !.why = "dropped-with-a-bound-nobody-reaches"]
        ELSE [s EXCEPT !.held = Without(@, o)]
    ELSE IF k = "e" THEN
        IF t \notin DOMAIN s.work THEN [s EXCEPT !.why = "done-without-a-problem"]
        ELSE [s EXCEPT !.work = Without(@, t)]
    ELSE IF k = "b" THEN
        IF v < opt THEN [s EXCEPT !.why = "bound-nobody-reaches"] ELSE s
    ELSE IF k = "f" THEN
        IF DOMAIN s.work # {} THEN [s EXCEPT !.why = "ended-while-a-thread-works"]
        ELSE IF DOMAIN s.held # {} THEN [s EXCEPT !.why = "ended-with-problems-left"]
        ELSE [s EXCEPT !.fin = TRUE]
    ELSE s

Weight(rec, lab) == FoldLeft(LAMBDA a, x: IF lab[x[1] + 1] # lab[x[2] + 1] THEN a + x[3] ELSE a, 0, rec.e)
Valid(rec, lab) == /\ Len(lab) = rec.n
                   /\ \A v \in 1 .. rec.n : lab[v] \in 0 .. rec.k - 1 /\ (rec.term[v] >= 0 => lab[v] = rec.term[v])

Verdict(rec) ==
    IF rec.st # "ok" THEN "proto abnormal-" \o rec.st
    ELSE IF ~Valid(rec, rec.sol) THEN rec.how \o " invalid-solution"
    ELSE IF Weight(rec, rec.sol) # rec.v THEN rec.how \o " value-is-not-the-weight-of-the-solution"
    \* the witness is any other solution
    ELSE IF Valid(rec, rec.wit) /\ Weight(rec, rec.wit) < rec.v THEN rec.how \o " " \o ToString(rec.v) \o "-but-" \o ToString(Weight(rec, rec.wit)) \o "-is-possible"
    ELSE LET s == FoldLeft(LAMBDA a, x: Apply(rec.v, a, x), Start, rec.ev) IN
         IF s.why # "" THEN rec.how \o " " \o s.why
         ELSE IF ~s.fin THEN rec.how \o " never-ended"
         ELSE ""

Step ==
    /\ i <= Len(Recs)
    /\ \E rec \in {Recs[i]} : \E w \in {Verdict(rec)} :
        /\ w # "" => PrintT("REJECT " \o rec.id \o " " \o w)
        /\ rejected' = rejected + (IF w = "" THEN 0 ELSE 1)
    /\ i' = i + 1
Next == Step
Accepted == PrintT("JUDGED " \o ToString(TLCGet("distinct") - 1) \o " of " \o ToString(Len(Recs)))
            /\ TLCGet("distinct") = Len(Recs) + 1
=============================================================================
