----------------------------- MODULE DistTrace -----------------------------
(* The events of real runs of branch and reduce on several processes are       *)
(* replayed on the state of DistributedQueue: the problems each rank holds     *)
(* (queued, or a thread works on them), the problems on their way from one     *)
(* rank to another, and the ranks that have ended.  A search has ended when    *)
(* all ranks are at the barrier; several searches follow each other when the   *)
(* graph has several components.                                               *)
EXTENDS Graphs, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, rejected
Init == i = 1 /\ rejected = 0

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Start(n) == [held |-> [r \in 0 .. n - 1 |-> << >>], work |-> << >>, fin |-> {}, at |-> {},
             air |-> << >>, why |-> ""]
Busy(s, r) == \E t \in DOMAIN s.work : s.work[t] = r
\* least: a value below every bound that may occur (0 if the components are searched one by one)
Apply(n, least, s, ev) ==
    LET k == ev[1]  t == ev[2]  o == ev[3]  v == ev[4]  r == ev[5]
        Bad(x) == [s EXCEPT !.why = x] IN
    IF s.why # "" THEN s
    ELSE IF k = "a" THEN
        IF o \in DOMAIN s.held[r] THEN Bad("added-twice")
        ELSE IF r \in s.fin THEN Bad("added-after-the-end")
        ELSE [s EXCEPT !.held[r] = Put(@, o, v)]
    ELSE IF k = "p" THEN
        IF o \notin DOMAIN s.held[r] THEN Bad("pulled-a-problem-not-held")
        ELSE IF t \in DOMAIN s.work THEN Bad("pulled-while-working")
        ELSE [s EXCEPT !.held[r] = Without(@, o), !.work = Put(@, t, r)]
    ELSE IF k = "d" THEN
        IF o \notin DOMAIN s.held[r] THEN Bad("dropped-a-problem-not-held")
        ELSE IF s.held[r][o] < v THEN Bad("dropped-below-the-bound")
        ELSE IF v < least THEN Bad("dropped-with-a-bound-nobody-reaches")
        ELSE [s EXCEPT !.held[r] = Without(@, o)]
    ELSE IF k = "e" THEN
        IF t \notin DOMAIN s.work THEN Bad("done-without-a-problem")
        ELSE [s EXCEPT !.work = Without(@, t)]
    ELSE IF k = "b" THEN
        IF v < least THEN Bad("bound-nobody-reaches") ELSE s
    ELSE IF k = "s" THEN        \* v: to whom
        IF t \notin DOMAIN s.work THEN Bad("sent-a-problem-it-does-not-work-on")
        ELSE IF v \in s.fin THEN Bad("problem-sent-to-an-ended-process")
        ELSE [s EXCEPT !.air = Append(@, <<o, r, v>>)]
    ELSE IF k = "r" THEN        \* v: from whom
        IF ~ \E x \in 1 .. Len(s.air) : s.air[x] = <<o, v, r>> THEN Bad("received-a-problem-nobody-sent")
        ELSE IF r \in s.fin THEN Bad("received-after-the-end")
        ELSE LET x == CHOOSE y \in 1 .. Len(s.air) : s.air[y] = <<o, v, r>> IN
             [s EXCEPT !.air = SubSeq(@, 1, x - 1) \o SubSeq(@, x + 1, Len(@))]
    ELSE IF k = "f" THEN
        IF Busy(s, r) THEN Bad("ended-while-a-thread-works")
        ELSE IF DOMAIN s.held[r] # {} THEN Bad("ended-with-problems-left")
        ELSE IF \E x \in 1 .. Len(s.air) : s.air[x][3] = r THEN Bad("ended-with-a-problem-on-its-way")
        ELSE [s EXCEPT !.fin = @ \cup {r}]
    ELSE IF k = "B" THEN
        IF r \notin s.fin THEN Bad("at-the-barrier-before-the-end")
        ELSE IF s.at \cup {r} = 0 .. n - 1
             THEN IF s.air # << >> THEN Bad("search-over-with-a-problem-on-its-way") ELSE Start(n)
             ELSE [s EXCEPT !.at = @ \cup {r}]
    ELSE Bad("unknown-event")

Weight(rec, lab) == FoldLeft(LAMBDA a, x: IF lab[x[1] + 1] # lab[x[2] + 1] THEN a + x[3] ELSE a, 0, rec.e)
Valid(rec, lab) == /\ Len(lab) = rec.n
                   /\ \A v \in 1 .. rec.n : lab[v] \in 0 .. rec.k - 1 /\ (rec.term[v] >= 0 => lab[v] = rec.term[v])

How(rec) == "ranks=" \o ToString(rec.ranks) \o " " \o rec.how
Verdict(rec) ==
    IF rec.st # "ok" THEN "dist abnormal-" \o rec.st
    ELSE IF \E r \in 1 .. rec.ranks : rec.v[r] # rec.v[1] THEN How(rec) \o " values-differ-between-processes"
    ELSE IF Valid(rec, rec.wit) /\ Weight(rec, rec.wit) < rec.v[1]
         THEN How(rec) \o " " \o ToString(rec.v[1]) \o "-but-" \o ToString(Weight(rec, rec.wit)) \o "-is-possible"
    \* the witness is an optimal solution, so no value lies below it
    ELSE IF Valid(rec, rec.wit) /\ Weight(rec, rec.wit) > rec.v[1] /\ rec.whole = 1 THEN How(rec) \o " value-too-small"
    ELSE IF rec.whole = 0 /\ \E r \in 1 .. rec.ranks : ~Valid(rec, rec.sol[r]) THEN How(rec) \o " invalid-solution"
    ELSE IF rec.whole = 0 /\ \E r \in 1 .. rec.ranks : rec.sol[r] # rec.sol[1] THEN How(rec) \o " solutions-differ-between-processes"
    ELSE IF rec.whole = 0 /\ Weight(rec, rec.sol[1]) # rec.v[1] THEN How(rec) \o " value-is-not-the-weight-of-the-solution"
    ELSE LET least == IF rec.whole = 1 THEN 0 ELSE rec.v[1]
             s == FoldLeft(LAMBDA a, x: Apply(rec.ranks, least, a, x), Start(rec.ranks), rec.ev) IN
         IF s.why # "" THEN How(rec) \o " " \o s.why
         ELSE IF s # Start(rec.ranks) THEN How(rec) \o " never-ended"
         ELSE ""

Step ==
    /\ i <= Len(Recs)
    /\ \E rec \in {Recs[i]} : \E w \in {Verdict(rec)} :
        /\ w # "" => PrintT("REJECT " \o rec.id \o " " \o w)
        /\ rejected' = rejected + (IF w = "" THEN 0 ELSE 1)
    /\ i' = i + 1
Next == Step
Accepted == PrintT("JUDGED " \o ToString(TLCGet("distinct") - 1) \o " of " \o ToString(Len(Recs)))
            /\ TLCGet("distinct") = Len(Recs) + 1
=============================================================================
