---------------------------- MODULE MinCutTrace ----------------------------
(* Observed answers of the real solvers against MinCut's admissible answers. *)
(* One state per observed graph; a record carries the graph and every        *)
(* configuration's answer.                                                   *)
EXTENDS Graphs, Json, IOUtils
CONSTANT Want          \* "value", "side", or "all"
M == INSTANCE MinCut WITH N <- 2, WMax <- 1, Slack <- 0, Approx <- FALSE,
        n <- 0, e <- <<>>, blk <- 0, best <- 0, side <- 0, done <- FALSE

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, rejected
Init == i = 1 /\ rejected = 0

Verdict(rec, lam, x) ==
    IF x.st # "ok" THEN "abnormal-" \o x.st
    ELSE IF Want \in {"value", "all"} /\ ~M!ValueOK(x.k, lam, rec.scale = 1, x.v)
         THEN "value-" \o ToString(x.v) \o "-mincut-" \o ToString(lam)
    ELSE IF Want \in {"side", "all"} /\ x.saved = 1 /\
            (IF rec.big = 1 THEN ~(x.sw = x.v /\ x.ones > 0 /\ x.ones < rec.fulln)
             ELSE ~M!SideOK(rec.n, rec.e, x.v, ToSet(x.s)))
         THEN "side-does-not-realise-" \o ToString(x.v)
    ELSE IF x.intact = 0 THEN "input-graph-changed"
    ELSE ""

Step ==
    /\ i <= Len(Recs)
    /\ \E rec \in {Recs[i]} :
       \E lam \in {IF Want = "side" THEN 0 ELSE MinCutHB(rec.n, rec.e)} :
       \E bad \in {{j \in 1 .. Len(rec.runs) : Verdict(rec, lam, rec.runs[j]) # ""}} :
           /\ \A j \in bad : PrintT("REJECT " \o rec.id \o " " \o rec.runs[j].c \o " "
                                     \o Verdict(rec, lam, rec.runs[j]))
           /\ rejected' = rejected + Cardinality(bad)
    /\ i' = i + 1
Next == Step
Accepted == PrintT("JUDGED " \o ToString(TLCGet("distinct") - 1) \o " of " \o ToString(Len(Recs)))
            /\ TLCGet("distinct") = Len(Recs) + 1
=============================================================================
