----------------------------- MODULE UnionFind -----------------------------
(***************************************************************************)
(* Concurrent disjoint sets at the granularity of single memory accesses:   *)
(* every read, and every compare-and-swap, of a parent pointer is a step of *)
(* its own.  `abs' is the abstract state, a partition, changed exactly by   *)
(* the linking compare-and-swap; every answer a call gives must have been   *)
(* right at some moment between its invocation and its response.            *)
(*                                                                         *)
(* Ordered = FALSE is the machine that links a root below any other root    *)
(* without an order on the roots: two threads linking the same pair make a  *)
(* cycle.  It must be rejected.                                             *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS N, Threads, MaxOps, Ordered
E == 0 .. (N - 1)
T == 1 .. Threads
VARIABLES par,      \* parent pointers
          th,       \* what every thread is doing
          abs,      \* abstract partition: element -> smallest element of its set
          left,     \* calls every thread may still make
          wrong     \* an answer that was never right
vars == <<par, th, abs, left, wrong>>
Idle == [op |-> "idle", a |-> 0, b |-> 0, pc |-> "ret", x |-> 0, nx |-> 0, gp |-> 0, second |-> FALSE, poss |-> {}]
Init == /\ par = [e \in E |-> e]
        /\ th = [t \in T |-> Idle]
        /\ abs = [e \in E |-> e]
        /\ left = [t \in T |-> MaxOps]
        /\ wrong = ""
Same(ab, a, b) == ab[a] = ab[b]
\* ---------------------------------------------------------------- a call
Invoke(t) ==
    /\ th[t].op = "idle" /\ left[t] > 0
    /\ \E op \in {"union", "same", "find"}, a \in E, b \in E :
         /\ op = "find" => b = a
         /\ th' = [th EXCEPT ![t] = [op |-> op, a |-> a, b |-> b, pc |-> "read", x |-> a, nx |-> 0, gp |-> 0, second |-> FALSE, poss |-> {Same(abs, a, b)}]]
    /\ left' = [left EXCEPT ![t] = @ - 1]
    /\ UNCHANGED <<par, abs, wrong>>
\* a and b are overwritten by the roots found, which are in the same sets as
\* are overwritten by the roots found
Answer(t, r) ==
    /\ th' = [th EXCEPT ![t] = Idle]
    /\ wrong' = IF wrong # "" THEN wrong
                ELSE CASE th[t].op = "same" /\ r \notin th[t].poss -> "same"
                       [] th[t].op = "union" /\ ~r /\ TRUE \notin th[t].poss -> "union-false"
                       [] OTHER -> ""
    /\ UNCHANGED <<par, abs, left>>
\* ------------------------------------------------------------------ find
Set(t, f) == th' = [th EXCEPT ![t] = f] /\ UNCHANGED <<par, abs, left, wrong>>
Read(t) ==
    LET s == th[t] IN
    /\ s.pc = "read"
    /\ IF par[s.x] # s.x THEN Set(t, [s EXCEPT !.pc = "next"])
       ELSE Set(t, [s EXCEPT !.pc = "found"])
ReadNext(t) ==
    LET s == th[t] IN
    /\ s.pc = "next" /\ Set(t, [s EXCEPT !.pc = "grand", !.nx = par[s.x]])
ReadGrand(t) ==
    LET s == th[t] IN
    /\ s.pc = "grand" /\ Set(t, [s EXCEPT !.pc = "halve", !.gp = par[s.nx]])
Halve(t) ==
    LET s == th[t] IN
    /\ s.pc = "halve"
    /\ par' = IF par[s.x] = s.nx THEN [par EXCEPT ![s.x] = s.gp] ELSE par
    /\ th' = [th EXCEPT ![t].pc = "move"]
    /\ UNCHANGED <<abs, left, wrong>>
Move(t) ==
    LET s == th[t] IN
    /\ s.pc = "move" /\ Set(t, [s EXCEPT !.pc = "read", !.x = par[s.nx]])
Found(t) ==
    LET s == th[t] IN
    /\ s.pc = "found"
    /\ CASE s.op = "find" ->
              /\ th' = [th EXCEPT ![t] = Idle]
              /\ wrong' = IF wrong = "" /\ ~Same(abs, s.a, s.x) THEN "find" ELSE wrong
              /\ UNCHANGED <<par, abs, left>>
         [] s.op # "find" /\ ~s.second ->
              Set(t, [s EXCEPT !.pc = "read", !.a = s.x, !.x = s.b, !.second = TRUE])
         [] OTHER ->
              IF s.a = s.x THEN Answer(t, s.op = "same")
              ELSE Set(t, [s EXCEPT !.pc = IF s.op = "same" THEN "root" ELSE "link", !.b = s.x])
Root(t) ==          \* still a root: the two sets were different
    LET s == th[t] IN
    /\ s.pc = "root"
    /\ IF par[s.a] = s.a THEN Answer(t, FALSE)
       ELSE Set(t, [s EXCEPT !.pc = "read", !.x = s.a, !.second = FALSE])
Link(t) ==
    LET s == th[t]
        lo == IF Ordered /\ s.a > s.b THEN s.b ELSE s.a
        hi == IF Ordered /\ s.a > s.b THEN s.a ELSE s.b
    IN
    /\ s.pc = "link"
    /\ IF par[lo] = lo
       THEN LET m == IF abs[lo] < abs[hi] THEN abs[lo] ELSE abs[hi]
                ab == [e \in E |-> IF abs[e] \in {abs[lo], abs[hi]} THEN m ELSE abs[e]]
            IN  /\ par' = [par EXCEPT ![lo] = hi]
                /\ abs' = ab
                /\ th' = [u \in T |-> IF u = t THEN Idle
                                      ELSE IF th[u].op = "idle" THEN th[u]
                                      ELSE [th[u] EXCEPT !.poss = @ \cup {Same(ab, th[u].a, th[u].b)}]]
                /\ wrong' = IF wrong = "" /\ Same(abs, lo, hi) THEN "union-true" ELSE wrong
                /\ UNCHANGED left
       ELSE Set(t, [s EXCEPT !.pc = "read", !.a = lo, !.b = hi, !.x = lo, !.second = FALSE])
Step(t) == Read(t) \/ ReadNext(t) \/ ReadGrand(t) \/ Halve(t) \/ Move(t) \/ Found(t) \/ Root(t) \/ Link(t)
Next == \E t \in T : Invoke(t) \/ Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Step(t))
\* ------------------------------------------------------------- properties
RECURSIVE RootOf(_, _)
RootOf(x, k) == IF par[x] = x THEN x ELSE IF k = 0 THEN -1 ELSE RootOf(par[x], k - 1)
Forest == \A x \in E : RootOf(x, N) # -1
Represents == Forest => \A x, y \in E : (RootOf(x, N) = RootOf(y, N)) <=> Same(abs, x, y)
RightAnswers == wrong = ""
Terminates == \A t \in T : (th[t].op # "idle") ~> (th[t].op = "idle")
=============================================================================
