---------------------------- MODULE BranchQueue ----------------------------
(* The parallel driver of branch and reduce: worker threads, each with a queue *)
(* of subproblems, one subproblem set aside (the "send" slot), the count of    *)
(* idle threads, and the decision that the search has ended.                   *)
(* All reads and writes that are separate in the code are separate steps here. *)
(*                                                                             *)
(* Counter = TRUE:  the end is decided by one read of the number of problems   *)
(*                  that are neither solved nor discarded                       *)
(* Counter = FALSE: by "all threads idle", then by the queue sizes one by one  *)
(*                  (the code before the repair; loses subproblems)             *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Threads, MaxProblems, Counter, EarlyDone
VARIABLES q, send, work, pc, idle, fin, unf, made, seen
vars == <<q, send, work, pc, idle, fin, unf, made, seen>>
T == 1 .. Threads
None == 0

Init == /\ q = [t \in T |-> {}] /\ send = 1 /\ unf = 1 /\ made = 1     \* the root
        /\ work = [t \in T |-> None] /\ pc = [t \in T |-> "poll"]
        /\ idle = 0 /\ fin = FALSE /\ seen = [t \in T |-> 0]

Go(t, l) == pc' = [pc EXCEPT ![t] = l]

Poll(t) == /\ pc[t] = "poll"
           /\ Go(t, IF fin THEN "end" ELSE "prep")
           /\ UNCHANGED <<q, send, work, idle, fin, unf, made, seen>>
\* problems that cannot improve the bound are discarded
Drop(t) == /\ pc[t] = "prep"
           /\ \E p \in q[t] : q' = [q EXCEPT ![t] = @ \ {p}]
           /\ unf' = unf - 1
           /\ UNCHANGED <<send, work, pc, idle, fin, made, seen>>
Prep(t) == /\ pc[t] = "prep"
           /\ Go(t, IF q[t] # {} \/ send # None THEN "pull" ELSE "inc")
           /\ UNCHANGED <<q, send, work, idle, fin, unf, made, seen>>
\* one critical section: the queue of the thread and the send slot
Pull(t) == /\ pc[t] = "pull"
           /\ \/ /\ q[t] # {}
                 /\ \E p \in q[t] : work' = [work EXCEPT ![t] = p] /\ q' = [q EXCEPT ![t] = @ \ {p}]
                 /\ Go(t, "solve") /\ UNCHANGED send
              \/ /\ q[t] = {} /\ send # None
                 /\ work' = [work EXCEPT ![t] = send] /\ send' = None
                 /\ Go(t, "solve") /\ UNCHANGED q
              \/ /\ q[t] = {} /\ send = None
                 /\ Go(t, "poll") /\ UNCHANGED <<q, send, work>>
           /\ UNCHANGED <<idle, fin, unf, made, seen>>
\* a subproblem: counted first, queued afterwards
Count(t) == /\ pc[t] = "solve" /\ ~EarlyDone /\ made < MaxProblems
            /\ made' = made + 1 /\ unf' = unf + 1
            /\ seen' = [seen EXCEPT ![t] = made + 1]
            /\ Go(t, "add")
            /\ UNCHANGED <<q, send, work, idle, fin>>
Add(t) == /\ pc[t] = "add"
          /\ \/ /\ send = None /\ send' = seen[t] /\ UNCHANGED q
             \/ /\ send # None
                /\ \E d \in T : \/ q' = [q EXCEPT ![d] = @ \cup {seen[t]}] /\ UNCHANGED send
                                \/ q' = [q EXCEPT ![d] = @ \cup {send}] /\ send' = seen[t]
          /\ Go(t, IF EarlyDone THEN "early" ELSE "solve")
          /\ UNCHANGED <<work, idle, fin, unf, made, seen>>
Done(t) == /\ pc[t] = (IF EarlyDone THEN "rest" ELSE "solve")
           /\ work' = [work EXCEPT ![t] = None]
           /\ unf' = IF EarlyDone THEN unf ELSE unf - 1
           /\ Go(t, "poll")
           /\ UNCHANGED <<q, send, idle, fin, made, seen>>
\* (a wrong variant: the problem counts as solved before its subproblems exist)
TooEarly(t) == /\ EarlyDone /\ pc[t] = "solve" /\ unf' = unf - 1 /\ Go(t, "early")
               /\ UNCHANGED <<q, send, work, idle, fin, made, seen>>
EarlyAdd(t) == /\ pc[t] = "early"
               /\ \/ /\ made < MaxProblems
                     /\ made' = made + 1 /\ unf' = unf + 1 /\ seen' = [seen EXCEPT ![t] = made + 1] /\ Go(t, "add")
                  \/ Go(t, "rest") /\ UNCHANGED <<made, unf, seen>>
               /\ UNCHANGED <<q, send, work, idle, fin>>

Inc(t) == /\ pc[t] = "inc" /\ idle' = idle + 1
          /\ Go(t, "idle?") /\ UNCHANGED <<q, send, work, fin, unf, made, seen>>
AllIdle(t) == /\ pc[t] = "idle?"
              /\ Go(t, IF idle = Threads THEN "empty?" ELSE "wait")
              /\ seen' = [seen EXCEPT ![t] = 0]
              /\ UNCHANGED <<q, send, work, idle, fin, unf, made>>
AllEmpty(t) ==
    /\ pc[t] = "empty?"
    /\ IF Counter
       THEN Go(t, IF unf = 0 THEN "finish" ELSE "wait") /\ UNCHANGED seen
       ELSE IF seen[t] < Threads
            THEN /\ seen' = [seen EXCEPT ![t] = @ + 1]
                 /\ Go(t, IF q[seen[t] + 1] = {} THEN "empty?" ELSE "wait")
            ELSE Go(t, IF send = None THEN "finish" ELSE "wait") /\ UNCHANGED seen
    /\ UNCHANGED <<q, send, work, idle, fin, unf, made>>
Finish(t) == /\ pc[t] = "finish" /\ fin' = TRUE /\ Go(t, "end")
             /\ UNCHANGED <<q, send, work, idle, unf, made, seen>>
\* woken up, or the wait times out (it is long: the others wait or work by then)
Wake(t) == /\ pc[t] = "wait" /\ Go(t, "dec")
           /\ \/ q[t] # {} \/ fin \/ idle = Threads
              \/ \A o \in T \ {t} : pc[o] \in {"wait", "solve", "add", "early", "rest", "end"}
           /\ UNCHANGED <<q, send, work, idle, fin, unf, made, seen>>
Dec(t) == /\ pc[t] = "dec" /\ idle' = idle - 1 /\ Go(t, "poll")
          /\ UNCHANGED <<q, send, work, fin, unf, made, seen>>

Step(t) == Poll(t) \/ Drop(t) \/ Prep(t) \/ Pull(t) \/ Count(t) \/ Add(t) \/ Done(t) \/ TooEarly(t) \/ EarlyAdd(t)
           \/ Inc(t) \/ AllIdle(t) \/ AllEmpty(t) \/ Finish(t) \/ Wake(t) \/ Dec(t)
AllEnded == \A t \in T : pc[t] = "end"
Next == (\E t \in T : Step(t)) \/ (AllEnded /\ UNCHANGED vars)
\* waiting threads look again and again; no scheduler keeps them apart for ever
Spec == /\ Init /\ [][Next]_vars
        /\ \A t \in T : WF_vars(Step(t)) /\ SF_vars(AllIdle(t) /\ idle = Threads)

TypeOK == idle \in 0 .. Threads /\ unf \in 0 .. MaxProblems /\ made \in 1 .. MaxProblems
Held == UNION {q[t] : t \in T} \cup (IF send = None THEN {} ELSE {send})
Working == {work[t] : t \in T} \ {None}
\* every problem is in one place
OnePlace == /\ \A a, b \in T : a # b => q[a] \cap q[b] = {} /\ (work[a] = None \/ work[a] # work[b])
            /\ \A t \in T : send \notin q[t]
            /\ Held \cap Working = {}
\* the end is declared only when nothing is left and nobody can add anything
NothingLost == fin => Held = {} /\ Working = {}
Counted == (~EarlyDone) => unf = Cardinality(Held) + Cardinality(Working) + Cardinality({t \in T : pc[t] = "add"})
\* once ended, the idle count and the counter stay consistent, and everybody leaves
Terminates == <>[](AllEnded /\ fin)
EndStays == [][fin => fin']_vars
Symm == Permutations(T)
============================================================================
