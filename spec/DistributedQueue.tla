-------------------------- MODULE DistributedQueue --------------------------
(* Branch and reduce on several processes (ranks): a rank without problems     *)
(* asks one other rank; a rank that works hands a subproblem to whoever asked  *)
(* it; a rank that is empty itself says so; the last rank collects "done"      *)
(* flags and ends the search; a rank that has ended answers every question     *)
(* with "the search has ended".  Messages of one pair of ranks stay in order,  *)
(* those of different senders do not.                                          *)
(*                                                                             *)
(* Unsolicited = TRUE: the last rank also sends that answer unasked to rank 0  *)
(* Stale = TRUE:       a thread may ask on a look at the queues that is old    *)
(* PromiseFirst = TRUE: the problem is promised before it is taken             *)
(*   (the three are the code before the repairs)                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ranks, Threads, MaxProblems, Unsolicited, Stale, PromiseFirst
VARIABLES q,        \* q[r]: problems queued at r
          w,        \* w[r]: problems the threads of r work on
          made,
          a,        \* a[r]: the asking side of r: no, wait, recv, after, end
          src,      \* src[r]: whom r asked
          dec,      \* dec[r]: a thread of r has seen the queues empty
          hand,     \* hand[r]: <<>>, <<p>> taken and not yet worked on, <<0, s>>: owed to s, or
                    \* <<0, 0, 0>>: about to be taken to be sent
          ch,       \* ch[s][d]: messages from s to d
          pr,       \* pr[s][d]: problems on their way
          flag, sent, seen, \* done flags: on their way, sent last, read
          bad
vars == <<q, w, made, a, src, dec, hand, ch, pr, flag, sent, seen, bad>>
R == 0 .. Ranks - 1
L == Ranks - 1
Empty(r) == q[r] = {} /\ w[r] = {} /\ hand[r] = << >>
Put(c, s, d, m) == [c EXCEPT ![s][d] = Append(@, m)]
Get(c, s, d) == [c EXCEPT ![s][d] = Tail(@)]
Ended(r) == a[r] = "end"

Init == /\ q = [r \in R |-> IF r = 0 THEN {1} ELSE {}] /\ w = [r \in R |-> {}] /\ made = 1
        /\ a = [r \in R |-> "no"] /\ src = [r \in R |-> r] /\ dec = [r \in R |-> FALSE]
        /\ hand = [r \in R |-> << >>]
        /\ ch = [s \in R |-> [d \in R |-> << >>]] /\ pr = [s \in R |-> [d \in R |-> << >>]]
        /\ flag = [r \in R |-> << >>] /\ sent = [r \in R |-> FALSE] /\ seen = [r \in R |-> FALSE]
        /\ bad = ""

\* ---- threads that work
Take(r) == /\ ~Ended(r) /\ Cardinality(w[r]) + (IF hand[r] = << >> THEN 0 ELSE 1) < Threads
           /\ \E p \in q[r] : q' = [q EXCEPT ![r] = @ \ {p}] /\ w' = [w EXCEPT ![r] = @ \cup {p}]
           /\ UNCHANGED <<made, a, src, dec, hand, ch, pr, flag, sent, seen, bad>>
Branch(r) == /\ w[r] # {} /\ made < MaxProblems
             /\ made' = made + 1 /\ q' = [q EXCEPT ![r] = @ \cup {made + 1}]
             /\ UNCHANGED <<w, a, src, dec, hand, ch, pr, flag, sent, seen, bad>>
Solve(r) == /\ \E p \in w[r] : w' = [w EXCEPT ![r] = @ \ {p}]
            /\ UNCHANGED <<q, made, a, src, dec, hand, ch, pr, flag, sent, seen, bad>>
\* a question is answered with a problem; the content of the message is not looked at
Asked(r) == {s \in R : ch[s][r] # << >>}
\* the thread that sends has seen a second problem, and then takes what is left
Looked == <<0, 0, 0>>
Look(r) == /\ ~PromiseFirst /\ ~Ended(r) /\ hand[r] = << >> /\ Cardinality(w[r]) < Threads
           /\ Cardinality(q[r]) > 1 /\ Asked(r) # {}
           /\ hand' = [hand EXCEPT ![r] = Looked]
           /\ UNCHANGED <<q, w, made, a, src, dec, ch, pr, flag, sent, seen, bad>>
Pick(r) == \/ /\ PromiseFirst /\ ~Ended(r) /\ hand[r] = << >> /\ Cardinality(w[r]) < Threads /\ Cardinality(q[r]) > 1
              /\ \E s \in Asked(r) :
                    /\ ch' = Put(Get(ch, s, r), r, s, "have") /\ hand' = [hand EXCEPT ![r] = <<0, s>>]
              /\ UNCHANGED <<q, w, made, a, src, dec, pr, flag, sent, seen, bad>>
           \/ /\ hand[r] = Looked
              /\ \/ q[r] = {} /\ hand' = [hand EXCEPT ![r] = << >>] /\ UNCHANGED q
                 \/ \E p \in q[r] : hand' = [hand EXCEPT ![r] = <<p>>] /\ q' = [q EXCEPT ![r] = @ \ {p}]
              /\ UNCHANGED <<w, made, a, src, dec, ch, pr, flag, sent, seen, bad>>
Owed(r) == /\ Len(hand[r]) = 2
           /\ hand' = [hand EXCEPT ![r] = << >>]
           /\ \/ q[r] = {} /\ UNCHANGED <<q, pr>>
              \/ \E p \in q[r] : q' = [q EXCEPT ![r] = @ \ {p}] /\ pr' = Put(pr, r, hand[r][2], p)
           /\ UNCHANGED <<w, made, a, src, dec, ch, flag, sent, seen, bad>>
InHand(r) == /\ Len(hand[r]) = 1
             /\ hand' = [hand EXCEPT ![r] = << >>]
             /\ \/ \E s \in Asked(r) : /\ ch' = Put(Get(ch, s, r), r, s, "have")
                                       /\ pr' = Put(pr, r, s, hand[r][1]) /\ UNCHANGED w
                \/ Asked(r) = {} /\ w' = [w EXCEPT ![r] = @ \cup {hand[r][1]}] /\ UNCHANGED <<ch, pr>>
             /\ UNCHANGED <<q, made, a, src, dec, flag, sent, seen, bad>>

\* ---- the thread that asks
Decide(r) == /\ Stale /\ a[r] \in {"no"} /\ ~dec[r] /\ Empty(r)
             /\ dec' = [dec EXCEPT ![r] = TRUE]
             /\ UNCHANGED <<q, w, made, a, src, hand, ch, pr, flag, sent, seen, bad>>
Ask(r, s) == /\ a[r] = "no" /\ s # r
             /\ Empty(r) \/ dec[r]
             /\ dec' = [dec EXCEPT ![r] = FALSE]
             /\ a' = [a EXCEPT ![r] = "wait"] /\ src' = [src EXCEPT ![r] = s]
             /\ ch' = Put(ch, r, s, "need")
             /\ UNCHANGED <<q, w, made, hand, pr, flag, sent, seen, bad>>
Hear(r, s) ==
    /\ a[r] = "wait" /\ ch[s][r] # << >>
    /\ LET m == Head(ch[s][r])  c == Get(ch, s, r) IN
       /\ ch' = IF m = "need" THEN Put(c, r, s, "none") ELSE c
       /\ a' = [a EXCEPT ![r] = CASE m = "ended" -> "end" [] m = "none" -> "after"
                                  [] m = "have" /\ s = src[r] -> "recv" [] OTHER -> @]
       /\ bad' = IF m = "none" /\ s # src[r] THEN "wrong-sender"
                 ELSE IF m = "have" /\ s # src[r] THEN "problem-not-asked-for" ELSE bad
    /\ UNCHANGED <<q, w, made, src, dec, hand, pr, flag, sent, seen>>
Receive(r) == /\ a[r] = "recv" /\ pr[src[r]][r] # << >>
              /\ q' = [q EXCEPT ![r] = @ \cup {Head(pr[src[r]][r])}]
              /\ pr' = Get(pr, src[r], r)
              /\ a' = [a EXCEPT ![r] = "no"]
              /\ IF sent[r] THEN flag' = [flag EXCEPT ![r] = Append(@, FALSE)] /\ sent' = [sent EXCEPT ![r] = FALSE]
                            ELSE UNCHANGED <<flag, sent>>
              /\ \E d \in IF Stale THEN BOOLEAN ELSE {FALSE} : dec' = [dec EXCEPT ![r] = d]
              /\ UNCHANGED <<w, made, src, hand, ch, seen, bad>>
\* k: how many of the flags on their way have arrived
After(r, K) ==
    /\ a[r] = "after"
    /\ IF r = L
       THEN /\ \E k \in K :
                 /\ flag' = [x \in R |-> SubSeq(flag[x], k[x] + 1, Len(flag[x]))]
                 /\ seen' = [x \in R |-> IF k[x] = 0 THEN seen[x] ELSE flag[x][k[x]]]
            /\ IF \A x \in R \ {L} : seen'[x]
               THEN /\ a' = [a EXCEPT ![r] = "end"]
                    /\ ch' = IF Unsolicited THEN Put(ch, L, 0, "ended") ELSE ch
               ELSE a' = [a EXCEPT ![r] = "no"] /\ UNCHANGED ch
            /\ UNCHANGED sent
       ELSE /\ IF sent[r] THEN UNCHANGED <<flag, sent>>
               ELSE flag' = [flag EXCEPT ![r] = Append(@, TRUE)] /\ sent' = [sent EXCEPT ![r] = TRUE]
            /\ a' = [a EXCEPT ![r] = "no"] /\ UNCHANGED <<seen, ch>>
    /\ UNCHANGED <<q, w, made, src, dec, hand, pr, bad>>
Bye(r, s) == /\ a[r] = "end" /\ ch[s][r] # << >>
             /\ bad' = IF Head(ch[s][r]) = "have" THEN "problem-sent-to-an-ended-rank" ELSE bad
             /\ ch' = Put(Get(ch, s, r), r, s, "ended")
             /\ UNCHANGED <<q, w, made, a, src, dec, hand, pr, flag, sent, seen>>
Some == {k \in [R -> 0 .. 3] : \A x \in R : k[x] <= Len(flag[x])}
All == {[x \in R |-> Len(flag[x])]}
AllEnded == \A r \in R : Ended(r)
Over == AllEnded /\ UNCHANGED vars

Next == \/ \E r \in R : \/ Take(r) \/ Branch(r) \/ Solve(r) \/ Look(r) \/ Pick(r) \/ Owed(r) \/ InHand(r)
                        \/ Decide(r) \/ Receive(r) \/ After(r, Some)
                        \/ \E s \in R : Ask(r, s) \/ Hear(r, s) \/ (~AllEnded /\ Bye(r, s))
        \/ Over
Fair == \A r \in R : /\ WF_vars(Take(r)) /\ WF_vars(Solve(r)) /\ WF_vars(Pick(r)) /\ WF_vars(Owed(r)) /\ WF_vars(InHand(r))
                     /\ WF_vars(Receive(r)) /\ (IF r = L THEN SF_vars(After(r, All)) ELSE WF_vars(After(r, All)))
                     /\ \A s \in R : SF_vars(Ask(r, s)) /\ WF_vars(Hear(r, s)) /\ WF_vars(Bye(r, s))
Spec == Init /\ [][Next]_vars /\ Fair

\* a rank ends only without problems, and none is on its way to it
NothingLost == \A r \in R : Ended(r) => Empty(r) /\ \A s \in R : pr[s][r] = << >>
Orderly == bad = ""
OnceEach == \A p \in 1 .. MaxProblems :
    Cardinality({r \in R : p \in q[r] \cup w[r] \cup (IF Len(hand[r]) = 1 THEN {hand[r][1]} ELSE {})})
    + Cardinality({x \in R \X R : \E k \in 1 .. Len(pr[x[1]][x[2]]) : pr[x[1]][x[2]][k] = p}) <= 1
Terminates == <>AllEnded
=============================================================================
