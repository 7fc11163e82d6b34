------------------------------ MODULE AllocRace ------------------------------
(* C27, design level: allocator calls as sequences of atomic operations on    *)
(* shared counters, every interleaving. At rest the statistics are those of   *)
(* the history, and the peak is the largest value the live counter had.       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Sizes, MaxCalls
VARIABLES pc, held, n, allocated, total, num, peak, largest, granted, calls, biggest, top
vars == <<pc, held, n, allocated, total, num, peak, largest, granted, calls, biggest, top>>
stat == <<allocated, total, num, peak, largest>>
hist == <<granted, calls, biggest, top>>
Max(a, b) == IF a > b THEN a ELSE b
Idle == [at |-> "idle", size |-> 0, seen |-> 0, want |-> 0]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE SumAll(_)
SumAll(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN Sum(held[t]) + SumAll(S \ {t})

Init == /\ pc = [t \in Threads |-> Idle] /\ held = [t \in Threads |-> <<>>] /\ n = [t \in Threads |-> 0]
        /\ allocated = 0 /\ total = 0 /\ num = 0 /\ peak = 0 /\ largest = 0
        /\ granted = 0 /\ calls = 0 /\ biggest = 0 /\ top = 0
Go(t, at) == pc' = [pc EXCEPT ![t].at = at]
Begin(t) == /\ pc[t].at = "idle" /\ n[t] < MaxCalls
            /\ \E s \in Sizes : pc' = [pc EXCEPT ![t] = [at |-> "alloc", size |-> s, seen |-> 0, want |-> 0]]
            /\ n' = [n EXCEPT ![t] = @ + 1] /\ UNCHANGED <<held, stat, hist>>
Alloc(t) == /\ pc[t].at = "alloc" /\ allocated' = allocated + pc[t].size
            /\ top' = Max(top, allocated + pc[t].size)
            /\ granted' = granted + pc[t].size /\ calls' = calls + 1 /\ biggest' = Max(biggest, pc[t].size)
            /\ pc' = [pc EXCEPT ![t].at = "total", ![t].want = allocated + pc[t].size]
            /\ UNCHANGED <<held, n, total, num, peak, largest>>
Total(t) == /\ pc[t].at = "total" /\ total' = total + pc[t].size /\ Go(t, "num")
            /\ UNCHANGED <<held, n, allocated, num, peak, largest, hist>>
Num(t) == /\ pc[t].at = "num" /\ num' = num + 1 /\ Go(t, "peak0")
          /\ UNCHANGED <<held, n, allocated, total, peak, largest, hist>>
Peak0(t) == /\ pc[t].at = "peak0"
            /\ pc' = [pc EXCEPT ![t].at = IF peak < pc[t].want THEN "peak1" ELSE "big0", ![t].seen = peak]
            /\ UNCHANGED <<held, n, stat, hist>>
Peak1(t) == /\ pc[t].at = "peak1"
            /\ peak' = IF peak = pc[t].seen THEN pc[t].want ELSE peak
            /\ pc' = [pc EXCEPT ![t].at = IF peak = pc[t].seen \/ peak >= pc[t].want THEN "big0" ELSE "peak1", ![t].seen = peak]
            /\ UNCHANGED <<held, n, allocated, total, num, largest, hist>>
Big0(t) == /\ pc[t].at = "big0"
           /\ pc' = [pc EXCEPT ![t].at = IF largest < pc[t].size THEN "big1" ELSE "done", ![t].seen = largest]
           /\ UNCHANGED <<held, n, stat, hist>>
Big1(t) == /\ pc[t].at = "big1"
           /\ largest' = IF largest = pc[t].seen THEN pc[t].size ELSE largest
           /\ pc' = [pc EXCEPT ![t].at = IF largest = pc[t].seen \/ largest >= pc[t].size THEN "done" ELSE "big1", ![t].seen = largest]
           /\ UNCHANGED <<held, n, allocated, total, num, peak, hist>>
Done(t) == /\ pc[t].at = "done" /\ pc' = [pc EXCEPT ![t] = Idle] /\ held' = [held EXCEPT ![t] = Append(@, pc[t].size)]
           /\ UNCHANGED <<n, stat, hist>>
Release(t) == /\ pc[t].at = "idle" /\ held[t] # <<>> /\ allocated' = allocated - Head(held[t])
              /\ held' = [held EXCEPT ![t] = Tail(@)]
              /\ UNCHANGED <<pc, n, total, num, peak, largest, hist>>
Next == \E t \in Threads : Begin(t) \/ Alloc(t) \/ Total(t) \/ Num(t) \/ Peak0(t) \/ Peak1(t) \/ Big0(t) \/ Big1(t) \/ Done(t) \/ Release(t)
Spec == Init /\ [][Next]_vars

Quiet == \A t \in Threads : pc[t].at = "idle"
Exact == /\ Quiet => /\ allocated = SumAll(Threads) /\ total = granted /\ num = calls
                     /\ largest = biggest /\ peak = top
         /\ peak <= granted /\ largest <= biggest
=============================================================================
