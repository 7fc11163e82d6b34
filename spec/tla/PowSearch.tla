------------------------------ MODULE PowSearch ------------------------------
(* The parallel search for a proof of work: thread t tries the nonces t, t + N,
   t + 2N, ... and stops once its nonce is not below the best one found. The
   best nonce is kept in an atomic cell, lowered by a compare-and-swap loop of
   separate load and (spuriously failing) exchange steps. Every set of valid
   nonces below a bound that leaves each search finite is explored, with every
   interleaving: the result is the smallest valid nonce. *)
EXTENDS Integers, FiniteSets
CONSTANTS N,        \* threads
          Top       \* nonces considered; some nonce below Top is valid
VARIABLES valid,    \* the set of valid nonces
          best,     \* the atomic cell
          nonce, pc, prev   \* per thread
vars == <<valid, best, nonce, pc, prev>>

Threads == 0 .. N - 1
Inf == 2 * Top
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

Init == /\ valid \in (SUBSET (0 .. Top - 1)) \ {{}}
        /\ best = Inf
        /\ nonce = [t \in Threads |-> t]
        /\ pc = [t \in Threads |-> "try"]
        /\ prev = [t \in Threads |-> 0]

(* evaluate the digest of the nonce *)
Try(t) == /\ pc[t] = "try"
          /\ pc' = [pc EXCEPT ![t] = IF nonce[t] \in valid THEN "load" ELSE "look"]
          /\ UNCHANGED <<valid, best, nonce, prev>>
(* prev = atom.load() *)
Load(t) == /\ pc[t] = "load"
           /\ prev' = [prev EXCEPT ![t] = best]
           /\ pc' = [pc EXCEPT ![t] = "swap"]
           /\ UNCHANGED <<valid, best, nonce>>
(* while prev > value { compare_exchange_weak(prev, value) } *)
Swap(t) == /\ pc[t] = "swap"
           /\ \/ /\ prev[t] <= nonce[t]
                 /\ pc' = [pc EXCEPT ![t] = "look"]
                 /\ UNCHANGED <<best, prev>>
              \/ /\ prev[t] > nonce[t] /\ best = prev[t]
                 /\ best' = nonce[t]
                 /\ pc' = [pc EXCEPT ![t] = "look"]
                 /\ UNCHANGED prev
              \/ /\ prev[t] > nonce[t]          \* lost a race, or a spurious failure
                 /\ prev' = [prev EXCEPT ![t] = best]
                 /\ UNCHANGED <<best, pc>>
           /\ UNCHANGED <<valid, nonce>>
(* if nonce >= best.load() { break } *)
Look(t) == /\ pc[t] = "look"
           /\ IF nonce[t] >= best
              THEN pc' = [pc EXCEPT ![t] = "done"] /\ UNCHANGED nonce
              ELSE pc' = [pc EXCEPT ![t] = "try"] /\ nonce' = [nonce EXCEPT ![t] = @ + N]
           /\ nonce'[t] <= Top + N
           /\ UNCHANGED <<valid, best, prev>>

Next == \E t \in Threads : Try(t) \/ Load(t) \/ Swap(t) \/ Look(t)
Spec == Init /\ [][Next]_vars

Done == \A t \in Threads : pc[t] = "done"
Minimal == Done => best = Min(valid)
Sane == best = Inf \/ best \in valid
(* nobody has passed the smallest valid nonce without recording it *)
Progress == \A t \in Threads : pc[t] = "done" => best <= nonce[t]
==============================================================================
