------------------------------- MODULE Threads -------------------------------
(* Threads that use objects of a generated class.  A call of get_<f>() computes  *)
(* from the thread's own object into a result buffer and then copies the buffer  *)
(* out; a setter changes the thread's own object.  A schedule gives the order    *)
(* of these turns.  SHARED = TRUE is the faulty design in which all threads use  *)
(* one buffer; TLC must then find a schedule with a wrong result.                *)
EXTENDS Sched
CONSTANTS N, K, SHARED
VARIABLES arg, buf, pc, out, sched
vars == <<arg, buf, pc, out, sched>>
T == 1..N
B(t) == IF SHARED THEN 0 ELSE t
\* the result of an evaluation of object t with argument value a
Val(t, a) == <<t, a>>
Init == /\ arg = [t \in T |-> 0] /\ buf = [b \in 0..N |-> <<0, 0>>] /\ pc = [t \in T |-> "compute"]
        /\ out = [t \in T |-> <<>>] /\ sched = <<>>
More(t) == Len(out[t]) < K
Compute(t) == /\ pc[t] = "compute" /\ More(t)
              /\ buf' = [buf EXCEPT ![B(t)] = Val(t, arg[t])]
              /\ pc' = [pc EXCEPT ![t] = "read"] /\ sched' = Append(sched, t) /\ UNCHANGED <<arg, out>>
\* copy out, then set the next argument
Read(t) == /\ pc[t] = "read"
           /\ out' = [out EXCEPT ![t] = Append(@, buf[B(t)])]
           /\ arg' = [arg EXCEPT ![t] = @ + 1]
           /\ pc' = [pc EXCEPT ![t] = "compute"] /\ sched' = Append(sched, t) /\ UNCHANGED buf
Next == \E t \in T : Compute(t) \/ Read(t)
Spec == Init /\ [][Next]_vars
\* every object returns what it would return if it were the only one
Alone == \A t \in T : \A i \in 1..Len(out[t]) : out[t][i] = Val(t, i - 1)
AllSchedules == Interleavings(N, 2 * K)
\* the schedules that are replayed on the code are those of the model
Complete == (\A t \in T : ~ More(t)) => sched \in AllSchedules
=============================================================================
