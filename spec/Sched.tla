-------------------------------- MODULE Sched --------------------------------
(* Interleavings of n threads that take m turns each.                            *)
EXTENDS Naturals, Sequences, FiniteSets
RECURSIVE Inter(_)
\* left[t]: turns that thread t still has to take
Inter(left) ==
  IF \A t \in DOMAIN left : left[t] = 0 THEN {<<>>}
  ELSE UNION {{<<t>> \o s : s \in Inter([left EXCEPT ![t] = @ - 1])} : t \in {u \in DOMAIN left : left[u] > 0}}
Interleavings(n, m) == Inter([t \in 1..n |-> m])
=============================================================================
