----------------------------- MODULE ScenPanda ------------------------------
(* Scenarios for genYAML: bodies, layouts of the input file, repeated runs in     *)
(* one directory with other bodies in between.                                    *)
EXTENDS ScenState

PFiles == <<"inertial_DH.yaml", "inertial_DH_DYN.yaml", "inertial_DH_REG.yaml">>
PLink(nm, key) == LET k == Upto(key \o <<60>>, NBody) IN [n |-> nm, v |-> BodyVal(IF k \in Massless THEN k + 7 ELSE k, key) \o RandAng3(key \o <<50>>)]
PLinks(key, extra) == SeqOf(8 + extra, LAMBDA i : PLink(IF i <= 8 THEN "link" \o ToString(i - 1) ELSE <<"hand", "leftfinger", "rightfinger">>[i - 8], key \o <<i>>))
PFmt(key) == [order |-> Upto(key \o <<1>>, 3), sp |-> Upto(key \o <<2>>, 3), com |-> Upto(key \o <<3>>, 2)]
PRun(key, reps) == [op |-> "panda", links |-> PLinks(key, Upto(key \o <<5>>, 4)), fmt |-> PFmt(key), reps |-> reps, shipped |-> 0]
PReads(reps) == SeqOf(3, LAMBDA f : [op |-> "pread", file |-> PFiles[f], kind |-> IF f = 3 THEN "reg" ELSE "dyn", rep |-> 1 + (f % reps)])
PPerts(reps) == LET P == <<2, 5, 10, 20>> IN SeqOf(4, LAMBDA i : [op |-> "ppert", p |-> P[i], reps |-> reps])
Plan_C20(plan_) ==
  <<Sc("C20_ship", <<>>, <<[PRun(<<Seed, 20, 0>>, 60) EXCEPT !.shipped = 1]>> \o PReads(60) \o PPerts(60))>>
  \o SeqOf(T(16, 120), LAMBDA i : LET k(j) == <<Seed, 20, i, j>> IN
       Sc(Id("C20_p", i), <<>>, <<PRun(k(1), 12)>> \o PReads(12) \o PPerts(12) \o <<PRun(k(2), 1)>> \o PReads(1) \o <<PRun(k(3), 2)>> \o PReads(2)))
=============================================================================
