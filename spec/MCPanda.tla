------------------------------ MODULE MCPanda -------------------------------
(* The Denavit-Hartenberg table and the URDF of the arm describe the same motion: *)
(* for the joint angles of a grid, DH frame i is where XDh places it in link i.   *)
EXTENDS Panda, TLC
CONSTANT Angles
VARIABLES q
Init == q = <<>>
Next == Len(q) < NArm /\ \E t \in Angles : q' = Append(q, t)
Spec == Init /\ [][Next]_q
EqT_(A, B) == \A r \in 1..3 : (\A s \in 1..3 : REq(JCoef(A.R[r][s], 1), JCoef(B.R[r][s], 1))) /\ REq(JCoef(A.p[r], 1), JCoef(B.p[r], 1))
RECURSIVE UF(_), DF(_)
UF(i) == IF i = 0 THEN Tf(Ident3, Zero3) ELSE TMul(UF(i - 1), UrdfStep(i, q[i]))
DF(i) == IF i = 0 THEN Tf(Ident3, Zero3) ELSE TMul(DF(i - 1), DHStep(i, q[i]))
SameArm == LET n == Len(q) IN n = 0 \/ EqT_(TMul(UF(n), XDh(n)), DF(n))
\* kinetic energy does not depend on the frame: a body moved there and back is the same
There(i, b) == LET V == Inv(XDh(i)) IN RatRow(Moved(V.R, V.p, b))
=============================================================================
