------------------------------- MODULE MCAlg --------------------------------
(* The evaluation of Rat and Alg by the Java classes agrees with the definitions *)
(* (RatPure, PJMul, ...), and the jets have the laws of derivatives.             *)
EXTENDS Alg, TLC
CONSTANTS N, D
VARIABLES a, b, phase
Fr_ == {PNorm(p, q) : p \in -N..N, q \in 1..D}
Init == a \in Fr_ /\ b = <<0, 1>> /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ b' \in Fr_ /\ a' = a
Spec == Init /\ [][Next]_<<a, b, phase>>
Q(x) == RFrac(x[1], x[2])
Same(r, p) == REq(r, Q(p))
RatAgrees ==
  /\ Same(RAdd(Q(a), Q(b)), PAdd(a, b)) /\ Same(RSub(Q(a), Q(b)), PSub(a, b)) /\ Same(RMul(Q(a), Q(b)), PMul(a, b)) /\ Same(RNeg(Q(a)), PNeg(a)) /\ Same(RAbs(Q(a)), PAbs(a))
  /\ (b[1] # 0 => Same(RDiv(Q(a), Q(b)), PDiv(a, b)))
  /\ RLe(Q(a), Q(b)) = PLe(a, b) /\ RLt(Q(a), Q(b)) = (PLe(a, b) /\ a # b) /\ REq(Q(a), Q(b)) = (a = b) /\ RSgn(Q(a)) = PSgn(a)
  /\ Same(RMax(Q(a), Q(b)), IF PLe(b, a) THEN a ELSE b) /\ Same(RI(a[1]), PI(a[1]))
  /\ Same(RD(ToString(a[1]) \o "/" \o ToString(a[2])), a) /\ REq(RD(RFracStr(Q(a))), Q(a)) /\ RIsNum(ToString(a[1])) /\ ~ RIsNum("nan") /\ ~ RIsNum("inf") /\ ~ RIsNum("-inf")
  /\ (a[2] \in {1, 2, 4, 8} => REq(RD(RStr(Q(a))), Q(a)))     \* exact doubles
\* a few jets made from a and b
X == <<Q(a), Q(b), RI(2), Q(b), RI(-1), Q(a)>>
Y == <<Q(b), RI(1), Q(a), RFrac(1, 3), Q(a), RI(3)>>
Z == <<RFrac(-1, 2), Q(a), Q(b), RI(1), RI(0), Q(b)>>
Eq6(j, t) == \A k \in 1..6 : REq(JCoef(j, k), t[k])
JetsAgree ==
  /\ Eq6(JMul(JMk(X), JMk(Y)), PJMul(X, Y)) /\ Eq6(JAdd(JMk(X), JMk(Y)), PJMap2(RAdd, X, Y)) /\ Eq6(JSub(JMk(X), JMk(Y)), PJMap2(RSub, X, Y))
  /\ Eq6(JNeg(JMk(X)), [k \in 1..6 |-> RNeg(X[k])]) /\ Eq6(JC(Q(a)), <<Q(a), RI(0), RI(0), RI(0), RI(0), RI(0)>>)
  /\ Eq6(JScale(Q(a), JMk(Y)), [k \in 1..6 |-> RMul(Q(a), Y[k])]) /\ Eq6(JEps(JMk(X)), <<X[4], X[5], X[6], RI(0), RI(0), RI(0)>>)
  /\ Eq6(JSum(<<JMk(X), JMk(Y), JMk(Z)>>), [k \in 1..6 |-> RAdd(RAdd(X[k], Y[k]), Z[k])]) /\ REq(RSum(<<Q(a), Q(b), RI(1)>>), RAdd(RAdd(Q(a), Q(b)), RI(1)))
  /\ Eq6(JSum(<<>>), [k \in 1..6 |-> RI(0)]) /\ REq(RSum(<<>>), RI(0))
\* commutative, associative, distributive; e is a derivation
EqJ(j, k) == \A m \in 1..6 : REq(JCoef(j, m), JCoef(k, m))
EqT3(j, k) == \A m \in 1..3 : REq(JCoef(j, m), JCoef(k, m))
Laws == LET x == JMk(X) y == JMk(Y) z == JMk(Z) p(j) == JMk(<<JCoef(j, 1), JCoef(j, 2), JCoef(j, 3), RI(0), RI(0), RI(0)>>) IN
  /\ EqJ(JMul(x, y), JMul(y, x)) /\ EqJ(JMul(JMul(x, y), z), JMul(x, JMul(y, z))) /\ EqJ(JMul(x, JAdd(y, z)), JAdd(JMul(x, y), JMul(x, z)))
  /\ EqT3(JEps(JMul(x, y)), JAdd(JMul(JEps(x), p(y)), JMul(p(x), JEps(y))))
=============================================================================
