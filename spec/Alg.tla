-------------------------------- MODULE Alg --------------------------------
(* Jets: the algebra Q[t]/t^3 (x) Q[e]/e^2.  A jet is the tuple of its          *)
(* coefficients of 1, t, t^2, e, e*t, e*t^2.  With t as time, a jet is a value  *)
(* together with its first two derivatives along a motion; with e as the        *)
(* perturbation of one coordinate or parameter, also its partial derivative by  *)
(* that coordinate, as a function of time.  So "derivative of" in this          *)
(* specification is exact algebra and shares nothing with casadi.               *)
(* Evaluated by java/Alg.java; MCAlg.tla checks it against these definitions.   *)
EXTENDS Rat, Sequences
LOCAL A2(a, b) == RAdd(a, b)
LOCAL A3(a, b, c) == RAdd(RAdd(a, b), c)

PJMul(x, y) ==
  LET m(i, j) == RMul(x[i], y[j]) IN
  << m(1,1),
     A2(m(1,2), m(2,1)),
     A3(m(1,3), m(2,2), m(3,1)),
     A2(m(1,4), m(4,1)),
     A2(A2(m(1,5), m(5,1)), A2(m(2,4), m(4,2))),
     A3(A2(m(1,6), m(6,1)), A2(m(2,5), m(5,2)), A2(m(3,4), m(4,3))) >>
PJMap2(Op(_,_), x, y) == << Op(x[1],y[1]), Op(x[2],y[2]), Op(x[3],y[3]), Op(x[4],y[4]), Op(x[5],y[5]), Op(x[6],y[6]) >>

JMk(c)      == c
JC(r)       == << r, RI(0), RI(0), RI(0), RI(0), RI(0) >>
JCoef(a, k) == a[k]
JAdd(a, b)  == PJMap2(RAdd, a, b)
JSub(a, b)  == PJMap2(RSub, a, b)
JNeg(a)     == << RNeg(a[1]), RNeg(a[2]), RNeg(a[3]), RNeg(a[4]), RNeg(a[5]), RNeg(a[6]) >>
JMul(a, b)  == PJMul(a, b)
JScale(q, a) == PJMul(JC(q), a)
JEps(a)     == << a[4], a[5], a[6], RI(0), RI(0), RI(0) >>
(* sums of sequences, so that sums over joints and links need no recursion      *)
RECURSIVE PJSum(_)
PJSum(s)    == IF s = <<>> THEN JC(RI(0)) ELSE JAdd(Head(s), PJSum(Tail(s)))
JSum(s)     == PJSum(s)
RECURSIVE PRSum(_)
PRSum(s)    == IF s = <<>> THEN RI(0) ELSE RAdd(Head(s), PRSum(Tail(s)))
RSum(s)     == PRSum(s)
=============================================================================
