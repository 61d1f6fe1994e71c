----------------------------- MODULE Actuation ------------------------------
(* Friction, series-elastic coupling, motors.                                   *)
EXTENDS Geom

RECURSIVE RPow(_, _)
RPow(a, k) == IF k = 0 THEN RI(1) ELSE RMul(a, RPow(a, k - 1))
\* the j-th odd monomial (j = 1, 2, ...): v, |v|v, v^3, |v|v^3, ...
Odd(v, j) == IF j % 2 = 1 THEN RPow(v, j) ELSE RMul(RAbs(v), RPow(v, j - 1))
\* the j-th stiffness monomial: v, v^3, v^5, ...
Stiff(v, j) == RPow(v, 2 * j - 1)

IsSEA(ty) == ty \in {"R_SEA", "P_SEA"}
RECURSIVE SeaFrom(_, _)
SeaFrom(types, i) == IF i > Len(types) THEN <<>>
                     ELSE (IF IsSEA(types[i]) THEN <<i>> ELSE <<>>) \o SeaFrom(types, i + 1)
SeaIdx(types) == SeaFrom(types, 1)          \* indices of the elastic joints, in chain order
NumEl(ec) == Len(SeaIdx(ec.types))

\* value of a joint coordinate used in a torque (angle for revolute, length for prismatic)
QVal(ec, env, i) == IF ec.types[i] \in {"R", "R_SEA"} THEN RAng(env.q[i]) ELSE RD(env.q[i])

\* sum over orders of coefficient * monomial, as an n x 1 rational matrix
PolyVec(n, ord, par, Mono(_, _)) ==
  TLCEval([i \in 1..n |-> <<RSum([j \in 1..ord |-> RMul(RD(par[ord * (i - 1) + j]), Mono(i, j))])>>])
DiagMat(n, Ent(_)) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i = j THEN Ent(i) ELSE RI(0)])])
\* indices of the symbolic entries of a mask, in order
RECURSIVE OnesFrom(_, _)
OnesFrom(m, i) == IF i > Len(m) THEN <<>> ELSE (IF m[i] # 0 THEN <<i>> ELSE <<>>) \o OnesFrom(m, i + 1)
Ones(m) == OnesFrom(m, 1)
\* partial derivatives of PolyVec with respect to the symbolic coefficients
PolyReg(n, ord, mask, Mono(_, _)) ==
  LET s == Ones(mask) IN
  TLCEval([i \in 1..n |-> TLCEval([c \in 1..Len(s) |->
      LET l == ((s[c] - 1) \div ord) + 1
          j == ((s[c] - 1) % ord) + 1
      IN  IF l = i THEN Mono(i, j) ELSE RI(0)])])
=============================================================================
