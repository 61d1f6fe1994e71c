----------------------------- MODULE Regressor ------------------------------
(* The dynamics of a robot whose only non-zero REG parameter is entry a         *)
(* (1: mass, 2..4: m*CoM, 5..10: inertia about the link frame origin) of link l.*)
(* Kinetic energy of a link in terms of the velocity v of its frame origin and  *)
(* its angular velocity w, both in link axes:                                   *)
(*    T = 1/2 m v.v + v.(w x mc) + 1/2 w.I w                                    *)
EXTENDS Dynamics

\* link-axes velocity columns of frame l
LinkV(ec, F) == TLCEval([l \in 1..ec.nj |-> TLCEval([k \in 1..ec.nj |->
                   IF k > l THEN Zero3 ELSE TrMulV(Fr(F, l).R, ColV(ec, F, l, Fr(F, l).p, k))])])
LinkW(ec, F) == TLCEval([l \in 1..ec.nj |-> TLCEval([k \in 1..ec.nj |->
                   IF k > l THEN Zero3 ELSE TrMulV(Fr(F, l).R, ColW(ec, F, l, k))])])
P6 == << <<1,1>>, <<1,2>>, <<1,3>>, <<2,2>>, <<2,3>>, <<3,3>> >>
\* (w x e_a)_b for a, b in 1..3
CrossE(w, a) == IF a = 1 THEN <<JZ, w[3], JNeg(w[2])>> ELSE IF a = 2 THEN <<JNeg(w[3]), JZ, w[1]>> ELSE <<w[2], JNeg(w[1]), JZ>>
\* entry (i,j) of the mass matrix of the unit parameter a of link l
UnitM(v, w, l, a, i, j) ==
  IF i > l \/ j > l THEN JZ
  ELSE IF a = 1 THEN Dot(v[l][i], v[l][j])
  ELSE IF a <= 4 THEN JAdd(Dot(v[l][i], CrossE(w[l][j], a - 1)), Dot(v[l][j], CrossE(w[l][i], a - 1)))
  ELSE LET r == P6[a - 4][1]
           s == P6[a - 4][2]
       IN  IF r = s THEN JMul(w[l][i][r], w[l][j][r])
           ELSE JAdd(JMul(w[l][i][r], w[l][j][s]), JMul(w[l][i][s], w[l][j][r]))
UnitMat(ec, v, w, l, a) ==
  LET U == TLCEval([i \in 1..ec.nj |-> TLCEval([j \in 1..ec.nj |-> IF i <= j THEN UnitM(v, w, l, a, i, j) ELSE JZ])])
  IN  Mat(ec.nj, ec.nj, LAMBDA i, j : IF i <= j THEN U[i][j] ELSE U[j][i])
\* potential energy of the unit parameter a of link l
UnitU(ec, T, a) == IF a = 1 THEN JNeg(Dot(Grav(ec), T.p))
                   ELSE IF a <= 4 THEN JNeg(JSum([r \in 1..3 |-> JMul(Grav(ec)[r], T.R[r][a - 1])]))
                   ELSE JZ

ColL(c) == ((c - 1) \div 10) + 1
ColA(c) == ((c - 1) % 10) + 1
CJ(s) == JC(RD(s))
\* FKs[k]: chain perturbed in q_k; used for all three regressors
RegParts(ec, FKs) ==
  LET n == ec.nj
      vk == TLCEval([k \in 1..n |-> LinkV(ec, FKs[k])])
      wk == TLCEval([k \in 1..n |-> LinkW(ec, FKs[k])])
  IN  TLCEval([c \in 1..(10 * n) |-> TLCEval([k \in 1..n |-> UnitMat(ec, vk[k], wk[k], ColL(c), ColA(c))])])
RegMof(ec, parts, ddqr) ==
  Mat(ec.nj, 10 * ec.nj, LAMBDA i, c : JSum([j \in 1..ec.nj |-> JMul(parts[c][1][i][j], CJ(ddqr[j]))]))
RegCof(ec, parts, dq, dqr) ==
  LET n == ec.nj
      C == TLCEval([c \in 1..(10 * n) |-> ChristoffelOf(n, LAMBDA i, j, k : JEps(parts[c][k][i][j]), [k \in 1..n |-> CJ(dq[k])])])
  IN  Mat(n, 10 * n, LAMBDA i, c : JSum([j \in 1..n |-> JMul(C[c][i][j], CJ(dqr[j]))]))
RegGof(ec, FKs) ==
  Mat(ec.nj, 10 * ec.nj, LAMBDA i, c : JEps(UnitU(ec, Fr(FKs[i], ColL(c)), ColA(c))))
AddM(A, B) == Mat(Len(A), Len(A[1]), LAMBDA i, j : JAdd(A[i][j], B[i][j]))
=============================================================================
