------------------------------ MODULE Dynamics ------------------------------
(* Rigid-body dynamics from energy.  Everything is a jet, so M, its partial     *)
(* derivatives, C, G and all their time derivatives come out together.          *)
EXTENDS Chain

Dyn(ec, l, k) == RD(ec.dyn[10 * (l - 1) + k])          \* entry k of link l: m, cx,cy,cz, xx,xy,xz,yy,yz,zz
Com(ec, l)    == [k \in 1..3 |-> JC(Dyn(ec, l, k + 1))]
ComPos(ec, T, l) == AddV(MulV(T.R, Com(ec, l)), T.p)    \* world position of the centre of mass, T frame of link l

(* Mass matrix: sum over links of m v_c.v_c + w.(R I_c R^T) w                   *)
MassMat(ec, F) ==
  LET L == 1..ec.nj
      vc == TLCEval([l \in L |-> LET T == Fr(F, l)
                                     c == ComPos(ec, T, l)
                                 IN  TLCEval([k \in L |-> IF k > l THEN Zero3 ELSE ColV(ec, F, l, c, k)])])
      wl == TLCEval([l \in L |-> TLCEval([k \in L |-> IF k > l THEN Zero3 ELSE TrMulV(Fr(F, l).R, ColW(ec, F, l, k))])])
      Ic == TLCEval([l \in L |-> Sym6([k \in 1..6 |-> JC(Dyn(ec, l, k + 4))])])
      Iw == TLCEval([l \in L |-> TLCEval([k \in L |-> IF k > l THEN Zero3 ELSE MulV(Ic[l], wl[l][k])])])
      term(l, i, j) == JAdd(JScale(Dyn(ec, l, 1), Dot(vc[l][i], vc[l][j])), Dot(wl[l][i], Iw[l][j]))
      up(i, j) == JSum([q \in 1..(ec.nj - j + 1) |-> term(j + q - 1, i, j)])      \* i <= j: links j..n
      U == TLCEval([i \in L |-> TLCEval([j \in L |-> IF i <= j THEN up(i, j) ELSE JZ])])
  IN  Mat(ec.nj, ec.nj, LAMBDA i, j : IF i <= j THEN U[i][j] ELSE U[j][i])

(* Potential energy in the gravity field g (world axes): - sum m g . p_c         *)
Grav(ec) == [k \in 1..3 |-> JC(RD(ec.grav[k]))]
Potential(ec, F) ==
  JSum([l \in 1..ec.nj |-> JScale(RNeg(Dyn(ec, l, 1)), Dot(Grav(ec), ComPos(ec, Fr(F, l), l)))])

(* Ms[k] = mass matrix along the motion perturbed in q_k: its e-part is dM/dq_k  *)
DM(Ms, i, j, k) == JEps(Ms[k][i][j])
(* Christoffel form: C_ij = 1/2 sum_k (dM_ij/dq_k + dM_ik/dq_j - dM_jk/dq_i) dq_k *)
ChristoffelOf(n, D(_,_,_), v) ==
  Mat(n, n, LAMBDA i, j : JScale(RFrac(1, 2),
      JSum([k \in 1..n |-> JMul(JSub(JAdd(D(i, j, k), D(i, k, j)), D(j, k, i)), v[k])])))
Coriolis(ec, Ms, env) ==
  ChristoffelOf(ec.nj, LAMBDA i, j, k : DM(Ms, i, j, k), TLCEval([k \in 1..ec.nj |-> MotDq(env, k)]))
(* G_k = dU/dq_k; Us[k] = potential perturbed in q_k                             *)
GravVec(ec, Us) == Mat(ec.nj, 1, LAMBDA i, j : JEps(Us[i]))

---------------------------------------------------------------------------
(* Inertial parameters about the link frame: REG = [m, m c, I_c + m S(c)^T S(c)] *)
\* on rationals: p, result: sequences of 10 rationals
SkewSq(c) == \* S(c)^T S(c) = (c.c) 1 - c c^T as xx,xy,xz,yy,yz,zz
  LET x == c[1] y == c[2] z == c[3] IN
  << RAdd(RMul(y,y), RMul(z,z)), RNeg(RMul(x,y)), RNeg(RMul(x,z)), RAdd(RMul(x,x), RMul(z,z)), RNeg(RMul(y,z)), RAdd(RMul(x,x), RMul(y,y)) >>
RegOfDyn(p) == LET m == p[1]
                   s == SkewSq(<<p[2], p[3], p[4]>>)
               IN  [k \in 1..10 |-> IF k = 1 THEN m ELSE IF k <= 4 THEN RMul(m, p[k]) ELSE RAdd(p[k], RMul(m, s[k - 4]))]
DynOfReg(p) == LET m == p[1]
                   c == <<RDiv(p[2], m), RDiv(p[3], m), RDiv(p[4], m)>>
                   s == SkewSq(c)
               IN  [k \in 1..10 |-> IF k = 1 THEN m ELSE IF k <= 4 THEN c[k - 1] ELSE RSub(p[k], RMul(m, s[k - 4]))]
\* on whole numeral vectors (10 per link)
LinkRegStr(v, l) == LET r == RegOfDyn([k \in 1..10 |-> RD(v[10*(l-1)+k])]) IN TLCEval([k \in 1..10 |-> RFracStr(r[k])])
LinkDynStr(v, l) == LET r == DynOfReg([k \in 1..10 |-> RD(v[10*(l-1)+k])]) IN TLCEval([k \in 1..10 |-> RFracStr(r[k])])
RegStr(v) == LET b == TLCEval([l \in 1..(Len(v) \div 10) |-> LinkRegStr(v, l)]) IN TLCEval([i \in 1..Len(v) |-> b[((i-1) \div 10) + 1][((i-1) % 10) + 1]])
DynStr(v) == LET b == TLCEval([l \in 1..(Len(v) \div 10) |-> LinkDynStr(v, l)]) IN TLCEval([i \in 1..Len(v) |-> b[((i-1) \div 10) + 1][((i-1) % 10) + 1]])
=============================================================================
