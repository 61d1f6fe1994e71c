------------------------------- MODULE Chain -------------------------------
(* Kinematics of the configured chain.                                          *)
(*  ec  : effective configuration (see Config.tla); numbers are numerals,       *)
(*        angles are given by tan(angle/2)                                      *)
(*  env : joint vectors q, dq, ddq, d3q, ...                                    *)
(*  pt  : what e perturbs: <<"none",0>>, <<"q",k>>, <<"dh",i>>, <<"base",i>>,   *)
(*        <<"ee",i>>                                                            *)
EXTENDS Geom

IsRev(ty) == ty \in {"R", "R_SEA"}
NoPt == <<"none", 0>>
EpsIf(b) == JMk(<<RI(0), RI(0), RI(0), IF b THEN RI(1) ELSE RI(0), RI(0), RI(0)>>)
\* displacement of joint i along the motion (without its constant part), perturbed if asked
MotQ(env, pt, i) == JMk(<<RI(0), RD(env.dq[i]), RMul(RFrac(1, 2), RD(env.ddq[i])),
                          IF pt = <<"q", i>> THEN RI(1) ELSE RI(0), RI(0), RI(0)>>)
\* joint velocity along the motion, as a jet in t
MotDq(env, i) == JMk(<<RD(env.dq[i]), RD(env.ddq[i]), RMul(RFrac(1, 2), RD(env.d3q[i])), RI(0), RI(0), RI(0)>>)

(* Modified Denavit-Hartenberg transform of joint i: row [a alpha d theta];     *)
(* Rx(alpha) after the translation a, then the joint: Rz(theta), d along z.     *)
DHT(ec, env, pt, i) ==
  LET b(c)  == 4 * (i - 1) + c
      rev   == IsRev(ec.types[i])
      e(c)  == EpsIf(pt = <<"dh", b(c)>>)
      mq    == MotQ(env, pt, i)
      a     == JAdd(JC(RD(ec.dh[b(1)])), e(1))
      alpha == Ang(<<ec.dh[b(2)]>>, e(2))
      d     == LET d0 == JAdd(JC(RD(ec.dh[b(3)])), e(3))
               IN  IF rev THEN d0 ELSE JAdd(d0, JAdd(JC(RD(env.q[i])), mq))
      theta == IF rev THEN Ang(<<ec.dh[b(4)], env.q[i]>>, JAdd(mq, e(4)))
               ELSE Ang(<<ec.dh[b(4)]>>, e(4))
      RA    == Rx(alpha)
  IN  Tf(Mul33(RA, Rz(theta)), AddV(MulV(RA, <<JZ, JZ, d>>), <<a, JZ, JZ>>))

(* A fixed frame [x y z yaw pitch roll]: translation, then Rz(yaw)Ry(pitch)Rx(roll) *)
FrameT(fr, sec, pt) ==
  LET e(k) == EpsIf(pt = <<sec, k>>)
      tr(k) == JAdd(JC(RD(fr[k])), e(k))
      an(k) == Ang(<<fr[k]>>, e(k))
  IN  Tf(Mul33(Mul33(Rz(an(4)), Ry(an(5))), Rx(an(6))), <<tr(1), tr(2), tr(3)>>)

(* The chain: <<T_0_0, T_0_1, ..., T_0_n, T_0_(n+1)>>                            *)
FK(ec, env, pt) ==
  LET RECURSIVE go(_, _)
      go(i, acc) == IF i > ec.nj THEN acc
                    ELSE go(i + 1, TLCEval(Append(acc, TMul(acc[i], DHT(ec, env, pt, i)))))
      ch == go(1, <<FrameT(ec.base, "base", pt)>>)
  IN  TLCEval(Append(ch, TMul(ch[ec.nj + 1], FrameT(ec.ee, "ee", pt))))
\* frame i of the chain
Fr(F, i) == F[i + 1]

(* Geometric velocity columns: velocity (linear, angular), in world axes, of a  *)
(* point p moving with frame i per unit rate of joint k.                        *)
ColV(ec, F, i, p, k) ==
  IF k > i THEN Zero3
  ELSE LET z == Vec(3, LAMBDA r : Fr(F, k).R[r][3])
       IN  IF IsRev(ec.types[k]) THEN Cross(z, SubV(p, Fr(F, k).p)) ELSE z
ColW(ec, F, i, k) ==
  IF k > i \/ ~ IsRev(ec.types[k]) THEN Zero3 ELSE Vec(3, LAMBDA r : Fr(F, k).R[r][3])
LinkOf(ec, i) == IF i > ec.nj THEN ec.nj ELSE i        \* the end effector moves with link n
JGeo(ec, F, i) ==
  LET m == LinkOf(ec, i)
      cv == [k \in 1..ec.nj |-> ColV(ec, F, m, Fr(F, i).p, k)]
      cw == [k \in 1..ec.nj |-> ColW(ec, F, m, k)]
      CV == TLCEval(cv)
      CW == TLCEval(cw)
  IN  Mat(6, ec.nj, LAMBDA r, k : IF r <= 3 THEN CV[k][r] ELSE CW[k][r - 3])

(* The Jacobian by definition: column k from the derivative of the forward      *)
(* kinematics in direction q_k.  FKs[k] = FK(ec, env, <<"q",k>>).               *)
\* angular velocity matrix dR/dq_k * R^T
Omega(T) == LET D == Mat(3, 3, LAMBDA i, j : JEps(T.R[i][j]))
                R0 == T.R
            IN  Mat(3, 3, LAMBDA i, j : JAdd(JAdd(JMul(D[i][1], R0[j][1]), JMul(D[i][2], R0[j][2])), JMul(D[i][3], R0[j][3])))
NoEps(a) == JMk(<<JCoef(a,1), JCoef(a,2), JCoef(a,3), RI(0), RI(0), RI(0)>>)
JDefPoint(ec, FKs, i, PointOf(_)) ==
  LET col == TLCEval([k \in 1..ec.nj |->
               LET T == Fr(FKs[k], i)
                   P == PointOf(T)
                   W == Omega(T)
               IN  TLCEval(<<JEps(P[1]), JEps(P[2]), JEps(P[3]), NoEps(W[3][2]), NoEps(W[1][3]), NoEps(W[2][1])>>)])
  IN  Mat(6, ec.nj, LAMBDA r, k : col[k][r])
JDef(ec, FKs, i) == JDefPoint(ec, FKs, i, LAMBDA T : T.p)
=============================================================================
