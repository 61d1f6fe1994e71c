----------------------------- MODULE Semantics ------------------------------
(* The value every function must have, and the comparison of observed values.   *)
EXTENDS Config

\* the name b when c does not hold
If(c, b) == IF c THEN <<>> ELSE <<b>>

\* coefficient extraction: value, first and second time derivative
TC(a, o) == IF o = 0 THEN JCoef(a, 1) ELSE IF o = 1 THEN JCoef(a, 2) ELSE RMul(RI(2), JCoef(a, 3))
ToR(A, o) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[i]) |-> TC(A[i][j], o)])])
EpsR(A, j) == JCoef(A[j], 4)

(* Shared intermediate results of one evaluation.  TLC evaluates a LET          *)
(* definition at most once and only if it is used.                              *)
\* value of the catalogue entry f; the arguments are intermediate results
NoneM == <<>>

KinParList(cfg) ==   \* the symbolic kinematic parameters, in the documented order
  LET a == Ones(cfg.dhs) b == Ones(cfg.bases) c == Ones(cfg.ees) IN
  [i \in 1..Len(a) |-> <<"dh", a[i]>>] \o [i \in 1..Len(b) |-> <<"base", b[i]>>] \o [i \in 1..Len(c) |-> <<"ee", c[i]>>]

---------------------------------------------------------------------------
(* Closeness of observed doubles (given as decimal numerals) to exact values.   *)
Tol == RD("0.000000001")
RECURSIVE MaxAbsRow(_, _)
MaxAbsRow(row, j) == IF j = 0 THEN RI(1) ELSE RMax(RAbs(row[j]), MaxAbsRow(row, j - 1))
RECURSIVE MaxAbs(_, _)
MaxAbs(A, i) == IF i = 0 THEN RI(1) ELSE RMax(MaxAbsRow(A[i], Len(A[i])), MaxAbs(A, i - 1))
Close(obs, exp, scale) == RIsNum(obs) /\ RLe(RAbs(RSub(RD(obs), exp)), RMul(Tol, scale))
\* obs: [r, c, v] with v the column-major entries
MatShape(obs, r, c) == obs.r = r /\ obs.c = c /\ Len(obs.v) = r * c
At(obs, i, j) == obs.v[(j - 1) * obs.r + i]
MatClose(obs, A, c) ==
  /\ MatShape(obs, Len(A), c)
  /\ LET s == TLCEval(MaxAbs(A, Len(A))) IN
     \A i \in 1..Len(A) : \A j \in 1..c : Close(At(obs, i, j), A[i][j], s)
VecClose(obs, exp) ==    \* sequences of numerals / rationals
  /\ Len(obs) = Len(exp)
  /\ \A i \in 1..Len(exp) : Close(obs[i], exp[i], RMax(RI(1), RAbs(exp[i])))
\* vectors that were set or read as they are: relative accuracy
RelTol == RD("0.000000000001")
CloseRel(obs, exp) == RIsNum(obs) /\ RLe(RAbs(RSub(RD(obs), exp)), RMul(RelTol, RAbs(exp)))
VecCloseRel(obs, exp) == Len(obs) = Len(exp) /\ \A i \in 1..Len(exp) : CloseRel(obs[i], exp[i])
\* inertial vectors may have been converted: accuracy relative to the largest entry of the link
\* (of which a selection may hold only zeros)
Thousandth == RD("0.001")
RECURSIVE MaxOf(_, _, _)
MaxOf(v, i, j) == IF i > j THEN RI(0) ELSE RMax(RAbs(v[i]), MaxOf(v, i + 1, j))
LinkClose(obs, exp) ==
  /\ Len(obs) = Len(exp)
  /\ \A l \in 0..((Len(exp) - 1) \div 10) :
       LET s == TLCEval(MaxOf(exp, 10 * l + 1, IF 10 * l + 10 <= Len(exp) THEN 10 * l + 10 ELSE Len(exp))) IN
       \A i \in (10 * l + 1)..(10 * l + 10) : i > Len(exp) \/ Close(obs[i], exp[i], IF REq(exp[i], RI(0)) THEN RMax(s, Thousandth) ELSE s)
(* inertial vectors in files: every entry to relative accuracy, or, since small   *)
(* entries may be differences of ordinary ones, relative to those of its link     *)
FileClose(x, e, big) == CloseRel(x, e) \/ (RIsNum(x) /\ RLe(big, RI(1000)) /\ RLe(RAbs(RSub(RD(x), e)), RMul(RelTol, big)))
LinkFileClose(obs, exp) ==
  /\ Len(obs) = Len(exp)
  /\ \A l \in 0..((Len(exp) - 1) \div 10) :
       LET s == TLCEval(MaxOf(exp, 10 * l + 1, IF 10 * l + 10 <= Len(exp) THEN 10 * l + 10 ELSE Len(exp))) IN
       \A i \in (10 * l + 1)..(10 * l + 10) : i > Len(exp) \/ FileClose(obs[i], exp[i], s)
\* a: name of the vector
ArgClose(a, obs, exp) == IF a \in {"par_DYN", "par_REG", "DYN!", "REG!", "DYN", "REG"} THEN LinkClose(obs, exp) ELSE VecCloseRel(obs, exp)
AllNum(obs) == \A i \in 1..Len(obs) : RIsNum(obs[i])

(* P is the damped right inverse of J: P (J J^T + mu I) = J^T                    *)
PinvOk(obs, J, n) ==
  /\ MatShape(obs, n, 6) /\ AllNum(obs.v)
  /\ LET A == TLCEval([i \in 1..6 |-> TLCEval([j \in 1..6 |->
               RAdd(RSum([k \in 1..n |-> RMul(J[i][k], J[j][k])]), IF i = j THEN RD("0.02") ELSE RI(0))])])
         s == RMul(RI(100), RMul(MaxAbs(A, 6), MaxAbs([i \in 1..n |-> [j \in 1..6 |-> RD(At(obs, i, j))]], n)))
     IN  \A i \in 1..n : \A j \in 1..6 :
           RLe(RAbs(RSub(RSum([k \in 1..6 |-> RMul(RD(At(obs, i, k)), A[k][j])]), J[j][i])), RMul(Tol, s))

---------------------------------------------------------------------------
(* EvalBad(ec, env, outs): the names of the observed function results that are   *)
(* not the value of that function.  outs: sequence of [f, r, c, v].              *)
EvalBad(ec, env, outs) ==
  LET n    == ec.nj
      cat  == TLCEval(Catalogue(ec))
      F    == TLCEval(FK(ec, env, NoPt))
      FKs  == TLCEval([k \in 1..n |-> FK(ec, env, <<"q", k>>)])
      Ms   == TLCEval([k \in 1..n |-> MassMat(ec, FKs[k])])
      Us   == TLCEval([k \in 1..n |-> Potential(ec, FKs[k])])
      Cm   == TLCEval(Coriolis(ec, Ms, env))
      Gv   == TLCEval(GravVec(ec, Us))
      Jee  == TLCEval(JDef(ec, FKs, n + 1))
      parts == TLCEval(RegParts(ec, FKs))
      RM   == TLCEval(RegMof(ec, parts, env.ddqr))
      RC   == TLCEval(RegCof(ec, parts, env.dq, env.dqr))
      RG   == TLCEval(RegGof(ec, FKs))
      kp   == TLCEval(KinParList(ec))
      dJ   == TLCEval([c \in 1..Len(kp) |-> JGeo(ec, FK(ec, env, kp[c]), n + 1)])
      ne   == NumEl(ec)
      sea  == TLCEval(SeaIdx(ec.types))
      xq(i)   == RSub(RD(env.x[i]), QVal(ec, env, sea[i]))
      dxq(i)  == RSub(RD(env.dx[i]), RD(env.dq[sea[i]]))
      mK(i, j) == Stiff(xq(i), j)
      mD(i, j) == Odd(dxq(i), j)
      mM(i, j) == Odd(RD(env.dx[i]), j)
      mL(i, j) == Odd(RD(env.dq[i]), j)
      ent(par, o, j) == DiagMat(Len(par) \div o, LAMBDA i : RD(par[o * (i - 1) + j]))
      val(f) ==
        CASE f.k = "T0"  -> ToR(TMat(Fr(F, 0)), 0)
          [] f.k = "T"   -> ToR(TMat(DHT(ec, env, NoPt, f.i)), 0)
          [] f.k = "T0i" -> ToR(TMat(Fr(F, f.i)), 0)
          [] f.k = "J"   -> ToR(IF f.i = n + 1 THEN Jee ELSE JDef(ec, FKs, f.i), 0)
          [] f.k = "Jt"  -> ToR(Jee, f.i)
          [] f.k = "Jcm" -> ToR(JDefPoint(ec, FKs, f.i, LAMBDA T : ComPos(ec, T, f.i)), 0)
          [] f.k = "M"   -> ToR(Ms[1], f.i)
          [] f.k = "C"   -> ToR(Cm, f.i)
          [] f.k = "G"   -> ToR(Gv, f.i)
          [] f.k = "regM" -> ToR(RM, 0)
          [] f.k = "regC" -> ToR(RC, 0)
          [] f.k = "regG" -> ToR(RG, 0)
          [] f.k = "Yr"   -> ToR(AddM(AddM(RM, RC), RG), 0)
          [] f.k = "regJdq" -> TLCEval([i \in 1..6 |-> TLCEval([c \in 1..Len(kp) |->
                                 RSum([j \in 1..n |-> RMul(JCoef(dJ[c][i][j], 4), RD(env.dq[j]))])])])
          [] f.k = "regJTw" -> TLCEval([j \in 1..n |-> TLCEval([c \in 1..Len(kp) |->
                                 RSum([i \in 1..6 |-> RMul(JCoef(dJ[c][i][j], 4), RD(env.w[i]))])])])
          [] f.k = "dl"   -> PolyVec(n, ec.dlo, ec.Dl, mL)
          [] f.k = "Dlm"  -> ent(ec.Dl, ec.dlo, f.i)
          [] f.k = "regdl" -> PolyReg(n, ec.dlo, ec.Dls, mL)
          [] f.k = "k"    -> PolyVec(ne, ec.ko, ec.K, mK)
          [] f.k = "Km"   -> ent(ec.K, ec.ko, f.i)
          [] f.k = "regk" -> PolyReg(ne, ec.ko, ec.Ks, mK)
          [] f.k = "d"    -> PolyVec(ne, ec.do, ec.D, mD)
          [] f.k = "Dmat" -> ent(ec.D, ec.do, f.i)
          [] f.k = "regd" -> PolyReg(ne, ec.do, ec.Ds, mD)
          [] f.k = "dm"   -> PolyVec(ne, ec.dmo, ec.Dm, mM)
          [] f.k = "Dmm"  -> ent(ec.Dm, ec.dmo, f.i)
          [] f.k = "regdm" -> PolyReg(ne, ec.dmo, ec.Dms, mM)
          [] f.k = "Mm"   -> DiagMat(ne, LAMBDA i : RD(ec.Mm[i]))
          [] f.k = "regMm" -> PolyReg(ne, 1, ec.Mms, LAMBDA i, j : RD(env.ddx[i]))
      ok(o) == \E c \in 1..Len(cat) :
                 /\ cat[c].n = o.f
                 /\ IF cat[c].k = "Jpinv" THEN PinvOk(o, ToR(Jee, 0), n)
                    ELSE MatClose(o, val(cat[c]), cat[c].c)
      bad == SelectSeq(outs, LAMBDA o : ~ ok(o))
  IN  [i \in 1..Len(bad) |-> bad[i].f]
=============================================================================
