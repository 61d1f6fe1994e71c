------------------------------- MODULE MCDyn --------------------------------
(* Theorems about the mathematics that Chain, Dynamics, Regressor and Actuation  *)
(* define, checked exactly (rationals, no rounding) on every case of a bounded   *)
(* family: every word of joint kinds up to length 3 and random longer ones, with *)
(* generated DH tables, frames, bodies and motions.  They tie the independent    *)
(* formulations of the specification to each other: transforms and rotations,    *)
(* geometric columns and derivatives of the forward kinematics, energies,        *)
(* Christoffel symbols and power balance, the DYN and the REG parametrisation.   *)
EXTENDS Scen, FiniteSets
CONSTANT MaxLen
VARIABLES i, phase
vars == <<i, phase>>

Words_ == SelectSeq(WordsUpTo3 \o RandWords(Lens(MaxLen, 2, 6), <<Seed, 900>>), LAMBDA w : Len(w) <= MaxLen)
Cfg_(k) == MkCfg(Opt(Words_[k], <<Seed, 901, k>>), <<Seed, 902, k>>)
Cfgs == TLCEval([k \in 1..Len(Words_) |-> Cfg_(k)])
Env_(cfg, key) == [a \in {"q","dq","ddq","d3q","d4q","dqr","ddqr","w","x","dx","ddx","ddxr"} |-> TLCEval(ArgVal(cfg, a, key \o <<Len(a), IF a \in {"dq","dqr"} THEN 1 ELSE IF a \in {"ddq","ddqr"} THEN 2 ELSE 3>> \o (IF a \in {"dqr", "ddqr", "ddxr"} THEN <<7>> ELSE IF a = "d4q" THEN <<8>> ELSE <<>>)))]
Init == i \in 1..Len(Words_) /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ i' = i
Spec == Init /\ [][Next]_vars

c == Cfgs[i]
n == c.nj
env == Env_(c, <<Seed, 903, i>>)
On == phase = 1
Zj(a) == \A k \in 1..6 : REq(JCoef(a, k), RI(0))
\* equal as functions of time, up to the order that is exact
EqT(a, b) == \A k \in 1..3 : REq(JCoef(a, k), JCoef(b, k))
EqM(A, B) == \A r \in 1..Len(A) : \A s \in 1..Len(A[r]) : EqT(A[r][s], B[r][s])

F0 == FK(c, env, NoPt)
FKs == TLCEval([k \in 1..n |-> FK(c, env, <<"q", k>>)])
Ms(fks) == TLCEval([k \in 1..n |-> MassMat(c, fks[k])])
---------------------------------------------------------------------------
(* C01 *)
Orthonormal(tf) == LET P == Mul33(tf.R, Tr33(tf.R)) IN \A r, s \in 1..3 : Zj(JSub(P[r][s], IF r = s THEN JO ELSE JZ))
Det3(A) == Dot(A[1], Cross(A[2], A[3]))
\* every frame is a rigid transform at all times and under every perturbation of a joint
Rigid == On => LET f == F0 g == FKs IN
   /\ \A k \in 1..Len(f) : Orthonormal(f[k]) /\ Zj(JSub(Det3(f[k].R), JO))
   /\ \A k \in 1..n : \A m \in 1..Len(f) : Orthonormal(g[k][m])
\* the chain is the product of its parts, however it is associated
Assoc == On => LET f == F0
                   tail == TMul(DHT(c, env, NoPt, n), FrameT(c.ee, "ee", NoPt))
               IN  EqM(TMat(f[n + 2]), TMat(TMul(f[n], tail)))
\* prismatic joints move along their axis and revolute joints about it
JointAxis == On => \A k \in 1..n : LET tk == Fr(FKs[k], k) z == Vec(3, LAMBDA r : Fr(F0, k).R[r][3]) IN
   IF IsRev(c.types[k]) THEN \A r \in 1..3 : REq(JCoef(tk.p[r], 4), RI(0)) ELSE \A r \in 1..3 : REq(JCoef(tk.p[r], 4), JCoef(z[r], 1))
---------------------------------------------------------------------------
(* C02: columns by derivative = columns by geometry, for all frames and centres  *)
JacTwice == On => LET g == FKs f == F0 IN \A m \in 0..(n + 1) : EqM(JDef(c, g, m), JGeo(c, f, m))
\* and J dq is the velocity along the motion
JacVel == On => LET f == F0 IN \A m \in 1..(n + 1) :
   LET J == JGeo(c, f, m)
       v(r) == RSum([k \in 1..n |-> RMul(JCoef(J[r][k], 1), RD(env.dq[k]))])
       Rd == Mat(3, 3, LAMBDA a, b : JC(JCoef(Fr(f, m).R[a][b], 2)))
       W == Mul33(Rd, Tr33(Mat(3, 3, LAMBDA a, b : JC(JCoef(Fr(f, m).R[a][b], 1)))))
   IN  /\ \A r \in 1..3 : REq(v(r), JCoef(Fr(f, m).p[r], 2))
       /\ REq(v(4), JCoef(W[3][2], 1)) /\ REq(v(5), JCoef(W[1][3], 1)) /\ REq(v(6), JCoef(W[2][1], 1))
---------------------------------------------------------------------------
(* C03: derivatives along the motion follow from partial derivatives (chain rule) *)
ChainRule == On => LET g == FKs
                       M == Ms(g)
                       dq(k) == RD(env.dq[k])
                   IN  \A r, s \in 1..n : REq(JCoef(M[1][r][s], 2), RSum([k \in 1..n |-> RMul(JCoef(M[k][r][s], 4), dq(k))]))
ChainRule2 == On => LET g == FKs
                        M == Ms(g)
                    IN  \A r, s \in 1..n :   \* d/dt of sum_k dM/dq_k dq_k
                          LET h == JSum([k \in 1..n |-> JMul(JEps(M[k][r][s]), MotDq(env, k))])
                          IN  REq(RMul(RI(2), JCoef(M[1][r][s], 3)), JCoef(h, 2))
---------------------------------------------------------------------------
(* C04 *)
Skew == On => LET M == Ms(FKs)
                  C == Coriolis(c, M, env)
                  h(r, s) == RSub(JCoef(M[1][r][s], 2), RMul(RI(2), JCoef(C[r][s], 1)))
              IN  \A r, s \in 1..n : REq(h(r, s), RNeg(h(s, r)))
\* C dq' is symmetric in the two velocities
Symmetric == On => LET M == Ms(FKs)
                       CA == Coriolis(c, M, env)
                       CB == Coriolis(c, M, [env EXCEPT !.dq = env.dqr])
                   IN  \A r \in 1..n : REq(RSum([k \in 1..n |-> RMul(JCoef(CA[r][k], 1), RD(env.dqr[k]))]), RSum([k \in 1..n |-> RMul(JCoef(CB[r][k], 1), RD(env.dq[k]))]))
\* potential energy changes by G.dq, kinetic energy by the work of M ddq + C dq
Power == On => LET g == FKs
                   M == Ms(g)
                   C == Coriolis(c, M, env)
                   U == TLCEval([k \in 1..n |-> Potential(c, g[k])])
                   G == GravVec(c, U)
                   v == TLCEval([k \in 1..n |-> MotDq(env, k)])
                   Ekin == JScale(RFrac(1, 2), JSum([r \in 1..n |-> JSum([s \in 1..n |-> JMul(v[r], JMul(M[1][r][s], v[s]))])]))
                   work == RSum([r \in 1..n |-> RMul(RD(env.dq[r]), RSum([s \in 1..n |-> RAdd(RMul(JCoef(M[1][r][s], 1), RD(env.ddq[s])), RMul(JCoef(C[r][s], 1), RD(env.dq[s])))]))])
               IN  /\ REq(JCoef(U[1], 2), RSum([k \in 1..n |-> RMul(JCoef(G[k][1], 1), RD(env.dq[k]))]))
                   /\ REq(JCoef(Ekin, 2), work)
\* kinetic energy of the bodies themselves, from the velocities of centres of mass and of rotation
Energy == On => LET f == F0
                    M == MassMat(c, f)
                    v(l) == LET P == ComPos(c, Fr(f, l), l) IN <<JC(JCoef(P[1], 2)), JC(JCoef(P[2], 2)), JC(JCoef(P[3], 2))>>
                    w(l) == LET R0 == Mat(3, 3, LAMBDA a, b : JC(JCoef(Fr(f, l).R[a][b], 1)))
                                Rd == Mat(3, 3, LAMBDA a, b : JC(JCoef(Fr(f, l).R[a][b], 2)))
                                W == Mul33(Tr33(R0), Rd)
                            IN  <<W[3][2], W[1][3], W[2][1]>>
                    I(l) == Sym6([k \in 1..6 |-> JC(Dyn(c, l, k + 4))])
                    e(l) == RAdd(RMul(Dyn(c, l, 1), JCoef(Dot(v(l), v(l)), 1)), JCoef(Dot(w(l), MulV(I(l), w(l))), 1))
                IN  REq(RSum([l \in 1..n |-> e(l)]), RSum([r \in 1..n |-> RSum([s \in 1..n |-> RMul(RD(env.dq[r]), RMul(JCoef(M[r][s], 1), RD(env.dq[s])))])]))
---------------------------------------------------------------------------
(* C05: the regressor is the dynamics, term by term                              *)
Rgs == RegStr(c.dyn)
RegDyn == On => LET g == FKs
                    M == Ms(g)
                    C == Coriolis(c, M, [env EXCEPT !.ddq = Zeros(n)])
                    G == GravVec(c, TLCEval([k \in 1..n |-> Potential(c, g[k])]))
                    p == RegParts(c, g)
                    RM == RegMof(c, p, env.ddqr)
                    RC == RegCof(c, p, env.dq, env.dqr)
                    RG == RegGof(c, g)
                    times(R, r) == RSum([k \in 1..(10 * n) |-> RMul(JCoef(R[r][k], 1), RD(Rgs[k]))])
                IN  \A r \in 1..n :
                      /\ REq(times(RM, r), RSum([s \in 1..n |-> RMul(JCoef(M[1][r][s], 1), RD(env.ddqr[s]))]))
                      /\ REq(times(RC, r), RSum([s \in 1..n |-> RMul(JCoef(C[r][s], 1), RD(env.dqr[s]))]))
                      /\ REq(times(RG, r), JCoef(G[r][1], 1))
(* C06: the two parametrisations                                                 *)
Bijection == On => \A l \in 1..n : LET p == [k \in 1..10 |-> RD(c.dyn[10 * (l - 1) + k])] IN
   \/ REq(p[1], RI(0)) \/ LET q == DynOfReg(RegOfDyn(p)) IN \A k \in 1..10 : REq(p[k], q[k])
(* C07: friction terms are linear in the coefficients with their regressors       *)
Linear(n_, o, v, mask, Mono(_, _)) ==      \* all coefficients symbolic: regressor times coefficients
  LET t == PolyVec(n_, o, v, Mono) R == PolyReg(n_, o, [k \in 1..Len(v) |-> 1], Mono) IN
  \A r \in 1..n_ : REq(t[r][1], RSum([k \in 1..Len(v) |-> RMul(R[r][k], RD(v[k]))]))
Fric == On => /\ Linear(n, c.dlo, c.Dl, c.Dls, LAMBDA r, j : Odd(RD(env.dq[r]), j))
              /\ \A r \in 1..n : \A j \in 1..6 : LET v == RD(env.dq[r]) IN REq(Odd(RNeg(v), j), RNeg(Odd(v, j))) /\ REq(Stiff(RNeg(v), j), RNeg(Stiff(v, j)))
(* C08: moving the base in space moves every frame alike and changes no Jacobian; *)
(* moving the flange in frame n moves the end effector by the rotation of frame n *)
BaseShift == On => \A k \in 1..3 :
   LET f == FK(c, env, <<"base", k>>) Jp == JGeo(c, f, n + 1) IN
   /\ \A r \in 1..6 : \A m \in 1..n : REq(JCoef(Jp[r][m], 4), RI(0))
   /\ \A m \in 1..(n + 2) : \A r \in 1..3 : REq(JCoef(f[m].p[r], 4), RI(IF r = k THEN 1 ELSE 0))
EeShift == On => \A k \in 1..3 :
   LET f == FK(c, env, <<"ee", k>>) IN
   /\ \A r \in 1..3 : REq(JCoef(f[n + 2].p[r], 4), JCoef(f[n + 1].R[r][k], 1))
   /\ \A m \in 1..(n + 1) : \A r \in 1..3 : REq(JCoef(f[m].p[r], 4), RI(0))
(* C09: what masks do to vectors                                                  *)
Selection == On => \A j \in 1..Len(ParNames) : LET v == ParVal(c, ParNames[j]) m == ParMask(c, ParNames[j]) IN
   /\ Expand(v, m, Select(v, m)) = v
   /\ Len(Select(v, m)) = Len(Ones(m))
   /\ \A k \in 1..Len(Ones(m)) : Rank(m, Ones(m)[k]) = k
(* C10: no two functions of a robot have the same name; sizes are positive         *)
CatalogueOk == On => LET k == Catalogue(c) IN Cardinality({k[a].n : a \in 1..Len(k)}) = Len(k) /\ \A a \in 1..Len(k) : k[a].r > 0 \/ k[a].k \in {"Mm","k","Km","d","Dmat","dm","Dmm"}
=============================================================================
