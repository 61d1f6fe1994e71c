------------------------------- MODULE Panda --------------------------------
(* The tool genYAML: the bodies of a seven-joint arm, given in the link frames   *)
(* of its URDF, are written in the frames of its Denavit-Hartenberg table (DYN   *)
(* form), in REG form, and in REG form of randomly perturbed bodies.             *)
EXTENDS Body, FiniteSets

NArm == 7
Half == "1"            \* tan(pi/4): a quarter turn, pi/2
MHalf == "-1"
\* the documented table: a, alpha, d (all theta are the joint variables)
DHTab == << <<"0", MHalf, "0.3330">>, <<"0", Half, "0">>, <<"0.0825", Half, "0.3160">>, <<"-0.0825", MHalf, "0">>,
            <<"0", Half, "0.384">>, <<"0.088", Half, "0">>, <<"0", "0", "0.107">> >>
\* the frames of the joints in the URDF: displacement, roll
Urdf == << <<"0", "0", "0.333", "0">>, <<"0", "0", "0", MHalf>>, <<"0", "-0.316", "0", Half>>, <<"0.0825", "0", "0", Half>>,
           <<"-0.0825", "0.384", "0", MHalf>>, <<"0", "0", "0", Half>>, <<"0.088", "0", "0", Half>> >>
TX(x) == Tf(Ident3, <<JC(RD(x)), JZ, JZ>>)
TZ(z) == Tf(Ident3, <<JZ, JZ, JC(RD(z))>>)
RX(t) == Tf(Rx(Ang(<<t>>, JZ)), Zero3)
RZ(t) == Tf(Rz(Ang(<<t>>, JZ)), Zero3)
TV(x, y, z) == Tf(Ident3, <<JC(RD(x)), JC(RD(y)), JC(RD(z))>>)
\* classical DH: turn and slide along z, then along x
DHStep(i, t) == TMul(TMul(RZ(t), TZ(DHTab[i][3])), TMul(TX(DHTab[i][1]), RX(DHTab[i][2])))
UrdfStep(i, t) == TMul(TMul(TV(Urdf[i][1], Urdf[i][2], Urdf[i][3]), RX(Urdf[i][4])), RZ(t))
\* DH frame i seen from link i of the URDF
XDh(i) == TMul(IF i = NArm THEN TZ(DHTab[i][3]) ELSE Tf(Ident3, Zero3), TMul(TX(DHTab[i][1]), RX(DHTab[i][2])))
Inv(T) == Tf(Tr33(T.R), Vec(3, LAMBDA k : JNeg(TrMulV(T.R, T.p)[k])))

(* what the files hold *)
PandaTree == {"run/yaml/inertial.yaml"} \cup {"generatedFiles/inertial_DH" \o s \o ".yaml" : s \in {"", "_DYN", "_REG", "_REG_p2", "_REG_p5", "_REG_p10", "_REG_p20"}}
PandaDyn(links) == TLCEval([i \in 1..NArm |-> LET V == Inv(XDh(i)) IN RatRow(Moved(V.R, V.p, links[i + 1].v))])
RegRow(r) == LET m == JC(r[1]) c == <<JC(r[2]), JC(r[3]), JC(r[4])>>
                 I == Sym6([k \in 1..6 |-> JC(r[4 + k])])
             IN  RatRow(BodyRow(m, Vec(3, LAMBDA k : JMul(m, c[k])), Add33(I, Steiner(m, c))))
PandaReg(links) == LET d == PandaDyn(links) IN TLCEval([i \in 1..NArm |-> RegRow(d[i])])
\* a body of REG form in DYN form
DynRow(r) == LET m == RD(r[1])
                 c == TLCEval([k \in 1..3 |-> RDiv(RD(r[1 + k]), m)])
                 Sm == Steiner(JC(m), [k \in 1..3 |-> JC(c[k])])
                 S6 == Six(Sm)
             IN  TLCEval([k \in 1..10 |-> IF k = 1 THEN m ELSE IF k <= 4 THEN c[k - 1] ELSE RSub(RD(r[k]), JCoef(S6[k - 4], 1))])
PKeys(kind) == IF kind = "reg" THEN <<"mass", "m_CoM_x", "m_CoM_y", "m_CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz">>
               ELSE <<"mass", "CoM_x", "CoM_y", "CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz">>
RowOf(y, kind) == [k \in 1..10 |-> y[PKeys(kind)[k]]]
WellFormed(y, links, kind) ==
  LET names == {links[i + 1].n : i \in 1..NArm} IN
  DOMAIN y = names /\ \A nm \in names : \A k \in 1..10 : PKeys(kind)[k] \in DOMAIN y[nm] /\ RIsNum(y[nm][PKeys(kind)[k]])
\* relative to the largest entry of the link
PRowClose(obs, exp) == LET s == TLCEval(MaxOf(exp, 1, 10)) IN \A k \in 1..10 : Close(obs[k], exp[k], s)
PandaFileBad(y, links, kind) ==
  IF ~ WellFormed(y, links, kind) THEN <<"form">>
  ELSE LET want == IF kind = "reg" THEN PandaReg(links) ELSE PandaDyn(links)
           b == {i \in 1..NArm : ~ PRowClose(RowOf(y[links[i + 1].n], kind), want[i])}
       IN  If(b = {}, ToString(b))

(* Perturbation by p percent: every parameter of the body is multiplied by 1 + p/100 z,   *)
(* z independent and standard normal.  Over several runs: all z within 8; their sum,      *)
(* sums of squares and fourth powers, sums per parameter and cross products as expected.   *)
RECURSIVE Bis(_, _, _)
Bis(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF RLe(RI(m), x) THEN Bis(x, m, hi) ELSE Bis(x, lo, m)
\* thousandths, between -16 and 16
Milli(x) == Bis(RMul(RI(1000), x), -16384, 16384)
RECURSIVE ISum(_, _, _)
ISum(f, i, j) == IF i > j THEN 0 ELSE IF i = j THEN f[i] ELSE LET m == (i + j) \div 2 IN ISum(f, i, m) + ISum(f, m + 1, j)
Sum(f) == ISum(f, 1, Len(f))
\* the parameters of a link that can be told from rounding
Visible(d, r) == LET s == TLCEval(RMax(MaxOf(d, 1, 10), MaxOf(r, 1, 10))) IN SelectSeq([k \in 1..10 |-> k], LAMBDA k : RLt(RMul(RD("0.000001"), s), RAbs(d[k])))
Abs_(i) == IF i < 0 THEN -i ELSE i
PandaPertBad(ys, links, p) ==
  IF ~ \A j \in 1..Len(ys) : WellFormed(ys[j], links, "reg") THEN <<"form">>
  ELSE LET d == PandaDyn(links)
           r == PandaReg(links)
           vis == TLCEval([i \in 1..NArm |-> Visible(d[i], r[i])])
           z(j, i) == LET x == DynRow(RowOf(ys[j][links[i + 1].n], "reg")) IN
                      TLCEval([m \in 1..Len(vis[i]) |-> LET k == vis[i][m] IN Milli(RDiv(RSub(x[k], d[i][k]), RMul(RFrac(p, 100), d[i][k])))])
           \* zero entries stay zero
           zero(j, i) == LET x == DynRow(RowOf(ys[j][links[i + 1].n], "reg")) s == TLCEval(RMul(RI(4), RMax(MaxOf(d[i], 1, 10), MaxOf(r[i], 1, 10)))) IN
                         \A k \in 1..10 : REq(d[i][k], RI(0)) => RLe(RAbs(x[k]), RMul(Tol, s))
           Z == TLCEval([j \in 1..Len(ys) |-> TLCEval([i \in 1..NArm |-> z(j, i)])])
           flat == [m \in 1..(Len(ys) * NArm) |-> Z[((m - 1) \div NArm) + 1][((m - 1) % NArm) + 1]]
           n == Sum([m \in 1..Len(flat) |-> Len(flat[m])])
           s1 == TLCEval([m \in 1..Len(flat) |-> Sum(flat[m])])
           s2 == TLCEval([m \in 1..Len(flat) |-> Sum([k \in 1..Len(flat[m]) |-> (flat[m][k] * flat[m][k]) \div 1000])])
           units(x, var) == Abs_(x) < 40000 /\ x * x <= 36 * var     \* within six standard deviations
           dev(x, var) == units(x \div 1000, var)
           s4 == TLCEval([m \in 1..Len(flat) |-> Sum([k \in 1..Len(flat[m]) |-> (((flat[m][k] * flat[m][k]) \div 10000) * ((flat[m][k] * flat[m][k]) \div 10000)) \div 100])])
           per(q) == SelectSeq([m \in 1..(Len(flat) * 10) |-> <<((m - 1) \div 10) + 1, ((m - 1) % 10) + 1>>], LAMBDA x : x[2] <= Len(flat[x[1]]) /\ vis[((x[1] - 1) % NArm) + 1][x[2]] = q)
           mean(q) == LET x == TLCEval(per(q)) IN dev(Sum([k \in 1..Len(x) |-> flat[x[k][1]][x[k][2]]]), Len(x) + 10)
           pairs == Sum([m \in 1..Len(flat) |-> (Len(flat[m]) * (Len(flat[m]) - 1)) \div 2])
           cross == Sum([m \in 1..Len(flat) |-> (((s1[m] \div 10) * (s1[m] \div 10)) \div 10 - s2[m]) \div 2])
       IN  If(\A j \in 1..Len(ys) : \A i \in 1..NArm : zero(j, i), "zero entries")
           \o If(\A m \in 1..Len(flat) : \A k \in 1..Len(flat[m]) : Abs_(flat[m][k]) <= 8000, "far off")
           \o If(dev(Sum(s2) - 1000 * n, 2 * n + 10), "variance")
           \o If(units((Sum(s4) - 300 * n) \div 100, 100 * n + 100), "shape")
           \o If(\A q \in 1..10 : mean(q), "mean")
           \o If(dev(cross, pairs + 10), "dependent")
           \o If(\A j, h \in 1..Len(ys) : j = h \/ Z[j] # Z[h], "same")
           \* every single parameter is perturbed
           \o If(Len(ys) < 6 \/ \A i \in 1..NArm : \A m \in 1..Len(vis[i]) : \E j \in 2..Len(ys) : Z[j][i][m] # Z[1][i][m], "unperturbed")
=============================================================================
