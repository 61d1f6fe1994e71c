-------------------------------- MODULE Body --------------------------------
(* Rotation helpers, frames and rigid bodies.  A body is                        *)
(* m, c(3), I(6: about the centre of mass), rpy(3: axes of I).                  *)
EXTENDS Semantics

\* e.args: sequence of [v, k] (numerals, angle flags)
RpyRot(v) == Mul33(Mul33(Rz(Ang(<<v[3]>>, JZ)), Ry(Ang(<<v[2]>>, JZ))), Rx(Ang(<<v[1]>>, JZ)))
JV(v) == [i \in 1..Len(v) |-> JC(RD(v[i]))]
V3(v, k) == [i \in 1..3 |-> JC(RD(v[k + i]))]
I6(v, k) == Sym6([i \in 1..6 |-> JC(RD(v[k + i]))])
Conj(A, I) == Mul33(Mul33(A, I), Tr33(A))
\* m (d.d 1 - d d^T)
Steiner(m, d) == LET dd == Dot(d, d) IN
  Mat(3, 3, LAMBDA i, j : JMul(m, IF i = j THEN JSub(dd, JMul(d[i], d[j])) ELSE JNeg(JMul(d[i], d[j]))))
Add33(A, B) == Mat(3, 3, LAMBDA i, j : JAdd(A[i][j], B[i][j]))
BodyRow(m, c, I) == <<m>> \o <<c[1], c[2], c[3]>> \o Six(I)
RatRow(r) == TLCEval([i \in 1..Len(r) |-> JCoef(r[i], 1)])

\* a body b moved by rotation A and translation d
Moved(A, d, b) == BodyRow(JC(RD(b[1])), AddV(d, MulV(A, V3(b, 1))),
                          Conj(Mul33(A, RpyRot(<<b[11], b[12], b[13]>>)), I6(b, 4)))
Union(a, b) ==
  LET ma == JC(RD(a[1]))
      mb == JC(RD(b[1]))
      mt == RAdd(RD(a[1]), RD(b[1]))
      inv == RDiv(RI(1), mt)
      c == Vec(3, LAMBDA i : JScale(inv, JAdd(JMul(ma, V3(a, 1)[i]), JMul(mb, V3(b, 1)[i]))))
      I == Add33(Add33(I6(a, 4), Steiner(ma, SubV(V3(a, 1), c))), Add33(I6(b, 4), Steiner(mb, SubV(V3(b, 1), c))))
  IN  BodyRow(JC(mt), c, I)
\* [a b; c d] from a frame [tr, ypr]
FrameOf(tr, ypr) == FrameT(tr \o ypr, "none", NoPt)

MatOk(o, A, c) == MatClose(o, ToR(A, 0), c)
PureBad(e) ==
  LET a(i) == e.args[i].v IN
  CASE e.fn = "rpy" -> If(MatOk(e.out[1], RpyRot(a(1)), 3), "rpyRot")
    [] e.fn = "createI" -> If(MatOk(e.out[1], Sym6(JV(a(1))), 3), "createI")
    [] e.fn = "hat" -> LET H == Hat(JV(a(1))) IN
          If(MatOk(e.out[1], H, 3), "hat") \o If(MatOk(e.out[2], H, 3), "hat(SX)") \o If(MatOk(e.out[3], H, 3), "FrameOffset::hat")
    [] e.fn = "frame" -> LET T == FrameOf(a(1), a(2)) IN
          If(MatOk(e.out[1], T.R, 3), "get_rotation")
          \o If(MatOk(e.out[2], [i \in 1..3 |-> <<T.p[i]>>], 1), "get_translation")
          \o If(MatOk(e.out[3], TMat(T), 4), "get_transform") \o If(MatOk(e.out[4], TMat(T), 4), "set_ypr/get_transform")
          \o If(MatOk(e.out[5], T.R, 3), "set_ypr/get_rotation")
    [] e.fn = "transform" -> LET b == RatRow(Moved(RpyRot(a(2)), JV(a(1)), a(3))) IN If(VecClose(e.v, b), "transformBodyInertial") \o If(VecClose(e.v2, b), "transformBodyInertial in place")
    [] e.fn = "merge" -> LET b == RatRow(Union(a(1), a(2))) IN If(VecClose(e.v, b), "mergeBodyInertial") \o If(VecClose(e.v2, b), "mergeBodyInertial in place")
(* Frame objects (FrameOffset): angles, translation and gravity, as constructed   *)
(* and as set since                                                              *)
Fresh3 == <<"0", "0", "0">>
FNew(e) == [y |-> IF e.how = 0 THEN Fresh3 ELSE e.y, t |-> IF e.how = 0 THEN Fresh3 ELSE e.p, g |-> IF e.how = 3 THEN e.g ELSE Fresh3]
FSet(f, e) == CASE e.a = "ypr" -> [f EXCEPT !.y = e.v] [] e.a = "tr" -> [f EXCEPT !.t = e.v] [] OTHER -> [f EXCEPT !.g = e.v]
FGetBad(f, e) ==
  LET T == FrameOf(f.t, f.y)
      vecis(A, v, ang) == MatShape(A, 3, 1) /\ VecCloseRel(A.v, [i \in 1..3 |-> Num(ang, v[i])])
  IN  If(MatOk(e.out[1], T.R, 3), "get_rotation") \o If(MatOk(e.out[2], [i \in 1..3 |-> <<T.p[i]>>], 1), "get_translation")
      \o If(MatOk(e.out[3], TMat(T), 4), "get_transform") \o If(vecis(e.out[4], f.g, FALSE), "get_gravity")
      \o If(vecis(e.out[5], f.y, TRUE), "get_ypr")
=============================================================================
