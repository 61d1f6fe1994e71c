------------------------------- MODULE Geom --------------------------------
(* Vectors (3), matrices and rigid transforms over jets.                        *)
EXTENDS Alg, TLC

JZ == JC(RI(0))
JO == JC(RI(1))
(* TLC evaluates function constructors lazily; Mat and Vec force their entries. *)
Vec(n, Op(_))    == TLCEval([i \in 1..n |-> Op(i)])
Mat(r, c, Op(_,_)) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> Op(i, j)])])

MulM(A, B, k) == Mat(Len(A), Len(B[1]), LAMBDA i, j : JSum([m \in 1..k |-> JMul(A[i][m], B[m][j])]))
Mul33(A, B) == Mat(3, 3, LAMBDA i, j : JAdd(JAdd(JMul(A[i][1], B[1][j]), JMul(A[i][2], B[2][j])), JMul(A[i][3], B[3][j])))
Tr33(A)     == Mat(3, 3, LAMBDA i, j : A[j][i])
MulV(A, v)  == Vec(3, LAMBDA i : JAdd(JAdd(JMul(A[i][1], v[1]), JMul(A[i][2], v[2])), JMul(A[i][3], v[3])))
TrMulV(A, v) == Vec(3, LAMBDA i : JAdd(JAdd(JMul(A[1][i], v[1]), JMul(A[2][i], v[2])), JMul(A[3][i], v[3])))
AddV(a, b)  == Vec(3, LAMBDA i : JAdd(a[i], b[i]))
SubV(a, b)  == Vec(3, LAMBDA i : JSub(a[i], b[i]))
ScaleV(s, a) == Vec(3, LAMBDA i : JMul(s, a[i]))
Dot(a, b)   == JAdd(JAdd(JMul(a[1], b[1]), JMul(a[2], b[2])), JMul(a[3], b[3]))
Cross(a, b) == TLCEval(<< JSub(JMul(a[2], b[3]), JMul(a[3], b[2])),
                          JSub(JMul(a[3], b[1]), JMul(a[1], b[3])),
                          JSub(JMul(a[1], b[2]), JMul(a[2], b[1])) >>)
Hat(v)      == TLCEval(<< <<JZ, JNeg(v[3]), v[2]>>, <<v[3], JZ, JNeg(v[1])>>, <<JNeg(v[2]), v[1], JZ>> >>)
Zero3       == <<JZ, JZ, JZ>>
Ident3      == << <<JO, JZ, JZ>>, <<JZ, JO, JZ>>, <<JZ, JZ, JO>> >>

(* Angles.  A configured angle is given by t = tan(angle/2), a rational or      *)
(* "inf" (the angle pi), so that its cosine and sine are exact rationals, and a *)
(* number k of full turns ("t@k", which RD reads as t); a nilpotent jet d may   *)
(* be added to it.  An angle is its pair [c, s].            *)
CSof(t) == IF t = "inf" THEN [c |-> JC(RI(-1)), s |-> JZ]
           ELSE LET x == RD(t)
                    x2 == RMul(x, x)
                    d == RAdd(RI(1), x2)
                IN  [c |-> JC(RDiv(RSub(RI(1), x2), d)), s |-> JC(RDiv(RAdd(x, x), d))]
CSadd(a, b) == [c |-> JSub(JMul(a.c, b.c), JMul(a.s, b.s)), s |-> JAdd(JMul(a.s, b.c), JMul(a.c, b.s))]
\* cos and sin of a jet without constant term: d^4 = 0
CSnil(d) == LET d2 == JMul(d, d) IN
            [c |-> JSub(JO, JScale(RFrac(1, 2), d2)), s |-> JSub(d, JScale(RFrac(1, 6), JMul(d, d2)))]
Ang(ts, d) == LET RECURSIVE acc(_)
                  acc(i) == IF i = 1 THEN CSof(ts[1]) ELSE CSadd(acc(i-1), CSof(ts[i]))
              IN  CSadd(acc(Len(ts)), CSnil(d))

Rx(a) == << <<JO, JZ, JZ>>, <<JZ, a.c, JNeg(a.s)>>, <<JZ, a.s, a.c>> >>
Ry(a) == << <<a.c, JZ, a.s>>, <<JZ, JO, JZ>>, <<JNeg(a.s), JZ, a.c>> >>
Rz(a) == << <<a.c, JNeg(a.s), JZ>>, <<a.s, a.c, JZ>>, <<JZ, JZ, JO>> >>

(* rigid transforms *)
Tf(R, p) == [R |-> TLCEval(R), p |-> TLCEval(p)]
TMul(A, B) == Tf(Mul33(A.R, B.R), AddV(MulV(A.R, B.p), A.p))
TMat(A) == Mat(4, 4, LAMBDA i, j : IF i = 4 THEN (IF j = 4 THEN JO ELSE JZ)
                                   ELSE IF j = 4 THEN A.p[i] ELSE A.R[i][j])
\* symmetric 3x3 from xx,xy,xz,yy,yz,zz
Sym6(v) == << <<v[1], v[2], v[3]>>, <<v[2], v[4], v[5]>>, <<v[3], v[5], v[6]>> >>
Six(A)  == << A[1][1], A[1][2], A[1][3], A[2][2], A[2][3], A[3][3] >>
=============================================================================
