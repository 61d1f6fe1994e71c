------------------------------ MODULE RatPure ------------------------------
EXTENDS Integers
LOCAL PAbsI(i) == IF i < 0 THEN -i ELSE i
RECURSIVE PGcd(_, _)
PGcd(a, b) == IF b = 0 THEN a ELSE PGcd(b, a % b)
PNorm(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
                   g == PGcd(PAbsI(n), PAbsI(d))
               IN  <<(s * n) \div g, (s * d) \div g>>
PI(i)     == <<i, 1>>
PAdd(a,b) == PNorm(a[1]*b[2] + b[1]*a[2], a[2]*b[2])
PNeg(a)   == <<-a[1], a[2]>>
PSub(a,b) == PAdd(a, PNeg(b))
PMul(a,b) == PNorm(a[1]*b[1], a[2]*b[2])
PDiv(a,b) == PNorm(a[1]*b[2], a[2]*b[1])
PAbs(a)   == <<PAbsI(a[1]), a[2]>>
PLe(a,b)  == a[1]*b[2] <= b[1]*a[2]
PSgn(a)   == IF a[1] < 0 THEN -1 ELSE IF a[1] = 0 THEN 0 ELSE 1
=============================================================================
