-------------------------------- MODULE Rat --------------------------------
(* Exact rational numbers.  A rational is <<n, d>> with d > 0 and gcd(n,d)=1.    *)
(* TLC's integers have 32 bits, so TLC evaluates this module with java/Rat.java *)
(* (the same operators on BigInteger); MCAlg.tla checks that class against the  *)
(* definitions below, which are repeated, un-overridden, in RatPure.tla.        *)
EXTENDS RatPure

RI(i)      == PI(i)
RFrac(n,d) == PNorm(n, d)
RAdd(a,b)  == PAdd(a, b)
RSub(a,b)  == PSub(a, b)
RNeg(a)    == PNeg(a)
RMul(a,b)  == PMul(a, b)
RDiv(a,b)  == PDiv(a, b)
RAbs(a)    == PAbs(a)
RMax(a,b)  == IF PLe(b, a) THEN a ELSE b
RLe(a,b)   == PLe(a, b)
RLt(a,b)   == PLe(a, b) /\ a # b
REq(a,b)   == a = b
RSgn(a)    == PSgn(a)

(* Numerals.  TLA+ cannot look inside a string; the overriding class can.       *)
RD(str)      == CHOOSE r \in Int \X (Nat \ {0}) : TRUE   \* the number a decimal or "p/q" text denotes
RIsNum(str)  == CHOOSE b \in BOOLEAN : TRUE              \* does the text denote a finite number?
RStr(a)      == CHOOSE s \in STRING : TRUE               \* nearest double, as text
RFracStr(a)  == CHOOSE s \in STRING : TRUE               \* exact "p/q" text
RSqrt(a)     == CHOOSE r \in Int \X (Nat \ {0}) : TRUE   \* square root, to 30 digits
RAng(t)      == CHOOSE r \in Int \X (Nat \ {0}) : TRUE   \* 2*arctan(t) to double precision; pi for "inf"; "t@k" has k more turns
=============================================================================
