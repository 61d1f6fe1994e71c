-------------------------------- MODULE Rand --------------------------------
(* Deterministic pseudo-random choice for scenario generation: a choice is a    *)
(* function of a key (a sequence of small integers), so the plan of scenarios   *)
(* is a pure function of VERIF_SEED.                                            *)
EXTENDS Integers, Sequences, TLC

LOCAL HM == 32749
LOCAL Mix(h, x) == LET a == (h * h + 3 * h + (x % 20011) * 101 + 7919) % HM
                       b == (a * a + 17 * a + 12345) % HM
                   IN  (b * 31 + a * 7 + x) % HM
RECURSIVE HashFrom(_, _, _)
HashFrom(h, s, i) == IF i > Len(s) THEN h ELSE HashFrom(Mix(h, s[i] + i), s, i + 1)
Hash(key) == HashFrom(4711, key, 1)
Upto(key, n) == Hash(key) % n                    \* 0 .. n-1
Pick(seq, key) == seq[Upto(key, Len(seq)) + 1]
Flip(key, num, den) == Upto(key, den) < num
SeqOf(n, Op(_)) == TLCEval([i \in 1..n |-> Op(i)])
=============================================================================
