-------------------------------- MODULE Gen ---------------------------------
(* Generation of configurations and argument values.                            *)
EXTENDS Rand, Config

Lengths == <<"0", "3/10", "-1/4", "1/2", "2/5", "-7/10", "1", "1/8", "-3/5">>
AngT    == <<"0", "1", "-1", "inf", "1/2", "-1/3", "2/3", "-3/4", "-2", "1/5", "5/2", "-3/7", "1/7", "-4/5">>
\* angles that are nearly multiples of a quarter turn, among others
NearT   == <<"1/200000", "-1/300000", "1/3000000", "-1/40000000", "100001/100000", "-99999/100000", "1000001/1000000", "-9999999/10000000", "300000", "-200001", "3000001", "0", "1", "1/2", "-2/5", "inf", "1/1000", "-999/1000">>
GenT    == <<"1/2", "-1/3", "2/3", "-3/4", "1/5", "-5/2", "3/7", "-2/5", "4/3", "-1/6">>     \* nothing special about these
Rates   == <<"1/2", "-3/4", "2", "-1/3", "5/4", "-2", "3/5", "-7/5", "1", "-1/2">>
\* a rate, now and then of another size
SomeRate(key) == IF Flip(key \o <<71>>, 1, 8) THEN Pick(<<"0", "17", "-31/2", "1/200", "-3/700", "9">>, key \o <<72>>) ELSE Pick(Rates, key)
\* an angle, now and then beyond a turn
Turned(t, key) == IF t # "inf" /\ Flip(key \o <<73>>, 1, 5) THEN t \o Pick(<<"@1", "@-1", "@2", "@-3", "@7">>, key \o <<74>>) ELSE t
AnAngle(ang, key) == Turned(Pick(ang, key), key)
Gravs   == <<"0", "-981/100", "981/100", "1/2", "-3/2", "2", "-1/5">>
Masses  == <<"1/2", "2", "3/2", "5/4", "1", "3", "7/4">>
Coms    == <<"1/10", "-1/5", "1/4", "-3/20", "1/20", "-1/8", "3/10">>
Idiag   == <<"1/10", "1/5", "3/20", "1/4", "3/10", "1/8">>
Ioff    == <<"1/100", "-1/50", "1/40", "-3/100", "1/80", "-1/60">>
Coefs   == <<"1/2", "3/4", "6/5", "2", "-1/4", "3/10", "7/5", "5/2">>
Types4  == <<"R", "P", "R_SEA", "P_SEA">>

\* digits of m in base b, as a sequence of length n
RECURSIVE Digits(_, _, _)
Digits(m, b, n) == IF n = 0 THEN <<>> ELSE <<m % b>> \o Digits(m \div b, b, n - 1)
\* every word of R/P of length n
TypeWord(m, n) == LET d == Digits(m, 2, n) IN [i \in 1..n |-> IF d[i] = 0 THEN "R" ELSE "P"]
TypeWord4(m, n) == LET d == Digits(m, 4, n) IN [i \in 1..n |-> Types4[d[i] + 1]]

(* mask modes: 0 none, 1 all, 2 one half at random, 3 exactly one, 4 all but one, 5 sparse *)
Mask(n, mode, key) ==
  IF n = 0 THEN <<>> ELSE
  LET w == Upto(key \o <<77>>, n) + 1 IN
  SeqOf(n, LAMBDA i : CASE mode = 0 -> 0 [] mode = 1 -> 1
                        [] mode = 2 -> IF Flip(key \o <<i>>, 1, 2) THEN 1 ELSE 0
                        [] mode = 3 -> IF i = w THEN 1 ELSE 0
                        [] mode = 4 -> IF i = w THEN 0 ELSE 1
                        [] OTHER -> IF Flip(key \o <<i>>, 1, 5) THEN 1 ELSE 0)
DynPool(j) == IF j = 1 THEN Masses ELSE IF j <= 4 THEN Coms ELSE IF j \in {5, 8, 10} THEN Idiag ELSE Ioff
DynVal(key, n) == SeqOf(10 * n, LAMBDA i : Pick(DynPool(((i - 1) % 10) + 1), key \o <<i>>))
(* special links: kind 0 a rotor without mass, 1 a point mass, 2 nothing at all, 3 a  *)
(* symmetric body at the origin, 4 a very small body, 5 a body without mass that has *)
(* a centre all the same, 6 a light one; others are ordinary                         *)
TinyM == <<"1/20000", "3/100000", "1/16384", "7/90000">>
TinyI == <<"1/30000", "-1/50000", "1/65536", "3/400000">>
LightM == <<"3/5000", "1/1250", "1/4096", "19/20000">>
NBody == 11
Massless == {0, 2, 5}
BodyVal(kind, key) ==
  LET d(j) == Pick(DynPool(j), key \o <<j>>) IN
  [j \in 1..10 |-> CASE kind = 0 -> IF j <= 4 THEN "0" ELSE d(j)
                     [] kind = 1 -> IF j >= 5 THEN "0" ELSE d(j)
                     [] kind = 2 -> "0"
                     [] kind = 3 -> IF j \in {1, 5, 8, 10} THEN d(j) ELSE "0"
                     [] kind = 4 -> IF j = 1 THEN Pick(TinyM, key \o <<j>>) ELSE IF j <= 4 THEN d(j) ELSE IF j \in {5, 8, 10} THEN TinyI[1 + 2 * Upto(key \o <<j>>, 2)] ELSE Pick(TinyI, key \o <<j>>)
                     [] kind = 5 -> IF j = 1 THEN "0" ELSE d(j)
                     [] kind = 6 -> IF j = 1 THEN Pick(LightM, key \o <<j>>) ELSE d(j)
                     [] OTHER -> d(j)]
\* mode 0: ordinary links only; 1: all kinds; 2: all that have mass; 10 + k: kind k only
BodiesVal(mode, key, n) ==
  IF mode = 0 THEN DynVal(key, n)
  ELSE LET b == SeqOf(n, LAMBDA l : BodyVal(LET k == Upto(key \o <<l, 61>>, NBody) IN IF mode >= 10 THEN mode - 10 ELSE IF mode = 2 /\ k \in Massless THEN k + 1 ELSE k, key \o <<l>>))
       IN  SeqOf(10 * n, LAMBDA i : b[((i - 1) \div 10) + 1][((i - 1) % 10) + 1])
\* every now and then a very small value
Tinier(mode, key, v) == IF mode = 0 THEN v ELSE SeqOf(Len(v), LAMBDA i : IF Flip(key \o <<i, 62>>, 1, 5) THEN Pick(TinyI, key \o <<i, 63>>) ELSE v[i])
\* REG vectors are conversions of DYN vectors, to stay physically meaningful
MassVal(key, n) == IF Flip(key \o <<64>>, 1, 4) THEN BodiesVal(2, key, n) ELSE DynVal(key, n)
RegVal(key, n) == RegStr(MassVal(key, n))
\* frames: 0 any, 1 a rotation, 2 a displacement, 3 a displacement along z, 4 neither
FrameOf(mode, v) == [i \in 1..6 |-> CASE mode = 0 -> v[i] [] mode = 1 -> IF i <= 3 THEN "0" ELSE v[i] [] mode = 2 -> IF i > 3 THEN "0" ELSE v[i]
                                       [] mode = 3 -> IF i # 3 THEN "0" ELSE v[i] [] OTHER -> "0"]
FrameVal(key, ang) == SeqOf(6, LAMBDA i : IF i <= 3 THEN Pick(Lengths, key \o <<i>>) ELSE AnAngle(ang, key \o <<i>>))
DHVal(key, n, ang) == SeqOf(4 * n, LAMBDA i : IF i % 4 \in {0, 2} THEN AnAngle(ang, key \o <<i>>) ELSE Pick(Lengths, key \o <<i>>))
CoefVal(key, n) == SeqOf(n, LAMBDA i : Pick(Coefs, key \o <<i>>))

\* o: [types, elastic, dlo, ko, do, dmo, ang, dm (masks of each section), grav, fmt]
\* dm: record of mask modes [dh, base, ee, grav, dyn, Dl, K, D, Dm, Mm]
NoMasks == [dh |-> 0, base |-> 0, ee |-> 0, grav |-> 0, dyn |-> 0, Dl |-> 0, K |-> 0, D |-> 0, Dm |-> 0, Mm |-> 0]
AllMasks(m) == [s \in {"dh", "base", "ee", "grav", "dyn", "Dl", "K", "D", "Dm", "Mm"} |-> m]
RandMasks(key) == LET m(i) == Upto(key \o <<i>>, 6) IN
   [dh |-> m(1), base |-> m(2), ee |-> m(3), grav |-> m(4), dyn |-> m(5), Dl |-> m(6), K |-> m(7), D |-> m(8), Dm |-> m(9), Mm |-> m(10)]
PlainFmt == [symb0 |-> 1, order |-> 0, style |-> 0, xlinks |-> 0, xel |-> 0, nograv |-> 0, nofric |-> 0, noel |-> 0, xlong |-> 0, lname |-> 0]
RandFmt(key) == LET b(i, d) == Upto(key \o <<i>>, d) IN
   [symb0 |-> b(1, 2), order |-> b(2, 4), style |-> b(3, 3), xlinks |-> b(4, 3), xel |-> b(5, 2), nograv |-> b(6, 2), nofric |-> b(7, 2), noel |-> b(8, 3), xlong |-> 0, lname |-> 0]
DefOpt == [types |-> <<"R", "R">>, elastic |-> FALSE, dlo |-> 0, ko |-> 0, do |-> 0, dmo |-> 0, ang |-> AngT,
           masks |-> NoMasks, zerograv |-> FALSE, zerobase |-> FALSE, fmt |-> PlainFmt, bodies |-> 0, tiny |-> 0, zfric |-> FALSE, bframe |-> 0, eframe |-> 0]

MkCfg(o, key) ==
  LET n  == Len(o.types)
      ne == Len(SeaIdx(o.types))
      el == IF o.elastic THEN ne ELSE 0
      k(i) == key \o <<i>>
      \* links without friction
      zl(i) == o.zfric /\ Flip(k(21) \o <<(i - 1) \div o.dlo>>, 1, 2)
      Dl0 == Tinier(o.tiny, k(22), CoefVal(k(11), o.dlo * n))
      Dl0s == Mask(o.dlo * n, o.masks.Dl, k(12))
  IN [ name |-> "rob", nj |-> n, types |-> o.types, elastic |-> o.elastic,
       dlo |-> o.dlo, ko |-> IF o.elastic THEN o.ko ELSE 0, do |-> IF o.elastic THEN o.do ELSE 0, dmo |-> IF o.elastic THEN o.dmo ELSE 0,
       dh |-> Tinier(o.tiny, k(23), DHVal(k(1), n, o.ang)), dhs |-> Mask(4 * n, o.masks.dh, k(2)),
       base |-> IF o.zerobase THEN Zeros(6) ELSE FrameOf(o.bframe, FrameVal(k(3), o.ang)), bases |-> Mask(6, o.masks.base, k(4)),
       ee |-> FrameOf(o.eframe, Tinier(o.tiny, k(25), FrameVal(k(5), o.ang))), ees |-> Mask(6, o.masks.ee, k(6)),
       grav |-> IF o.zerograv THEN Zeros(3) ELSE SeqOf(3, LAMBDA i : Pick(Gravs, k(7) \o <<i>>)), gravs |-> Mask(3, o.masks.grav, k(8)),
       dyn |-> BodiesVal(o.bodies, k(9), n), dyns |-> Mask(10 * n, o.masks.dyn, k(10)),
       Dl |-> SeqOf(o.dlo * n, LAMBDA i : IF zl(i) THEN "0" ELSE Dl0[i]), Dls |-> SeqOf(o.dlo * n, LAMBDA i : IF zl(i) THEN 0 ELSE Dl0s[i]),
       K |-> Tinier(o.tiny, k(24), CoefVal(k(13), o.ko * el)), Ks |-> Mask(o.ko * el, o.masks.K, k(14)),
       D |-> Tinier(o.tiny, k(26), CoefVal(k(15), o.do * el)), Ds |-> Mask(o.do * el, o.masks.D, k(16)),
       Dm |-> Tinier(o.tiny, k(28), CoefVal(k(17), o.dmo * el)), Dms |-> Mask(o.dmo * el, o.masks.Dm, k(18)),
       Mm |-> CoefVal(k(19), el), Mms |-> Mask(el, o.masks.Mm, k(20)),
       fmt |-> o.fmt, ufs |-> <<>>, badnj |-> n ]

\* values of joint vectors and parameters
ArgVal(cfg, a, key) == SeqOf(ArgSize(cfg, a), LAMBDA i :
    IF IsAngleArg(cfg, a, i) THEN AnAngle(GenT, key \o <<i>>) ELSE SomeRate(key \o <<i>>))
ArgKinds(cfg, a) == [i \in 1..ArgSize(cfg, a) |-> IF IsAngleArg(cfg, a, i) THEN 1 ELSE 0]
\* a full new value of a parameter vector
ParNew(cfg, p, key) == CASE p = "DHtable" -> DHVal(key, cfg.nj, GenT) [] p \in {"world2L0", "Ln2EE"} -> FrameVal(key, GenT)
     [] p = "gravity" -> SeqOf(3, LAMBDA i : Pick(Gravs, key \o <<i>>)) [] p = "DYN" -> MassVal(key, cfg.nj)
     [] OTHER -> CoefVal(key, Len(ParVal(cfg, p)))
\* vectors that are almost the same: h = 0 the first, 1 and 2 others next to it
NearQ == << <<"1/2", "-1/3", "3/4", "-5/2", "1">>, <<"5000001/10000000", "-3333333/10000000", "75000007/100000000", "-24999999/10000000", "10000001/10000000">>,
            <<"500003/1000000", "-333335/1000000", "750004/1000000", "-2499998/1000000", "1000002/1000000">> >>
NearVal(n, h, key) == SeqOf(n, LAMBDA i : LET j == 1 + Upto(key \o <<i>>, 5) IN NearQ[IF Flip(key \o <<i, 1>>, 1, 3) THEN 1 ELSE 1 + h][j])
\* kinds of the symbolic entries, in order
ParKinds(cfg, p) == LET s == Ones(ParMask(cfg, p)) IN [k \in 1..Len(s) |-> IF IsAngle(p, s[k]) THEN 1 ELSE 0]
Plain(n) == [i \in 1..n |-> 0]

---------------------------------------------------------------------------
(* Events of the driver scripts.                                                *)
New(s, ci) == [op |-> "new", s |-> s, ci |-> ci]
Set(s, a, v, k) == [op |-> "set", s |-> s, a |-> a, v |-> v, k |-> k]
SetArg(s, a, v, k) == [op |-> "setarg", s |-> s, a |-> a, v |-> v, k |-> k]
EvalE(s, fs) == [op |-> "eval", s |-> s, fs |-> fs]
Fns(s) == [op |-> "fns", s |-> s]
\* set every joint argument of a library robot (elastic ones too when they exist)
SetAllArgs(cfg, s, key) ==
  LET as == <<"q", "dq", "ddq", "d3q", "dqr", "ddqr", "w">> \o (IF cfg.elastic THEN <<"x", "dx", "ddx", "ddxr">> ELSE <<>>)
      settable == {"q", "dq", "dqr", "ddqr", "x", "dx", "ddx", "ddxr"}
      one(j) == IF as[j] \in settable THEN Set(s, as[j], ArgVal(cfg, as[j], key \o <<j>>), ArgKinds(cfg, as[j]))
                ELSE SetArg(s, as[j], ArgVal(cfg, as[j], key \o <<j>>), ArgKinds(cfg, as[j]))
  IN  SeqOf(Len(as), one)
\* new values for the symbolic parameters, in the compressed form a library robot takes
SetSymb(cfg, s, key) ==
  LET ps == SelectSeq(ParNames, LAMBDA p : IsSymb(cfg, p)) IN
  SeqOf(Len(ps), LAMBDA j : SetArg(s, "par_" \o ps[j], Select(ParNew(cfg, ps[j], key \o <<j>>), ParMask(cfg, ps[j])), ParKinds(cfg, ps[j])))
FnsOfKind(cfg, ks) == LET c == SelectSeq(Catalogue(cfg), LAMBDA f : f.k \in ks) IN [i \in 1..Len(c) |-> c[i].n]
=============================================================================
