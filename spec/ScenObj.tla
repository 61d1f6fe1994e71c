------------------------------ MODULE ScenObj -------------------------------
(* Scenarios about generated classes: equality with the model (C11), call        *)
(* histories of objects (C12), load_conf (C14), inertial sets and files across   *)
(* the library and objects (C06, C15).                                           *)
EXTENDS ScenState, Sched, SequencesExt

ONewE(s, ci) == [op |-> "onew", s |-> s, ci |-> ci]
OCopyE(s, from) == [op |-> "ocopy", s |-> s, from |-> from]
OE(op, s) == [op |-> op, s |-> s]
OSetV(s, a, v, k, u) == [op |-> "oset", s |-> s, a |-> a, v |-> v, k |-> k, upd |-> u]
OSetArgE(cfg, s, a, key) == OSetV(s, a, ArgVal(cfg, a, key), ArgKinds(cfg, a), 1)
OGetE(s, as) == [op |-> "oget", s |-> s, as |-> as]
OEvalE(s, fs) == [op |-> "oeval", s |-> s, fs |-> fs]
OLoad(s, ci, secs, u) == [op |-> "oloadconf", s |-> s, ci |-> ci, secs |-> secs, upd |-> u]
OFile(op, s, f) == [op |-> op, s |-> s, file |-> f, upd |-> 1]
OFileU(op, s, f, u) == [op |-> op, s |-> s, file |-> f, upd |-> u]
OParNames == <<"DHtable", "world2L0", "Ln2EE", "gravity", "DYN", "REG", "Dl", "K", "D", "Dm", "Mm">>
OAllPar(s) == OGetE(s, OParNames)
OEnvNames == <<"q", "dq", "ddq", "d3q", "d4q", "dqr", "ddqr", "w", "x", "dx", "ddx", "ddxr">>
OSetEnv(cfg, s, key) == SeqOf(Len(OEnvNames), LAMBDA j : OSetArgE(cfg, s, OEnvNames[j], key \o <<j>>))
\* new values for parameter p: kinematic ones as symbolic entries, the others in full
OSetPar(cfg, s, p, u, key) ==
  LET v == ParNew(cfg, p, key) IN
  IF p \in {"DHtable", "world2L0", "Ln2EE", "gravity"} THEN OSetV(s, p, Select(v, ParMask(cfg, p)), ParKinds(cfg, p), u)
  ELSE IF p = "Mm" THEN OSetV(s, p, CoefVal(key, NumEl(cfg)), Plain(NumEl(cfg)), u)
  ELSE OSetV(s, p, v, Plain(Len(v)), u)
\* the same new values for a library robot with functions
LSetPar(cfg, s, p, key) == IF IsSymb(cfg, p) THEN <<SetArg(s, "par_" \o p, Select(ParNew(cfg, p, key), ParMask(cfg, p)), ParKinds(cfg, p))>> ELSE <<>>
AllSecs(cfg) == <<"head", "kinematics", "gravity", "Base_to_L0", "Ln_to_EE", "dynamics", "elastic">>
FullLoad(cfg, s, ci, u) == OLoad(s, ci, AllSecs(cfg), u)
\* configurations of generated robots: no elastic section when there are no elastic functions
OOpt(w, key) == LET o == Opt(w, key) IN [o EXCEPT !.fmt.noel = 1, !.fmt.xel = IF o.elastic THEN o.fmt.xel ELSE 0]
UserFns(cfg, key) ==
  LET ps == SelectSeq(ParNames, LAMBDA p : IsSymb(cfg, p))
      as(j) == <<Pick(<<"q", "dq", "ddqr", "w">>, key \o <<j>>)>> \o (IF ps = <<>> THEN <<>> ELSE <<"par_" \o Pick(ps, key \o <<j, 1>>)>>) \o (IF Flip(key \o <<j, 2>>, 1, 2) THEN <<"d3q">> ELSE <<>>)
  IN  <<[n |-> "uf1", x |-> "lin", args |-> as(1)], [n |-> "my_fun", x |-> IF Flip(key, 1, 3) THEN "cst" ELSE "lin", args |-> as(2)]>>
      \o (IF Flip(key \o <<3>>, 1, 2) THEN <<Example(cfg, key \o <<4>>)>> ELSE <<>>)
\* a function that depends on every joint argument
EnvFn(cfg) == [n |-> "uenv", x |-> "lin", args |-> <<"dq", "ddq", "d3q", "d4q", "dqr", "ddqr", "w">> \o (IF cfg.elastic /\ NumEl(cfg) > 0 THEN <<"x", "dx", "ddx", "ddxr">> ELSE <<>>)]
WithEnvFn(cfg) == [cfg EXCEPT !.ufs = Append(@, EnvFn(cfg))]
OCfg(w, key) == LET c1 == MkCfg(OOpt(w, key), key \o <<99>>)
                    c == IF Flip(key \o <<96>>, 1, 3) THEN Hollow(c1, Flip(key \o <<95>>, 1, 2), key \o <<94>>) ELSE c1 IN IF Flip(key \o <<98>>, 1, 2) THEN [c EXCEPT !.ufs = UserFns(c, key \o <<97>>)] ELSE c
\* the same with mass in every link (a set of parameters about the frame says nothing about the centre of a body without mass)
OCfgM(w, key) == LET c == OCfg(w, key) IN [c EXCEPT !.dyn = TLCEval([k \in 1..Len(c.dyn) |-> IF k % 10 = 1 /\ c.dyn[k] = "0" THEN Pick(<<"1/2", "3/2", "2">>, key \o <<93, k>>) ELSE c.dyn[k]])]
AllFns(cfg) == FnNames(cfg) \o [i \in 1..Len(cfg.ufs) |-> cfg.ufs[i].n]
\* arguments of function f of the catalogue, or of a user function
FnArgs(cfg, f) == LET c == Catalogue(cfg) IN
  IF \E i \in 1..Len(cfg.ufs) : cfg.ufs[i].n = f THEN cfg.ufs[CHOOSE i \in 1..Len(cfg.ufs) : cfg.ufs[i].n = f].args
  ELSE ArgNames(c[CHOOSE i \in 1..Len(c) : c[i].n = f].args)
\* a saved casadi function applied to fresh values of its arguments
CasE(cfg, ci, f, key) ==
  LET as == FnArgs(cfg, f)
      val(j) == IF as[j] = "par_REG" THEN RegVal(key \o <<j>>, cfg.nj)
                ELSE IF IsParArg(as[j]) THEN Select(ParNew(cfg, ParOf(as[j]), key \o <<j>>), ParMask(cfg, ParOf(as[j]))) ELSE ArgVal(cfg, as[j], key \o <<j>>)
      knd(j) == IF as[j] = "par_REG" THEN Plain(10 * cfg.nj) ELSE IF IsParArg(as[j]) THEN ParKinds(cfg, ParOf(as[j])) ELSE ArgKinds(cfg, as[j])
  IN  [op |-> "cas", ci |-> ci, f |-> f, as |-> as, vs |-> SeqOf(Len(as), val), ks |-> SeqOf(Len(as), knd)]
\* a chain of ten joints and more, one of them revolute, with a fixed geometry
BigWord(n, key) == LET r == 1 + Upto(key, n) IN SeqOf(n, LAMBDA i : IF i = r THEN Pick(<<"R", "R_SEA">>, key) ELSE Pick(<<"P", "P", "P_SEA">>, key \o <<i>>))
BigCfg(n, key) == LET w == BigWord(n, key) IN MkCfg([OOpt(w, key) EXCEPT !.elastic = HasSea(w), !.ang = AngT, !.masks = [RandMasks(key \o <<1>>) EXCEPT !.dh = 0, !.base = 0, !.ee = 0]], key \o <<99>>)
Plan_C11(plan_) ==
  LET ws == FlatN(2, LAMBDA n : SeqOf(4 ^ n, LAMBDA m : TypeWord4(m - 1, n))) \o RandWords(T(<<3, 3, 4, 4, 5, 6, 7>>, FlatN(12, LAMBDA i : <<3, 4, 5, 6, 7, 8>>)), <<Seed, 11, 0>>)
      one(i) ==
        LET key == <<Seed, 11, i>>
            cfg == IF i > Len(ws) THEN BigCfg(9 + i - Len(ws), key) ELSE OCfg(ws[i], key)
            fs == AllFns(cfg)
            ps == ParNames
            round(r) ==
               SetAllArgs(cfg, 0, key \o <<r, 1>>) \o OSetEnv(cfg, 0, key \o <<r, 2>>)
               \o (IF r = 1 THEN <<>> ELSE FlatN(Len(ps), LAMBDA j : LSetPar(cfg, 0, ps[j], key \o <<r, 3, j>>) \o <<OSetPar(cfg, 0, ps[j], 1, key \o <<r, 3, j>>)>>))
               \o <<OEvalE(0, fs)>> \o (IF r = 2 THEN <<EvalE(0, fs)>> ELSE <<>>)
        IN  Sc(Id("C11_", i), <<cfg>>, <<New(0, 1), Fns(0), ONewE(0, 1), OE("ofns", 0), OE("oinfo", 0), FullLoad(cfg, 0, 1, 1), OAllPar(0)>>
               \o FlatN(T(2, 3), round)
               \o (IF i % 3 = 0 THEN FlatN(Len(fs), LAMBDA j : <<CasE(cfg, 1, fs[j], key \o <<7, j>>)>>) ELSE <<>>))
  IN  SeqOf(Len(ws) + T(2, 4), one)

---------------------------------------------------------------------------
(* C12: histories of objects.                                                      *)
OHistCfg(key) == WithEnvFn(MkCfg([OOpt(Pick(<< <<"R", "P_SEA">>, <<"P", "R_SEA">>, <<"R_SEA", "R">> >>, key), key) EXCEPT !.elastic = TRUE, !.dlo = 1, !.ko = 1, !.do = 1, !.dmo = 1,
                              !.masks = [RandMasks(key \o <<1>>) EXCEPT !.dyn = Pick(<<1, 2>>, key), !.K = 1, !.Dl = 1, !.grav = 2]], key \o <<2>>))
Wrong(cfg, s, a, n, key) == LET m == WrongLen(n, key) IN IF m = n \/ m < 0 THEN OSetV(s, a, Zeros(n + 3), Plain(n + 3), 1)
                                                       ELSE OSetV(s, a, SeqOf(m, LAMBDA i : Pick(Rates, key \o <<i>>)), Plain(m), Upto(key \o <<5>>, 2))
SizeOf(cfg, a) == IF a = "REG" THEN 10 * cfg.nj ELSE IF a = "Mm" THEN NumEl(cfg) ELSE IF \E i \in 1..Len(ParNames) : ParNames[i] = a THEN Len(ParVal(cfg, a)) ELSE ArgSize(cfg, a)
\* bad: the vector of a wrong size (0: none); now and then another one makes up for it
OSetAllE(cfg, s, bad, key) ==
  LET as == <<"q", "dq", "dqr", "ddqr">>
      n == cfg.nj
      m0 == WrongLen(n, key \o <<9>>)
      m == IF m0 = n \/ m0 < 0 THEN n + 1 ELSE m0
      mate == IF bad > 0 /\ m <= 2 * n /\ Flip(key \o <<10>>, 1, 2) THEN 1 + ((bad + Upto(key \o <<11>>, 3)) % 4) ELSE 0
      len(i) == IF i = bad THEN m ELSE 2 * n - m
      v(i) == IF i \in {bad, mate} THEN SeqOf(len(i), LAMBDA j : "1") ELSE ArgVal(cfg, as[i], key \o <<i>>)
      k(i) == IF i \in {bad, mate} THEN Plain(Len(v(i))) ELSE ArgKinds(cfg, as[i])
  IN  [op |-> "osetall", s |-> s, vs |-> SeqOf(4, v), ks |-> SeqOf(4, k)]
OHistFns == <<"T_0_ee", "M", "G", "dl", "k", "dm", "uenv", "Dl1", "K1", "D1", "Dm1", "Mm", "d", "T_0">>
\* one of a few keys, or the given one: values that objects may have already
Again(key) == IF Flip(key \o <<33>>, 1, 3) THEN <<34, Upto(key \o <<35>>, 2)>> ELSE key
OAlpha == 16
ONudge(cfg, s, a, key) == LET n == SizeOf(cfg, a)
                                k == IF a \in {"K", "Dl", "DYN"} THEN Plain(n) ELSE ArgKinds(cfg, a)
                            IN  <<OSetV(s, a, NearVal(n, 0, key), k, 1), OEvalE(s, <<"M", "T_0_ee", "k">>), OSetV(s, a, NearVal(n, 1 + Upto(key \o <<2>>, 2), key), k, 1)>>
OWord(cfg, s, o, key) ==
  CASE o = 0 -> <<OSetArgE(cfg, s, "q", Again(key))>>
    [] o = 1 -> LET a == Pick(OEnvNames, key) IN <<Wrong(cfg, s, a, ArgSize(cfg, a), key)>>
    [] o = 2 -> <<OSetArgE(cfg, s, Pick(<<"dq", "ddq", "d3q", "d4q", "dqr", "ddqr", "w">>, key), key)>>
    [] o = 3 -> <<OSetAllE(cfg, s, 0, Again(key))>>
    [] o = 4 -> <<OSetAllE(cfg, s, 1 + Upto(key \o <<8>>, 4), key)>>
    [] o = 5 -> <<OSetV(s, "DYN", SomeDyn(cfg, key), Plain(10 * cfg.nj), Upto(key, 2))>>
    [] o = 6 -> <<OSetV(s, "REG", SomeReg(cfg, key), Plain(10 * cfg.nj), Upto(key, 2))>>
    [] o = 7 -> <<OSetArgE(cfg, s, "x", key), OSetArgE(cfg, s, "dx", key \o <<1>>)>>
    [] o = 8 -> <<OSetPar(cfg, s, Pick(<<"Dl", "K", "D", "Dm", "Mm">>, key), 1, Again(key))>>
    [] o = 9 -> <<OSetPar(cfg, s, Pick(<<"DHtable", "world2L0", "Ln2EE", "gravity">>, key), 1, key)>>
    [] o = 10 -> LET a == Pick(<<"DYN", "REG", "Dl", "K", "D", "Dm", "Mm">>, key) IN <<Wrong(cfg, s, a, SizeOf(cfg, a), key)>>
    [] o = 11 -> <<OCopyE(50, s), OSetArgE(cfg, 50, "q", key), OSetV(50, "DYN", DynVal(key, cfg.nj), Plain(10 * cfg.nj), 1), OEvalE(50, <<"G", "T_0_ee">>), OEvalE(s, <<"G", "T_0_ee">>)>>
    [] o = 12 -> <<OE("oresize", s)>>
    [] o = 13 -> <<OSetArgE(cfg, s, "dqr", key), OSetArgE(cfg, s, "ddqr", key \o <<1>>), OEvalE(s, <<"Yr", "M">>)>>
    [] o = 15 -> ONudge(cfg, s, Pick(<<"q", "q", "q", "dq", "x", "K", "Dl", "DYN">>, key \o <<3>>), key)
    [] OTHER -> <<FullLoad(cfg, s, 1, Upto(key, 2))>>
ObserveO(cfg, s) == <<OEvalE(s, OHistFns), OAllPar(s)>>
Plan_C12(plan_) ==
  LET exh(a) ==
        LET key == <<Seed, 12, a>>
            cfg == OHistCfg(<<Seed, 12, a % 4>>)
        IN  Sc(Id("C12_w", a), <<cfg>>, <<ONewE(0, 1), OAllPar(0), OEvalE(0, OHistFns), FullLoad(cfg, 0, 1, 1)>> \o OSetEnv(cfg, 0, key) \o <<OEvalE(0, AllFns(cfg))>> \o FlatN(OAlpha * OAlpha, LAMBDA m :
              LET b == (m - 1) \div OAlpha
                  e == (m - 1) % OAlpha
                  s == 1 + (m % 40)
              IN  <<OCopyE(s, 0)>> \o OWord(cfg, s, a - 1, <<Seed, a, b, e, 1>>) \o OWord(cfg, s, b, <<Seed, a, b, e, 2>>) \o OWord(cfg, s, e, <<Seed, a, b, e, 3>>)
                  \o (IF m % 4 = 0 THEN ObserveO(cfg, s) ELSE <<OEvalE(s, <<Pick(OHistFns, <<m>>), "M">>), OGetE(s, <<"DYN", "REG", "K", "Dl">>)>>)))
      long(i) ==     \* several objects of two classes
        LET key == <<Seed, 12, 90, i>>
            c1 == OHistCfg(<<Seed, 12, i % 4>>)
            c2 == IF i > T(6, 40) THEN BigCfg(9 + i - T(6, 40), key) ELSE OCfg(RandWord(1 + (i % 5), key), <<Seed, 12, 91, i>>)
            cf(s) == IF s < 3 THEN c1 ELSE c2
            ok(s, o) == s < 3 \/ o \notin {7, 8, 14, 15}
            fs(s) == IF s < 3 THEN OHistFns ELSE FnNames(c2)
        IN  Sc(Id("C12_l", i), <<c1, c2>>, <<ONewE(0, 1), ONewE(1, 1), ONewE(3, 2), FullLoad(c1, 1, 1, 1), FullLoad(c2, 3, 2, 1), OCopyE(2, 1), OCopyE(4, 3)>> \o FlatN(T(40, 120), LAMBDA m :
              LET s == Upto(key \o <<m>>, 5)
                  o == Upto(key \o <<m, 1>>, OAlpha)
                  s2 == Upto(key \o <<m, 3>>, 5)
              IN  (IF ok(s, o) THEN OWord(cf(s), s, o, key \o <<m, 2>>) ELSE OSetEnv(cf(s), s, key \o <<m, 4>>))
                  \o <<OEvalE(s2, IF m % 5 = 0 THEN fs(s2) ELSE <<"M", "G", "T_0_ee">>)>>
                  \o (IF m % 4 = 0 THEN <<OAllPar(s), OAllPar(s2)>> ELSE <<>>)
                  \o (IF m % 10 = 0 THEN <<OE("odel", 2), OCopyE(2, Upto(key \o <<m, 6>>, 2))>> ELSE <<>>)))
  IN  SeqOf(OAlpha, exh) \o SeqOf(T(7, 42), long)

---------------------------------------------------------------------------
(* C14: load_conf.                                                                 *)
SecNames == <<"kinematics", "gravity", "Base_to_L0", "Ln_to_EE", "dynamics", "elastic">>
SomeSecs(bits) == LET d == Digits(bits, 2, 6) IN (IF bits % 3 = 0 THEN <<"head">> ELSE <<>>) \o SelectSeq(SecNames, LAMBDA s : d[CHOOSE i \in 1..6 : SecNames[i] = s] = 1)
\* another configuration of the same robot: same structure and masks, other values and layout
Sibling(cfg, key) ==
  LET p(nm) == ParNew(cfg, nm, key \o <<Len(nm), 5>>)
      f == RandFmt(key \o <<1>>)
  IN  [cfg EXCEPT !.dh = p("DHtable"), !.base = ParNew(cfg, "world2L0", key \o <<2>>), !.ee = ParNew(cfg, "Ln2EE", key \o <<3>>), !.grav = ParNew(cfg, "gravity", key \o <<4>>),
                  !.dyn = p("DYN"), !.Dl = p("Dl"), !.K = p("K"), !.D = ParNew(cfg, "D", key \o <<6>>), !.Dm = ParNew(cfg, "Dm", key \o <<7>>), !.Mm = p("Mm"),
                  !.fmt = [f EXCEPT !.noel = 1, !.xel = IF cfg.elastic THEN f.xel ELSE 0, !.xlong = Upto(key \o <<8>>, 3), !.lname = Upto(key \o <<9>>, 2), !.nograv = 0]]
\* the same without friction in some links
Smooth(cfg, key) == [cfg EXCEPT !.Dl = SeqOf(Len(@), LAMBDA i : IF Flip(key \o <<(i - 1) \div cfg.dlo>>, 1, 2) THEN "0" ELSE cfg.Dl[i])]
Plan_C14(plan_) ==
  LET ws == << <<"R", "P_SEA">>, <<"P_SEA", "R_SEA">>, <<"R_SEA", "P", "R_SEA">>, <<"R">> >> \o RandWords(T(<<2, 3, 4, 5>>, FlatN(8, LAMBDA i : <<1, 2, 3, 4, 5, 6>>)), <<Seed, 14, 0>>)
      one(i) ==
        LET key == <<Seed, 14, i>>
            c1 == IF i > Len(ws) THEN [BigCfg(10 + i - Len(ws), key) EXCEPT !.fmt.nograv = 0] ELSE MkCfg([OOpt(ws[i], key) EXCEPT !.elastic = HasSea(ws[i]), !.fmt.nograv = 0, !.zfric = i % 3 = 2, !.dlo = IF i % 3 = 0 THEN @ ELSE 1 + (@ % 3), !.masks = IF i % 4 = 1 THEN AllMasks(2) ELSE RandMasks(key)], key \o <<99>>)
            c2 == IF i % 3 = 1 THEN Sibling(c1, key \o <<50>>) ELSE Smooth(Sibling(c1, key \o <<50>>), key \o <<52>>)
            c3 == Sibling(c1, key \o <<51>>)
            obs(s) == <<OAllPar(s), OEvalE(s, <<"T_0_ee", "M", "G", "T_0">> \o (IF c1.elastic /\ c1.ko > 0 THEN <<"k">> ELSE <<>>) \o (IF c1.dlo > 0 THEN <<"dl">> ELSE <<>>))>>
            look(s) == <<OAllPar(s)>>
            \* every subset of sections, on a fresh object and on one loaded before
            subsets == FlatN(64, LAMBDA m :
                 <<OCopyE(1, 0), OCopyE(2, 9), OLoad(1, 2, SomeSecs(m - 1), m % 2), OLoad(2, 3, SomeSecs(m - 1), (m \div 2) % 2)>>
                 \o (IF m % 8 = 0 THEN obs(1) \o obs(2) ELSE look(1) \o look(2)))
            hist == FlatN(T(20, 80), LAMBDA m :
                 LET u == Upto(key \o <<m, 1>>, 2)
                     o == Upto(key \o <<m, 2>>, 8) IN
                 (CASE o \in 0..2 -> <<OLoad(9, 1 + Upto(key \o <<m, 3>>, 3), SomeSecs(Upto(key \o <<m, 4>>, 64)), u)>>
                    [] o = 3 -> <<FullLoad(c1, 9, 1 + Upto(key \o <<m, 3>>, 3), u)>>
                    [] o = 4 -> <<OSetV(9, "DYN", SomeDyn(c1, key \o <<m, 5>>), Plain(10 * c1.nj), u)>>
                    [] o = 5 -> <<OSetV(9, "REG", SomeReg(c1, key \o <<m, 5>>), Plain(10 * c1.nj), u)>>
                    [] o = 6 -> <<OSetPar(c1, 9, Pick(SelectSeq(ParNames, LAMBDA p : p # "DYN"), key \o <<m, 6>>), 1, key \o <<m, 7>>)>>
                    [] OTHER -> OSetEnv(c1, 9, key \o <<m, 8>>)) \o (IF m % 5 = 0 THEN obs(9) ELSE look(9)))
        IN  Sc(Id("C14_", i), <<c1, c2, c3>>, <<ONewE(0, 1), OAllPar(0), ONewE(9, 1), FullLoad(c1, 9, 1, 1)>> \o OSetEnv(c1, 0, key \o <<70>>) \o OSetEnv(c1, 9, key \o <<71>>)
               \o obs(9) \o subsets \o hist)
  IN  SeqOf(Len(ws) + T(1, 3), one)

---------------------------------------------------------------------------
(* C06, objects: histories of the two inertial sets, with files from both sides.   *)
OInAlpha == 10
OInOp(cfg, s, o, key) ==
  CASE o \in {0, 1} -> <<OSetV(s, "DYN", SomeDyn(cfg, key), Plain(10 * cfg.nj), o)>>
    [] o \in {2, 3} -> <<OSetV(s, "REG", SomeReg(cfg, key), Plain(10 * cfg.nj), o - 2)>>
    [] o = 4 -> <<Wrong(cfg, s, Pick(<<"DYN", "REG">>, key), 10 * cfg.nj, key)>>
    [] o \in {5, 6} -> <<OLoad(s, 2, AllSecs(cfg), o - 5)>>
    [] o \in {7, 8} -> <<OFileU("oloadreg", s, "r1.yaml", o - 7)>>
    [] OTHER -> <<OFileU("oloadconff", s, "d1.yaml", Upto(key, 2))>>
BothO(s) == OGetE(s, <<"DYN", "REG">>)
ObjC06(plan_) ==
  LET exh(a) ==
        LET key == <<Seed, 6, 200, a>>
            c1 == MkCfg([OOpt(IF a % 2 = 0 THEN <<"R">> ELSE <<"R", "P">>, <<Seed, 6, 201, a % 2>>) EXCEPT !.dlo = a % 2], <<Seed, 6, 202, a % 2>>)
            c2 == Sibling(c1, <<Seed, 6, 203, a>>)
        IN  Sc(Id("C06_o", a), <<c1, c2>>, <<ONewE(0, 1), FullLoad(c1, 0, 1, 1), BothO(0), NewF(0, 1), SetPar(c1, 0, "par_REG", RegVal(key \o <<9>>, c1.nj)), SaveF("savereg", 0, "r1.yaml"),
                 OCopyE(2, 0), OSetV(2, "DYN", DynVal(key \o <<10>>, c1.nj), Plain(10 * c1.nj), 1), OFile("osavedyn", 2, "d1.yaml"), BothO(2)>>
              \o FlatN(OInAlpha * OInAlpha, LAMBDA m :
                LET b == (m - 1) \div OInAlpha
                    e == (m - 1) % OInAlpha IN
                <<OCopyE(1, 0)>> \o OInOp(c1, 1, a - 1, <<Seed, 6, a, m, 1>>) \o <<BothO(1)>> \o OInOp(c1, 1, b, <<Seed, 6, a, m, 2>>) \o <<BothO(1)>>
                  \o OInOp(c1, 1, e, <<Seed, 6, a, m, 3>>) \o <<BothO(1)>> \o (IF m % 9 = 0 THEN <<OEvalE(1, <<"M", "G">>), BothO(0)>> ELSE <<>>)))
      \* the values of functions follow the set that was given last
      dyn(i) ==
        LET key == <<Seed, 6, 210, i>>
            cfg == MkCfg([OOpt(RandWord(1 + (i % 4), key), key) EXCEPT !.masks.dyn = 1 + (i % 3)], key)
        IN  Sc(Id("C06_d", i), <<cfg>>, <<ONewE(0, 1), FullLoad(cfg, 0, 1, 1), New(0, 1)>> \o FlatN(T(6, 20), LAMBDA m :
                OSetEnv(cfg, 0, key \o <<m>>) \o <<OSetV(0, "REG", RegVal(key \o <<m, 1>>, cfg.nj), Plain(10 * cfg.nj), 1), SetPar(cfg, 0, "par_REG", RegVal(key \o <<m, 1>>, cfg.nj)), BothO(0), BothSets(0), OEvalE(0, <<"M", "G", "C">>)>>))
  IN  SeqOf(OInAlpha, exh) \o SeqOf(T(4, 24), dyn)

---------------------------------------------------------------------------
(* C15, objects: files written by objects and by the generator, read by both.      *)
WildO(cfg, s, key) ==
  LET ps == SelectSeq(<<"gravity", "Dl", "K", "D", "Dm", "Mm">>, LAMBDA p : TRUE)
      len(p) == IF p = "gravity" THEN Len(Ones(cfg.gravs)) ELSE SizeOf(cfg, p)
  IN  SeqOf(Len(ps), LAMBDA j : OSetV(s, ps[j], WildVal(key \o <<j>>, len(ps[j])), Plain(len(ps[j])), 1))
      \o <<OSetV(s, "DYN", WildVal(key \o <<20>>, 10 * cfg.nj), Plain(10 * cfg.nj), 0), OSetV(s, "REG", WildVal(key \o <<21>>, 10 * cfg.nj), Plain(10 * cfg.nj), 0)>>
ReadIn(f) == [op |-> "readin", file |-> f]
ReadPar_(f) == [op |-> "readpar", file |-> f]
\* the parameter files that the generator wrote for the class of slot s
GenFiles(ci) == [op |-> "genfiles", ci |-> ci, conf |-> "gen_conf.yaml", reg |-> "gen_reg.yaml"]
\* what a file of inertial parameters says about a library robot
\* coefficients, all zero for some of the links
SomeZero(cfg, n, o, key) == SeqOf(n, LAMBDA i : IF Flip(key \o <<(i - 1) \div o>>, 2, 3) THEN "0" ELSE Pick(Coefs, key \o <<i, 1>>))
InArgs(cfg) == <<"par_DYN", "par_REG">> \o (IF cfg.dlo > 0 THEN <<"par_Dl">> ELSE <<>>)
ObjC15(plan_) ==
  LET one(i) ==
        LET key == <<Seed, 15, 200, i>>
            w == RandWord(1 + (i % 5), key)
            cfg == IF i > T(10, 60) THEN [BigCfg(9 + i - T(10, 60), key) EXCEPT !.fmt.nograv = 0] ELSE MkCfg([OOpt(w, key) EXCEPT !.elastic = HasSea(w), !.fmt.nograv = 0], key)
        IN  Sc(Id("C15_o", i), <<cfg>>,
              <<ONewE(0, 1), ONewE(1, 1), FullLoad(cfg, 0, 1, 1), FullLoad(cfg, 1, 1, 1), NewF(0, 1), NewF(1, 1)>>
              \o WildO(cfg, 0, key \o <<1>>)
              \o <<OFile("osavepar", 0, "p.yaml"), ReadPar_("p.yaml"), OFile("osavereg", 0, "r.yaml"), ReadIn("r.yaml"), OFile("osavedyn", 0, "d.yaml"), ReadIn("d.yaml"),
                   OFileU("oloadreg", 1, "r.yaml", 0), OAllPar(1), OFileU("oloadconff", 1, "d.yaml", 0), OAllPar(1), OAllPar(0),
                   LoadF("loadreg", 0, "r.yaml", 0), GetArgs(0, AllArgs(cfg)), LoadF("loadconff", 0, "d.yaml", 0), GetArgs(0, InArgs(cfg)),
                   SaveF("savereg", 0, "lr.yaml"), ReadIn("lr.yaml"), OFileU("oloadreg", 1, "lr.yaml", 0), OAllPar(1)>>
              \o <<OSetV(0, "DYN", DynVal(key \o <<30>>, cfg.nj), Plain(10 * cfg.nj), 1), OFile("osavereg", 0, "r2.yaml"), OFile("osavedyn", 0, "d2.yaml"), ReadIn("r2.yaml"), ReadIn("d2.yaml"),
                   OFileU("oloadreg", 1, "r2.yaml", 1), OAllPar(1), LoadF("loadreg", 0, "r2.yaml", 1), GetArgs(0, InArgs(cfg)),
                   ONewE(2, 1), OFileU("oloadconff", 2, "d2.yaml", 1), OGetE(2, <<"DYN", "REG", "Dl">>), LoadF("loadconff", 1, "d2.yaml", 1), GetArgs(1, InArgs(cfg)),
                   \* without friction
                   OSetV(0, "Dl", SomeZero(cfg, SizeOf(cfg, "Dl"), cfg.dlo, key \o <<31>>), Plain(SizeOf(cfg, "Dl")), 1), OFile("osavedyn", 0, "z.yaml"), ReadIn("z.yaml"), OFileU("oloadconff", 1, "z.yaml", 1), OAllPar(1),
                   LoadF("loadconff", 1, "z.yaml", 1), GetArgs(1, InArgs(cfg)), OFile("osavereg", 0, "z.yaml"), ReadIn("z.yaml"), OFile("osavepar", 0, "z.yaml"), ReadPar_("z.yaml"),
                   \* over an older file
                   OFile("osavepar", 1, "p.yaml"), ReadPar_("p.yaml"), OFile("osavereg", 1, "d.yaml"), ReadIn("d.yaml")>>
              \o <<GenFiles(1), ONewE(3, 1), OFileU("oloadconff", 3, "gen_conf.yaml", 1), OAllPar(3), ONewE(4, 1), OFileU("oloadreg", 4, "gen_reg.yaml", 1), OAllPar(4), ReadIn("gen_reg.yaml"),
                   [op |-> "newfile", s |-> 3, file |-> "gen_conf.yaml"], Fns(3), Info(3), GetArgs(3, AllArgs(cfg)), NewF(4, 1), LoadF("loadreg", 4, "gen_reg.yaml", 1), GetArgs(4, AllArgs(cfg))>>
              \o OSetEnv(cfg, 3, key \o <<40>>) \o <<OEvalE(3, <<"T_0_ee", "M", "G">>)>>)
  IN  SeqOf(T(12, 64), one)
Plan_C06(plan_) == LibC06(plan_) \o ObjC06(plan_)
Plan_C15(plan_) == LibC15(plan_) \o ObjC15(plan_)

---------------------------------------------------------------------------
(* C13: threads.  Scenario ids C13_g: schedules replayed through gates around the  *)
(* generated functions (a get_<f>() takes two turns); C13_s: free-running threads. *)
At(t, e) == e @@ ("t" :> t)
SchedE(o) == [op |-> "sched", order |-> o]
TEvalE(s, reps, fs) == [op |-> "teval", s |-> s, reps |-> reps, fs |-> fs]
TSetE(e, reps, as) == [op |-> "tset", s |-> e.s, a |-> e.a, v |-> e.v, k |-> e.k, upd |-> e.upd, reps |-> reps, as |-> as]
Races == [op |-> "races"]
Plan_C13(plan_) ==
  LET cfg1(i) == OCfgM(IF i % 3 = 1 THEN <<"R", "P_SEA", "R">> ELSE RandWord(1 + (i % 4), <<Seed, 13, i>>), <<Seed, 13, i, 1>>)
      cfg2(i) == OCfgM(RandWord(2 + (i % 2), <<Seed, 13, i, 2>>), <<Seed, 13, i, 3>>)
      cf(i, s) == IF s = 4 THEN cfg2(i) ELSE cfg1(i)     \* slots 1 2 3 of one class, 4 of another
      start(i) == FlatN(4, LAMBDA s : <<ONewE(s, IF s = 4 THEN 2 ELSE 1), FullLoad(cf(i, s), s, IF s = 4 THEN 2 ELSE 1, 1)>> \o OSetEnv(cf(i, s), s, <<Seed, 13, i, s, 4>>)
                           \o (IF s = 2 THEN <<OSetV(s, "DYN", DynVal(<<Seed, 13, i, 5>>, cf(i, s).nj), Plain(10 * cf(i, s).nj), 1)>> ELSE <<>>))
      two == SetToSeq(Interleavings(2, 4))
      three == SetToSeq(Interleavings(3, 2))
      gated(i) ==
        LET fs == AllFns(cfg1(i))
            f(m) == fs[1 + (m % Len(fs))]
            key == <<Seed, 13, i, 6>>
            g2 == AllFns(cfg2(i))
            \* two evaluations each, all interleavings; the second after new joint values
            pair(m) == <<SchedE(two[m])>> \o FlatN(2, LAMBDA t : <<At(t, OEvalE(t, <<f(m)>>)), At(t, OSetArgE(cfg1(i), t, "q", key \o <<m, t>>)), At(t, OSetArgE(cfg1(i), t, "dq", key \o <<m, t, 1>>)), At(t, OEvalE(t, <<f(m)>>))>>) \o <<Races>>
            triple(m) == <<SchedE(three[m])>> \o FlatN(3, LAMBDA t : <<At(t, OEvalE(t, <<f(m)>>))>>) \o <<Races>>
            \* every function: two threads compute, then both read; with equal and with different classes
            every(j) == <<SchedE(<<1, 2, 1, 2>>), At(1, OEvalE(1, <<fs[j]>>)), At(2, OEvalE(2, <<fs[j]>>)), SchedE(<<1, 4, 4, 1>>), At(1, OEvalE(1, <<fs[j]>>)), At(4, OEvalE(4, <<g2[1 + (j % Len(g2))]>>)), Races>>
            \* setters and files in the turns
            mixed(m) == LET o == SeqOf(12, LAMBDA j : 1 + Upto(key \o <<m, j, 9>>, 3)) IN <<SchedE(o)>> \o FlatN(3, LAMBDA t :
                <<At(t, OSetV(t, "DYN", DynVal(key \o <<m, t, 10>>, cfg1(i).nj), Plain(10 * cfg1(i).nj), 1)), At(t, OEvalE(t, <<"M", "G">>)), At(t, OLoad(t, 1, AllSecs(cfg1(i)), (m + t) % 2)),
                  At(t, OEvalE(t, <<"M">>)), At(t, OGetE(t, <<"DYN", "REG">>))>>) \o <<Races>>
        IN  Sc(Id("C13_g", i), <<cfg1(i), cfg2(i)>>, start(i) \o FlatN(Len(fs), every) \o FlatN(Len(two), pair) \o FlatN(Len(three), triple) \o FlatN(T(10, 60), mixed))
      free(i) ==
        LET fs == AllFns(cfg1(i))
            key == <<Seed, 13, i, 7>>
            reps == T(1500, 6000)
            all(m) == <<SchedE(<<>>)>> \o FlatN(4, LAMBDA s : LET n == AllFns(cf(i, s)) IN <<At(s, TEvalE(s, reps, SeqOf(6, LAMBDA j : n[1 + ((m * 6 + j) % Len(n))])))>>) \o <<Races>>
            inert(m) == FlatN(4, LAMBDA s : <<At(s, TSetE(OSetV(s, IF (m + s) % 2 = 0 THEN "DYN" ELSE "REG",
                            IF (m + s) % 2 = 0 THEN DynVal(key \o <<m, s, 1>>, cf(i, s).nj) ELSE RegVal(key \o <<m, s, 1>>, cf(i, s).nj), Plain(10 * cf(i, s).nj), 1), reps, <<"DYN", "REG">>)),
                            At(s, OEvalE(s, <<"M", "G">>))>>) \o <<Races>>
            \* objects made, copied and destroyed by their threads
            live(m) == FlatN(4, LAMBDA s : FlatN(6, LAMBDA j : <<At(s, ONewE(10 + s, IF s = 4 THEN 2 ELSE 1)), At(s, OAllPar(10 + s)), At(s, OCopyE(20 + s, s)), At(s, OE("oresize", 20 + s)), At(s, OCopyE(20 + s, s)), At(s, OEvalE(20 + s, <<"M", "G">>)),
                            At(s, OLoad(10 + s, IF s = 4 THEN 2 ELSE 1, AllSecs(cf(i, s)), j % 2)), At(s, OEvalE(10 + s, <<"M", "T_0_ee">>)), At(s, OE("odel", 10 + s)), At(s, OAllPar(20 + s))>>)) \o <<Races>>
            \* files of their own
            ffn(k, s) == k \o ToString(s) \o ".yaml"
            files(m) == FlatN(4, LAMBDA s : FlatN(8, LAMBDA j : LET c == cf(i, s) IN <<At(s, OSetV(s, "DYN", DynVal(key \o <<m, s, j, 2>>, c.nj), Plain(10 * c.nj), 1)), At(s, OFile("osavepar", s, ffn("p", s))), At(s, ReadPar_(ffn("p", s))),
                            At(s, OFile("osavereg", s, ffn("r", s))), At(s, OFile("osavedyn", s, ffn("d", s))), At(s, ReadIn(ffn("r", s))), At(s, ReadIn(ffn("d", s))),
                            At(s, OSetV(s, "DYN", DynVal(key \o <<m, s, j, 3>>, c.nj), Plain(10 * c.nj), 1)),
                            At(s, IF j % 2 = 0 THEN OFileU("oloadreg", s, ffn("r", s), (j \div 2) % 2) ELSE OFileU("oloadconff", s, ffn("d", s), (j \div 2) % 2)), At(s, OAllPar(s))>>)) \o <<Races>>
            args(m) == FlatN(4, LAMBDA s : <<At(s, OLoad(s, IF s = 4 THEN 2 ELSE 1, AllSecs(cf(i, s)), m % 2))>> \o FlatN(20, LAMBDA j : <<At(s, OSetArgE(cf(i, s), s, Pick(<<"q", "dq", "ddqr", "x">>, <<m, j>>), key \o <<m, j, s>>))>>
                            \o (IF j % 5 = 0 THEN <<At(s, TEvalE(s, 20, <<"M", "T_0_ee">>))>> ELSE <<>>)) \o <<At(s, OAllPar(s))>>) \o <<Races>>
        IN  Sc(Id("C13_s", i), <<cfg1(i), cfg2(i)>>, start(i) \o FlatN(T(2, 6), all) \o FlatN(T(2, 6), inert) \o FlatN(T(3, 12), args) \o FlatN(T(2, 8), live) \o FlatN(T(4, 16), files) \o <<OAllPar(1), OEvalE(1, fs), OEvalE(2, fs)>>)
  IN  SeqOf(T(3, 10), gated) \o SeqOf(T(3, 10), free)

---------------------------------------------------------------------------
(* C19: the Python module.                                                         *)
PyE(op, s, n) == [op |-> op, s |-> s, name |-> n]
PyNewE(s, ci, n) == PyE("pynew", s, n) @@ ("ci" :> ci)
PyNames == <<"rob", "arm2", "my_robot", "Franka_L", "x1", "gen", "thunder", "R_py">>
Plan_C19(plan_) ==
  LET one(i) ==
        LET key == <<Seed, 19, i>>
            w == RandWord(1 + (i % 4), key)
            cfg == IF i % 4 = 1 THEN OHistCfg(key) ELSE IF i = 8 THEN WithEnvFn(BigCfg(11, key)) ELSE WithEnvFn(OCfgM(w, key))
            cfgu == cfg
            n == PyNames[1 + ((i - 1) % Len(PyNames))]
            fs == AllFns(cfgu)
            see == <<OEvalE(0, fs), OAllPar(0)>>
            each == FlatN(Len(OEnvNames), LAMBDA j : <<OSetArgE(cfgu, 0, OEnvNames[j], key \o <<2, j>>), OEvalE(0, <<"T_0_ee", "M", "uenv", "Yr">>)>>)
                    \o FlatN(Len(OParNames), LAMBDA j : LET a == OParNames[j] IN
                        (IF a \in {"DYN", "REG"} THEN FlatN(2, LAMBDA u : <<OSetV(0, a, IF a = "DYN" THEN DynVal(key \o <<3, u>>, cfg.nj) ELSE RegVal(key \o <<3, u>>, cfg.nj), Plain(10 * cfg.nj), u - 1), OAllPar(0)>>)
                         ELSE <<OSetPar(cfgu, 0, a, 1, key \o <<4, j>>)>>) \o <<OAllPar(0)>>)
            files == <<OFile("osavepar", 0, "p.yaml"), ReadPar_("p.yaml"), OFile("osavereg", 0, "r.yaml"), ReadIn("r.yaml"), OFile("osavedyn", 0, "d.yaml"), ReadIn("d.yaml"),
                       OSetV(0, "DYN", DynVal(key \o <<6>>, cfg.nj), Plain(10 * cfg.nj), 1), OFileU("oloadreg", 0, "r.yaml", 0), OAllPar(0), OFileU("oloadreg", 0, "r.yaml", 1), OAllPar(0),
                       OSetV(0, "DYN", DynVal(key \o <<7>>, cfg.nj), Plain(10 * cfg.nj), 1), OFileU("oloadconff", 0, "d.yaml", 0), OAllPar(0), OFileU("oloadconff", 0, "d.yaml", 1), OAllPar(0)>>
            hist == FlatN(T(30, 150), LAMBDA m : LET o == Upto(key \o <<m, 1>>, OAlpha) IN
                      (IF o = 11 \/ (o \in {7, 8, 14, 15} /\ i % 4 # 1) THEN OSetEnv(cfgu, 0, key \o <<m, 2>>) ELSE OWord(cfgu, 0, o, key \o <<m, 3>>))
                      \o <<OEvalE(0, SeqOf(5, LAMBDA j : Pick(fs, key \o <<m, 4, j>>)))>> \o (IF m % 3 = 0 THEN <<OAllPar(0)>> ELSE <<>>))
        IN  Sc(Id("C19_", i), <<cfgu>>, <<PyNewE(0, 1, n), PyE("pymod", 0, n), PyE("pyinfo", 0, n), OAllPar(0), FullLoad(cfgu, 0, 1, 1)>> \o OSetEnv(cfgu, 0, key \o <<1>>) \o see
               \o each \o see \o files \o <<PyNewE(1, 1, n), OAllPar(1), OSetAllE(cfgu, 1, 0, key \o <<8>>), OEvalE(0, <<"T_0_ee", "M">>), OE("oresize", 1), OAllPar(1), FullLoad(cfgu, 1, 1, 0)>> \o OSetEnv(cfgu, 1, key \o <<1>>) \o <<OEvalE(1, <<"T_0_ee", "C">>)>> \o hist \o see)
  IN  SeqOf(T(8, 32), one)
=============================================================================
