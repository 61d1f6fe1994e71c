----------------------------- MODULE ScenState ------------------------------
(* Scenarios about the state of library robots: configuration files (C10),      *)
(* call histories (C17, C06), files (C15) and the rigid-body helpers (C18).     *)
EXTENDS Scen, Modules

Copy(s, from) == [op |-> "copy", s |-> s, from |-> from]
Del(s) == [op |-> "del", s |-> s]
NewF(s, ci) == [op |-> "newf", s |-> s, ci |-> ci]
NewB(s, ci) == [op |-> "newb", s |-> s, ci |-> ci]
SetVal(cfg, s, a, key) == Set(s, a, ArgVal(cfg, a, key), ArgKinds(cfg, a))
SetPar(cfg, s, a, v) == Set(s, a, v, Plain(Len(v)))
SaveF(op, s, f) == [op |-> op, s |-> s, file |-> f]
SaveL(op, s, f, as) == [op |-> op, s |-> s, file |-> f, as |-> as]
LoadF(op, s, f, u) == [op |-> op, s |-> s, file |-> f, upd |-> u]
LoadConf(s, ci, u) == [op |-> "loadconf", s |-> s, ci |-> ci, upd |-> u]
AddFn(s, n, x, args, ow) == [op |-> "addfn", s |-> s, u |-> [n |-> n, x |-> x, args |-> args], ow |-> ow]
\* every argument vector a robot of this configuration has
AllArgs(cfg) == <<"q", "dq", "ddq", "d3q", "dqr", "ddqr", "w">> \o (IF cfg.elastic THEN <<"x", "dx", "ddx", "ddxr">> ELSE <<>>)
                \o ParArgs(cfg) \o <<"par_REG">>

---------------------------------------------------------------------------
(* C10: configuration files                                                       *)
ConfFmt(key) == [RandFmt(key) EXCEPT !.noel = Upto(key \o <<21>>, 3), !.xlong = Upto(key \o <<22>>, 3), !.lname = Upto(key \o <<23>>, 2), !.xlinks = Upto(key \o <<24>>, 3)]
ConfOpt(w, key) == [FricOpt(w, key) EXCEPT !.fmt = ConfFmt(key \o <<31>>), !.zerograv = Flip(key \o <<32>>, 2, 3), !.zerobase = Flip(key \o <<33>>, 1, 3)]
SomeKinds == {"T0", "T0i", "M", "G", "C", "Yr", "dl", "Dlm", "k", "d", "dm", "Mm"}
NoTypes == <<"Px", "Rx", "r", "p", "S", "PP", "R_SEAx", "R_sea", "P_", "SEA", "Prismatic", "Revolute", "R P", " R", "RP_SEA", "0", "fixed", "">>
Bad(cfg, nj) == [cfg EXCEPT !.badnj = nj]
Plan_C10(plan_) ==
  LET ws == Words4 \o RandWords(T(<<4, 5, 6>>, FlatN(40, LAMBDA i : <<4, 5, 6, 7>>)), <<Seed, 10, 0>>)
      one(i) == LET cfg == MkCfg(ConfOpt(ws[i], <<Seed, 10, i>>), <<Seed, 10, i, 99>>) IN
        Sc(Id("C10_", i), <<cfg>>,
           <<New(0, 1), Fns(0), Info(0), GetArgs(0, AllArgs(cfg))>> \o SetAllArgs(cfg, 0, <<Seed, 10, i, 98>>)
           \o <<EvalE(0, Entries(cfg, LAMBDA f : f.k \in SomeKinds))>>
           \o <<NewF(1, 1), Info(1), Fns(1), GetArgs(1, AllArgs(cfg) \o <<"DYN!", "REG!">>), EvalE(1, <<"M", "T_0_ee">>)>>
           \o (IF i % 4 = 0 THEN <<NewB(2, 1), Info(2), Fns(2), GetArgs(2, AllArgs(cfg))>> ELSE <<>>))
      refuse(i) == LET n == 1 + (i % 3)
                       cfg == MkCfg([DefOpt EXCEPT !.types = RandWord(n, <<Seed, 10, 50, i>>)], <<Seed, 10, 51, i>>)
                       m == IF i % 4 = 0 THEN 3000000 ELSE IF i % 2 = 0 THEN n + 1 + (i % 7) ELSE n - 1
                   IN  Sc(Id("C10_bad", i), <<[cfg EXCEPT !.badnj = m]>>, <<[op |-> "newbad", s |-> 0, ci |-> 1]>>)
      \* joints of a type that does not exist
      refuseT(i) == LET n == 1 + (i % 3)
                        cfg == MkCfg([DefOpt EXCEPT !.types = RandWord(n, <<Seed, 10, 52, i>>)], <<Seed, 10, 53, i>>)
                        ts == [j \in 1..Len(NoTypes) |-> [cfg EXCEPT !.types[1 + Upto(<<Seed, 10, 54, i, j>>, n)] = NoTypes[j]]]
                    IN  Sc(Id("C10_badt", i), ts, [j \in 1..Len(ts) |-> [op |-> "newbad", s |-> 0, ci |-> j]])
      many(i) ==
        LET cfg == MkCfg(ConfOpt(RandWord(8 + i, <<Seed, 10, 60, i>>), <<Seed, 10, 61, i>>), <<Seed, 10, 62, i>>) IN
        Sc(Id("C10_m", i), <<cfg>>, <<NewF(0, 1), Info(0), GetArgs(0, AllArgs(cfg) \o <<"DYN!", "REG!">>), NewB(1, 1), Info(1), GetArgs(1, AllArgs(cfg))>>)
      \* several robots at once, of the same name, made and used in between each other
      some(i) ==
        LET key == <<Seed, 10, 70, i>>
            w(j) == IF i % 2 = 0 THEN RandWord(2, key) ELSE RandWord(1 + Upto(key \o <<j>>, 4), key \o <<j, 1>>)
            cs == SeqOf(3, LAMBDA j : MkCfg(ConfOpt(w(j), key \o <<j, 2>>), key \o <<j, 3>>))
            fs(j) == Entries(cs[j], LAMBDA f : f.k \in SomeKinds /\ Flip(key \o <<j, Len(f.n), f.i>>, 2, 3))
            use(j, m) == SetAllArgs(cs[j], j - 1, key \o <<j, m>>) \o <<EvalE(j - 1, fs(j)), Fns(j - 1)>>
        IN  Sc(Id("C10_s", i), cs, <<New(0, 1)>> \o use(1, 1) \o <<New(1, 2)>> \o use(2, 2) \o use(1, 3) \o <<New(2, 3)>> \o FlatN(3, LAMBDA j : SetSymb(cs[j], j - 1, key \o <<j, 4>>)) \o FlatN(3, LAMBDA j : use(j, 5))
              \o FlatN(3, LAMBDA j : <<Info(j - 1), GetArgs(j - 1, AllArgs(cs[j]))>>) \o <<New(0, 3), Fns(0), Info(0), Fns(2), EvalE(2, fs(3))>>)
  IN  SeqOf(T(6, 30), some) \o SeqOf(Len(ws), one) \o SeqOf(T(8, 16), refuse) \o SeqOf(T(3, 9), refuseT) \o SeqOf(T(8, 16), many)

---------------------------------------------------------------------------
(* C17: call histories.  Slot 0 is the robot; every word of three operations is   *)
(* applied to a fresh copy, which is then observed.                               *)
HistCfg(key) == MkCfg([DefOpt EXCEPT !.types = Pick(<< <<"R", "P_SEA">>, <<"P", "R_SEA">>, <<"R_SEA", "R">> >>, key), !.elastic = TRUE, !.dlo = 2, !.ko = 1, !.do = 1, !.dmo = 1,
                                   !.masks = [RandMasks(key \o <<1>>) EXCEPT !.dyn = 2, !.K = 1, !.Dl = 2]], key \o <<2>>)
HistFns == <<"T_0_ee", "M", "G", "dl", "k", "u1", "u2", "nothing">>
Alphabet == 15
\* a joint vector, then one next to it
Nudge(cfg, s, a, key) == <<Set(s, a, NearVal(ArgSize(cfg, a), 0, key), ArgKinds(cfg, a)), EvalE(s, <<"T_0_ee", "M">>), Set(s, a, NearVal(ArgSize(cfg, a), 1 + Upto(key \o <<2>>, 2), key), ArgKinds(cfg, a))>>
\* a vector of a size that must be refused: shorter, longer, a multiple, empty
WrongLen(n, key) == Pick(<<0, 1, n - 1, n + 1, 2 * n, n + 6, n \div 2>>, key)
WrongSet(s, a, n, key) == LET m0 == WrongLen(n, key \o <<76>>)
                              m == IF m0 = n \/ m0 < 0 THEN n + 3 ELSE m0
                          IN  Set(s, a, SeqOf(m, LAMBDA i : Pick(Rates, key \o <<i>>)), Plain(m))
Word3(cfg, s, o, key) ==
  CASE o = 0 -> <<SetVal(cfg, s, "q", key)>>
    [] o = 1 -> <<WrongSet(s, "q", cfg.nj, key)>>
    [] o = 2 -> <<SetVal(cfg, s, "dq", key)>>
    [] o = 3 -> <<WrongSet(s, Pick(<<"dq", "dqr", "ddqr">>, key), cfg.nj, key)>>
    [] o = 4 -> <<SetVal(cfg, s, "x", key)>>
    [] o = 5 -> <<WrongSet(s, Pick(<<"x", "dx", "ddx", "ddxr">>, key), Len(SeaIdx(cfg.types)), key)>>
    [] o = 6 -> SetSymb(cfg, s, key)
    [] o = 7 -> <<AddFn(s, "u1", "comp", <<"q", "dq">>, FALSE)>>
    [] o = 8 -> <<AddFn(s, "u1", "cst", <<"dq">>, TRUE)>>
    [] o = 9 -> <<AddFn(s, "M", "comp", <<"dq", "par_Dl", "q">>, TRUE)>>
    [] o = 10 -> <<AddFn(s, "M", "cst", <<"q">>, FALSE)>>
    [] o = 11 -> <<AddFn(s, "u2", "comp", <<"par_K", "x", "par_REG">>, FALSE)>>
    [] o = 12 -> <<Copy(50, s), SetVal(cfg, 50, "q", key \o <<1>>), AddFn(50, "G", "cst", <<"q">>, TRUE), EvalE(50, <<"G", "T_0_ee">>), EvalE(s, <<"G", "T_0_ee">>)>>
    [] o = 14 -> Nudge(cfg, s, IF Flip(key \o <<3>>, 2, 3) THEN "q" ELSE "dq", key)
    [] OTHER -> <<SetVal(cfg, s, "dqr", key), SetVal(cfg, s, "ddqr", key \o <<1>>), EvalE(s, <<"Yr", "unknown">>)>>
Observe(cfg, s) == <<EvalE(s, HistFns), GetArgs(s, <<"q", "dq", "dqr", "ddqr", "x", "dx", "par_Dl", "par_K", "par_DYN", "par_REG">>)>>
Plan_C17(plan_) ==
  LET exh(d, a) ==     \* all words d starting with letter a: length 3 (every depth-3 history)
        LET key == <<Seed, 17, a>>
            cfg == HistCfg(key)
        IN  Sc(Id("C17_w", a), <<cfg>>, <<New(0, 1), EvalE(0, HistFns)>> \o FlatN(Alphabet * Alphabet, LAMBDA m :
              LET b == (m - 1) \div Alphabet
                  e == (m - 1) % Alphabet
                  s == 1 + (m % 40)
              IN  <<Copy(s, 0)>> \o Word3(cfg, s, a - 1, <<Seed, a, b, e, 1>>) \o Word3(cfg, s, b, <<Seed, a, b, e, 2>>) \o Word3(cfg, s, e, <<Seed, a, b, e, 3>>)
                  \o (IF m % 3 = 0 THEN Observe(cfg, s) ELSE <<EvalE(s, <<"T_0_ee", "M", "k", "u1">>)>>) \o (IF m % 7 = 0 THEN <<Fns(s)>> ELSE <<>>)))
      long(i) ==
        LET key == <<Seed, 17, 90, i>>
            w == RandWord(2 + (i % 4), key)
            cfg == IF i % 2 = 0 THEN HistCfg(key) ELSE MkCfg(Opt(w, key), key)
            ok(o) == cfg.elastic \/ o \notin {4, 5, 11}
            lets == SelectSeq([j \in 1..Alphabet |-> j - 1], LAMBDA o : IF o = 9 THEN cfg.dlo > 0 ELSE IF o = 11 THEN cfg.elastic /\ cfg.ko > 0 ELSE IF o \in {4, 5} THEN cfg.elastic ELSE TRUE)
            fs == SelectSeq(HistFns, LAMBDA f : (f \in {"dl"} => cfg.dlo > 0) /\ (f = "k" => cfg.ko > 0 /\ cfg.elastic))
        IN  Sc(Id("C17_l", i), <<cfg>>, <<New(0, 1), New(1, 1), Copy(2, 0)>> \o FlatN(T(25, 60), LAMBDA m :
              LET s == Upto(key \o <<m>>, 3) IN
              Word3(cfg, s, Pick(lets, key \o <<m, 1>>), key \o <<m, 2>>)
              \o (IF m % 5 = 0 THEN <<Copy((s + 1) % 3, s)>> ELSE <<>>)
              \o <<EvalE((s + (m % 2)) % 3, fs)>>
              \o (IF m % 6 = 0 THEN <<Fns(s), Info(s), GetArgs(s, AllArgs(cfg)), Del(s), Copy(s, (s + 1) % 3)>> ELSE <<>>)))
  IN  SeqOf(Alphabet, LAMBDA a : exh(3, a)) \o SeqOf(T(6, 60), long)

---------------------------------------------------------------------------
(* C06, library side: histories of the two inertial sets.                         *)
InCfg(key, n) == MkCfg([DefOpt EXCEPT !.types = RandWord(n, key \o <<5>>), !.dlo = Upto(key \o <<6>>, 3)], key \o <<7>>)
InAlphabet == 9
\* new inertial values, or values that a robot may have already
SomeDyn(cfg, key) == LET o == Upto(key \o <<31>>, 6) IN IF o >= 4 THEN BodiesVal(2, key, cfg.nj) ELSE IF o = 0 THEN cfg.dyn ELSE IF o = 1 THEN DynVal(<<31>>, cfg.nj) ELSE DynVal(key, cfg.nj)
SomeReg(cfg, key) == RegStr(SomeDyn(cfg, key \o <<32>>))
InOp(cfg, s, o, key) ==
  CASE o = 0 -> <<SetPar(cfg, s, "par_DYN", SomeDyn(cfg, key))>>
    [] o = 1 -> <<SetPar(cfg, s, "par_REG", SomeReg(cfg, key))>>
    [] o = 2 -> <<WrongSet(s, "par_DYN", 10 * cfg.nj, key)>>
    [] o = 3 -> <<IF Flip(key \o <<77>>, 1, 3) THEN SetPar(cfg, s, "par_REG", Tail(RegVal(key, cfg.nj))) ELSE WrongSet(s, "par_REG", 10 * cfg.nj, key)>>
    [] o = 4 -> <<LoadConf(s, 2, 1)>>
    [] o = 5 -> <<LoadConf(s, 1, 0)>>
    [] o = 6 -> <<LoadF("loadreg", s, "r1.yaml", 1)>>
    [] o = 7 -> <<LoadF("loadreg", s, "r1.yaml", 0)>>
    [] OTHER -> <<SetArg(s, "par_REG", RegVal(key, cfg.nj), Plain(10 * cfg.nj))>>
BothSets(s) == GetArgs(s, <<"DYN!", "REG!", "par_DYN", "par_REG">>)
LibC06(plan_) ==
  LET exh(a) ==
        LET key == <<Seed, 6, a>>
            c1 == InCfg(key, 1 + (a % 2))
            c2 == [MkCfg([DefOpt EXCEPT !.types = c1.types, !.dlo = c1.dlo], key \o <<8>>) EXCEPT !.name = "rob"]
        IN  Sc(Id("C06_w", a), <<c1, c2>>, <<NewF(0, 1), SetPar(c1, 0, "par_REG", RegVal(key \o <<9>>, c1.nj)), SaveF("savereg", 0, "r1.yaml"), BothSets(0), NewF(0, 1)>>
              \o FlatN(InAlphabet * InAlphabet, LAMBDA m :
                LET b == (m - 1) \div InAlphabet
                    e == (m - 1) % InAlphabet IN
                <<Copy(1, 0)>> \o InOp(c1, 1, a - 1, <<Seed, 6, a, m, 1>>) \o <<BothSets(1)>> \o InOp(c1, 1, b, <<Seed, 6, a, m, 2>>) \o <<BothSets(1)>>
                  \o InOp(c1, 1, e, <<Seed, 6, a, m, 3>>) \o <<BothSets(1), BothSets(0)>>))
      \* robots with functions: the DYN vector holds the symbolic entries
      comp(i) ==
        LET key == <<Seed, 6, 60, i>>
            cfg == MkCfg([Opt(RandWord(1 + (i % 4), key), key) EXCEPT !.masks = [RandMasks(key) EXCEPT !.dyn = i % 6]], key)
        IN  Sc(Id("C06_c", i), <<cfg>>, <<New(0, 1), BothSets(0)>> \o FlatN(4, LAMBDA m :
                SetAllArgs(cfg, 0, key \o <<m>>) \o <<SetPar(cfg, 0, "par_REG", RegVal(key \o <<m, 1>>, cfg.nj)), BothSets(0), EvalE(0, <<"M", "G">>)>>)
              \o (IF i % 6 = 1 THEN <<SetPar(cfg, 0, "par_DYN", DynVal(key \o <<9>>, cfg.nj)), BothSets(0), EvalE(0, <<"M", "G">>),
                                      SetPar(cfg, 0, "par_DYN", DynVal(key \o <<9>>, cfg.nj + 1)), BothSets(0)>> ELSE <<>>))
  IN  SeqOf(InAlphabet, exh) \o SeqOf(T(12, 60), comp)

---------------------------------------------------------------------------
(* C15, library side: files.                                                      *)
Wild == <<"1e-12", "-3e-9", "123456789.125", "0", "-1e12", "3.0000000000000004", "0.1", "-7.25e-300", "1e300", "1/3", "-22/7", "2.5e-8", "65536.0625">>
WildVal(key, n) == SeqOf(n, LAMBDA i : Pick(Wild, key \o <<i>>))
\* parameter vectors of a robot with functions have the symbolic entries only
VecLen(cfg, a, comp) == IF a = "par_REG" THEN 10 * cfg.nj
                        ELSE IF IsParArg(a) THEN (IF comp THEN Len(Ones(ParMask(cfg, ParOf(a)))) ELSE Len(ParVal(cfg, ParOf(a)))) ELSE ArgSize(cfg, a)
\* values that are not angles
WildArg(cfg, s, a, comp, key) == SetArg(s, a, WildVal(key, VecLen(cfg, a, comp)), Plain(VecLen(cfg, a, comp)))
Plainable(cfg, comp) == SelectSeq(AllArgs(cfg), LAMBDA a : a \notin {"par_DHtable", "par_world2L0", "par_Ln2EE", "q"} /\ VecLen(cfg, a, comp) > 0)
Angled(cfg, comp) == SelectSeq(<<"par_DHtable", "par_world2L0", "par_Ln2EE", "q">>, LAMBDA a : VecLen(cfg, a, comp) > 0)
Several(cfg, comp, key) == SelectSeq(Plainable(cfg, comp) \o Angled(cfg, comp), LAMBDA a : Flip(key \o <<Len(a)>>, 1, 2))
LibC15(plan_) ==
  LET one(i) ==
        LET key == <<Seed, 15, i>>
            comp == i % 2 = 0
            cfg == MkCfg([Opt(RandWord(1 + (i % 5), key), key) EXCEPT !.fmt.nograv = i % 3, !.zerograv = i % 4 = 0], key)
            new(s) == IF comp THEN New(s, 1) ELSE NewF(s, 1)
            wild(s, r) == LET p == Plainable(cfg, comp) IN SeqOf(Len(p), LAMBDA j : WildArg(cfg, s, p[j], comp, key \o <<r, j>>))
            l1 == Several(cfg, comp, key \o <<1>>)
            l2 == Several(cfg, comp, key \o <<2>>)
        IN  Sc(Id("C15_p", i), <<cfg>>,
               <<new(0), new(1)>> \o wild(0, 1) \o <<SaveL("savepar", 0, "a.yaml", l1)>> \o wild(0, 2) \o <<SaveL("savepar", 0, "b.yaml", l2), [op |-> "readpar", file |-> "a.yaml"], [op |-> "readpar", file |-> "b.yaml"],
                 LoadF("loadpar", 1, "a.yaml", 1) @@ [as |-> <<>>], GetArgs(1, AllArgs(cfg)), GetArgs(0, AllArgs(cfg)),
                 SaveL("savepar", 1, "c.yaml", AllArgs(cfg)), LoadF("loadpar", 1, "b.yaml", 1) @@ [as |-> l2], GetArgs(1, AllArgs(cfg))>>
               \o (IF l1 = <<>> THEN <<>> ELSE <<LoadF("loadpar", 0, "c.yaml", 1) @@ [as |-> <<Pick(l1, key)>>], GetArgs(0, AllArgs(cfg))>>)
               \* over older files
               \o wild(0, 3) \o <<SaveL("savepar", 0, "a.yaml", l2), [op |-> "readpar", file |-> "a.yaml"], LoadF("loadpar", 1, "a.yaml", 1) @@ [as |-> <<>>], GetArgs(1, AllArgs(cfg)),
                   SaveF("saveconf", 0, "b.yaml"), [op |-> "newfile", s |-> 5, file |-> "b.yaml"], Info(5), Fns(5), GetArgs(5, AllArgs(cfg)),
                   SaveF("savereg", 0, "b.yaml"), [op |-> "readin", file |-> "b.yaml"], SaveL("savepar", 0, "b.yaml", l1), [op |-> "readpar", file |-> "b.yaml"], SaveF("savereg", 0, "a.yaml"), [op |-> "readin", file |-> "a.yaml"]>>
               \o <<SaveF("saveconf", 0, "conf.yaml"), [op |-> "newfile", s |-> 2, file |-> "conf.yaml"], Fns(2), Info(2), GetArgs(2, AllArgs(cfg)), EvalE(2, <<"T_0_ee", "M", "G">>),
                   SaveF("savereg", 0, "reg.yaml"), [op |-> "readin", file |-> "reg.yaml"], NewF(3, 1), LoadF("loadreg", 3, "reg.yaml", 0), GetArgs(3, AllArgs(cfg)),
                   GetArgs(1, AllArgs(cfg)),
                   [op |-> "geninertial", nj |-> cfg.nj, ci |-> 1, dynfile |-> "gd.yaml", regfile |-> "gr.yaml"],
                   [op |-> "readin", file |-> "gd.yaml"], [op |-> "readin", file |-> "gr.yaml"],
                   LoadF("loadreg", 3, "gr.yaml", 1), GetArgs(3, AllArgs(cfg)),
                   NewF(4, 1), SetPar(cfg, 4, "par_DYN", DynVal(key \o <<44>>, cfg.nj)), LoadF("loadconff", 4, "gd.yaml", 1), GetArgs(4, <<"par_DYN", "par_REG">> \o (IF cfg.dlo > 0 THEN <<"par_Dl">> ELSE <<>>))>>)
      \* REG files of physically meaningful values, converted on loading
      reg(i) ==
        LET key == <<Seed, 15, 70, i>>
            cfg == MkCfg([Opt(RandWord(1 + (i % 6), key), key) EXCEPT !.masks.dyn = i % 6], key)
        IN  Sc(Id("C15_r", i), <<cfg>>, <<NewF(0, 1), NewF(1, 1), SetPar(cfg, 0, "par_REG", RegVal(key, cfg.nj)), SaveF("savereg", 0, "r.yaml"), LoadF("loadreg", 1, "r.yaml", 1), GetArgs(1, AllArgs(cfg)),
               SetPar(cfg, 1, "par_DYN", DynVal(key, cfg.nj)), LoadF("loadreg", 1, "r.yaml", 0), GetArgs(1, AllArgs(cfg)), New(2, 1), LoadF("loadreg", 2, "r.yaml", 0), GetArgs(2, AllArgs(cfg))>>)
      \* robots with ten links and more
      many(i) ==
        LET key == <<Seed, 15, 80, i>>
            cfg == MkCfg(Opt(RandWord(9 + i, key), key), key)
        IN  Sc(Id("C15_m", i), <<cfg>>, <<NewF(0, 1), NewF(1, 1), SetPar(cfg, 0, "par_REG", RegVal(key, cfg.nj)), SaveF("savereg", 0, "r.yaml"), [op |-> "readin", file |-> "r.yaml"], LoadF("loadreg", 1, "r.yaml", 1), GetArgs(1, AllArgs(cfg)),
               SaveL("savepar", 0, "p.yaml", AllArgs(cfg)), [op |-> "readpar", file |-> "p.yaml"], NewF(1, 1), LoadF("loadpar", 1, "p.yaml", 1) @@ [as |-> <<>>], GetArgs(1, AllArgs(cfg)),
               [op |-> "geninertial", nj |-> cfg.nj, ci |-> 1, dynfile |-> "gd.yaml", regfile |-> "gr.yaml"], [op |-> "readin", file |-> "gd.yaml"], [op |-> "readin", file |-> "gr.yaml"],
               NewF(2, 1), LoadF("loadreg", 2, "gr.yaml", 1), GetArgs(2, AllArgs(cfg)), SetPar(cfg, 2, "par_DYN", DynVal(key \o <<44>>, cfg.nj)), LoadF("loadconff", 2, "gd.yaml", 1), GetArgs(2, <<"par_DYN", "par_REG">>)>>)
  IN  SeqOf(T(20, 120), one) \o SeqOf(T(8, 40), reg) \o SeqOf(T(4, 12), many)

---------------------------------------------------------------------------
(* C18: rotations, frames, bodies.                                                *)
PureE(fn, args) == [op |-> "pure", fn |-> fn, args |-> args]
AV(v) == [v |-> v, k |-> Plain(Len(v))]
AA(v) == [v |-> v, k |-> [i \in 1..Len(v) |-> 1]]
Batch(p, n, per, Op(_)) == SeqOf((n + per - 1) \div per, LAMBDA b : Sc(Id(p, b), <<>>, SeqOf(IF b * per <= n THEN per ELSE n - (b - 1) * per, LAMBDA j : Op((b - 1) * per + j))))
Ang3(m) == LET d == Digits(m - 1, Len(AngT), 3) IN [i \in 1..3 |-> AngT[d[i] + 1]]
RandAng3(key) == SeqOf(3, LAMBDA i : AnAngle(IF Flip(key \o <<i, 9>>, 1, 2) THEN AngT ELSE GenT, key \o <<i>>))
V3Of(key) == SeqOf(3, LAMBDA i : Pick(Lengths, key \o <<i>>))
BodyOf(key) == [v |-> BodyVal(Upto(key \o <<60>>, NBody), key) \o RandAng3(key \o <<50>>), k |-> Plain(10) \o <<1, 1, 1>>]
\* bodies for merge have their inertia in link axes
BodyAx(kind, key) == [v |-> BodyVal(kind, key) \o <<"0", "0", "0">>, k |-> Plain(13)]
\* histories of frame objects: every constructor, then setters, copies and all getters
FCon(s, how, key) == [op |-> "fcon", s |-> s, how |-> how, y |-> RandAng3(key \o <<1>>), p |-> V3Of(key \o <<2>>), g |-> SeqOf(3, LAMBDA i : Pick(Gravs, key \o <<3, i>>))]
FSetE(s, a, key) == [op |-> "fset", s |-> s, a |-> a, v |-> IF a = "ypr" THEN RandAng3(key) ELSE IF a = "tr" THEN V3Of(key) ELSE SeqOf(3, LAMBDA i : Pick(Gravs, key \o <<i>>)), k |-> IF a = "ypr" THEN <<1, 1, 1>> ELSE <<0, 0, 0>>]
FGet(s) == [op |-> "fget", s |-> s]
FStep(o, key) == CASE o < 3 -> <<FSetE(0, <<"ypr", "tr", "g">>[o + 1], key)>> [] o = 3 -> <<[op |-> "fcopy", s |-> 0, from |-> 1]>>
                   [] o = 4 -> <<FSetE(1, Pick(<<"ypr", "tr", "g">>, key), key)>> [] OTHER -> <<FCon(0, Pick(<<0, 2, 3>>, key), key)>>
FrameHist(i) ==
  LET key == <<Seed, 18, 30, i>> IN
  Sc(Id("C18_fh", i), <<>>, FlatN(36, LAMBDA m : <<FCon(0, Pick(<<0, 2, 3>>, key \o <<m, 1>>), key \o <<m, 2>>), FCon(1, 3, key \o <<m, 3>>), FGet(0)>>
     \o FStep((m - 1) % 6, key \o <<m, 4>>) \o <<FGet(0)>> \o FStep((m - 1) \div 6, key \o <<m, 5>>) \o <<FGet(0), FGet(1)>>
     \o (IF m % 6 = 0 THEN LET n1 == Upto(key \o <<m, 6>>, 5)
                               n2 == IF n1 = 3 THEN 4 ELSE Upto(key \o <<m, 7>>, 5)
                               n3 == IF n1 = 3 \/ n2 = 3 THEN Upto(key \o <<m, 8>>, 5) ELSE 3
                               h == IF n1 = 3 /\ n2 = 3 THEN 3 ELSE Pick(<<2, 3>>, key \o <<m, 9>>) IN
                           <<[op |-> "fbad", how |-> h, y |-> Zeros(n1), p |-> Zeros(n2), g |-> Zeros(n3)]>> ELSE <<>>)))
LibC18(plan_) ==
  LET na == Len(AngT) IN
  SeqOf(T(4, 40), FrameHist) \o
  Batch("C18_rpy", na * na * na, 200, LAMBDA m : PureE("rpy", <<AA(Ang3(m))>>))
  \o Batch("C18_frame", T(400, 4000), 100, LAMBDA m : PureE("frame", <<AV(V3Of(<<Seed, 18, 1, m>>)), AA(RandAng3(<<Seed, 18, 2, m>>))>>))
  \o Batch("C18_hat", T(60, 200), 60, LAMBDA m : PureE("hat", <<AV(V3Of(<<Seed, 18, 3, m>>))>>))
  \o Batch("C18_crI", T(60, 200), 60, LAMBDA m : PureE("createI", <<AV(SubSeq(BodyOf(<<Seed, 18, 4, m>>).v, 5, 10))>>))
  \o Batch("C18_tr", T(400, 4000), 50, LAMBDA m : PureE("transform", <<AV(V3Of(<<Seed, 18, 5, m>>)), AA(RandAng3(<<Seed, 18, 6, m>>)), BodyOf(<<Seed, 18, 7, m>>)>>))
  \o Batch("C18_mrg", T(400, 4000), 50, LAMBDA m :
        LET i == (m + 1) \div 2
            ka == IF i % 2 = 0 THEN 9 ELSE Upto(<<Seed, 18, 8, i, 60>>, NBody)
            kb == LET k == IF i % 4 = 0 THEN 9 ELSE Upto(<<Seed, 18, 9, i, 60>>, NBody) IN IF ka \in Massless /\ k \in Massless THEN 1 ELSE k     \* one of them has mass
            a == BodyAx(ka, <<Seed, 18, 8, i>>)
            b == BodyAx(kb, <<Seed, 18, 9, i>>)
        IN  PureE("merge", IF m % 2 = 0 THEN <<a, b>> ELSE <<b, a>>))
  \o SeqOf(T(12, 60), LAMBDA i :
       LET key == <<Seed, 18, 20, i>>
           cfg == MkCfg(Opt(RandWord(1 + (i % 7), key), key), key)
       IN  Sc(Id("C18_gen", i), <<cfg>>, <<[op |-> "geninertial", nj |-> cfg.nj, ci |-> 1, dynfile |-> "gd.yaml", regfile |-> "gr.yaml"],
                  [op |-> "readin", file |-> "gd.yaml"], [op |-> "readin", file |-> "gr.yaml"]>>))
---------------------------------------------------------------------------
(* C21: models computed part by part, in any order                                *)
Mod(s, m) == [op |-> "mod", s |-> s, m |-> m]
\* a full value for a parameter of a robot without functions
SetFull(cfg, s, p, key) == LET v == ParNew(cfg, p, key) IN SetArg(s, "par_" \o p, v, [i \in 1..Len(v) |-> IF IsAngle(p, i) THEN 1 ELSE 0])
\* another order of a sequence
RECURSIVE Shuffled(_, _)
Shuffled(q, key) == IF Len(q) < 2 THEN q ELSE LET i == 1 + Upto(key \o <<Len(q)>>, Len(q)) IN <<q[i]>> \o Shuffled(SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q)), key)
Coarse == <<"kin0", "kin1", "dyn0", "dyn1", "reg0", "reg1">>
ModOpt(w, key) == [FricOpt(w, key) EXCEPT !.masks = IF Flip(key \o <<41>>, 1, 4) THEN AllMasks(1) ELSE RandMasks(key \o <<42>>), !.fmt = RandFmt(key \o <<43>>)]
Before(cfg, key) ==       \* what may happen before the symbolic entries are selected
  CASE Upto(key, 6) = 0 -> <<SetPar(cfg, 0, "par_DYN", MassVal(key, cfg.nj))>> [] Upto(key, 6) = 1 -> <<SetPar(cfg, 0, "par_REG", RegVal(key, cfg.nj))>>
    [] Upto(key, 6) = 2 -> <<LoadConf(0, 2, 1)>> [] Upto(key, 6) = 3 -> <<SetFull(cfg, 0, "world2L0", key), SetFull(cfg, 0, "gravity", key)>>
    [] Upto(key, 6) = 4 -> <<SetFull(cfg, 0, "DHtable", key), SetVal(cfg, 0, "q", key)>> [] OTHER -> <<>>
Finish(cfg, s, key) ==    \* complete the robot and look at everything
  <<Mod(s, "update"), Fns(s), GetArgs(s, AllArgs(cfg))>> \o SetAllArgs(cfg, s, key) \o <<EvalE(s, FnNames(cfg) \o <<"uf1">>)>>
  \o SetSymb(cfg, s, key \o <<1>>) \o <<EvalE(s, Entries(cfg, LAMBDA f : Flip(key \o <<f.i, Len(f.n)>>, 1, 3)))>>
\* the example function of the repository, with its q0 in the file
Example(cfg, key) == [n |-> "q0_dist", x |-> "dist", args |-> <<"q">>, q0 |-> SeqOf(cfg.nj, LAMBDA i : Pick(<<"0", "1", "-2", "0.5", "-0.25", "1.75">>, key \o <<i>>))]
Plan_C21(plan_) ==
  LET kinds == T(<<1, 1, 2, 2, 2, 2, 2, 3, 3, 3, 4, 5>>, FlatN(9, LAMBDA i : <<1, 2, 2, 3, 3, 4, 5>>))
      \* all orders of the three parts, then mixtures of single calls
      one(i) ==
        LET key == <<Seed, 21, i>>
            w == RandWord(kinds[1 + (i % Len(kinds))], key)
            o == ModOpt(w, key)
            c0 == MkCfg(o, key \o <<1>>)
            c1 == [c0 EXCEPT !.ufs = IF i % 6 = 3 THEN <<Example(c0, key \o <<12>>)>> ELSE IF i % 3 = 0 THEN <<[n |-> "uf1", x |-> "lin", args |-> <<"dq", "q">>]>> ELSE <<>>]
            c2 == MkCfg([o EXCEPT !.masks = RandMasks(key \o <<2>>)], key \o <<3>>)
            calls == IF i % 3 = 1 THEN SeqOf(1 + Upto(key \o <<4>>, 4), LAMBDA j : Pick(Coarse, key \o <<5, j>>))
                     ELSE IF i % 3 = 2 THEN SeqOf(1 + Upto(key \o <<4>>, 7), LAMBDA j : Pick(ModCalls, key \o <<5, j>>))
                     ELSE Shuffled(<<"kin1", "dyn1", "reg1", "user">> \o IF i % 2 = 0 THEN <<"kin0", "dyn0">> ELSE <<>>, key)
            cut == Upto(key \o <<6>>, Len(calls) + 1)
        IN  Sc(Id("C21_", i), <<c1, c2>>, <<NewF(0, 1)>> \o Before(c1, key \o <<7>>) \o Before(c1, key \o <<8>>) \o <<Mod(0, "select")>>
              \o FlatN(cut, LAMBDA j : <<Mod(0, calls[j]), Fns(0)>>) \o <<Copy(1, 0)>> \o FlatN(Len(calls) - cut, LAMBDA j : <<Mod(0, calls[cut + j]), Fns(0)>>)
              \o Finish(c1, 0, key \o <<9>>) \o (IF i % 4 = 0 THEN <<Mod(1, Pick(ModCalls, key \o <<10>>))>> ELSE <<>>) \o Finish(c1, 1, key \o <<11>>)
              \o <<New(2, 1), Fns(2)>>)
      \* two robots of the same name, their parts computed in between each other
      two(i) ==
        LET key == <<Seed, 21, 80, i>>
            w(j) == IF i % 2 = 0 THEN RandWord(2, key) ELSE RandWord(1 + Upto(key \o <<j>>, 3), key \o <<j, 1>>)
            cs == SeqOf(2, LAMBDA j : MkCfg(ModOpt(w(j), key \o <<j, 2>>), key \o <<j, 3>>))
        IN  Sc(Id("C21_t", i), cs, <<NewF(0, 1), NewF(1, 2)>> \o <<Mod(0, "select"), Mod(1, "select")>>
              \o FlatN(6, LAMBDA j : <<Mod((j + i) % 2, IF j > 4 THEN Pick(ModCalls, key \o <<4, j>>) ELSE Coarse[1 + Upto(key \o <<5, j>>, Len(Coarse))]), Fns((j + i) % 2)>>)
              \o Finish(cs[1], 0, key \o <<9>>) \o Finish(cs[2], 1, key \o <<10>>) \o <<Fns(0)>>)
  IN  SeqOf(T(36, 200), one) \o SeqOf(T(8, 60), two)
=============================================================================
