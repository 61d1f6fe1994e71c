-------------------------------- MODULE Scen --------------------------------
(* Scenarios (behaviours of the specification to be run on the code), per       *)
(* property.  Every choice is a function of VERIF_SEED.                         *)
EXTENDS Gen, Json, IOUtils

Seed == atoi(IOEnv.VERIF_SEED)
Thorough == IOEnv.VERIF_TIER = "thorough"
\* a number that depends on the tier
T(q, t) == IF Thorough THEN t ELSE q
Sc(id, cfgs, ev) == [id |-> id, cfgs |-> cfgs, ev |-> ev]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
FlatN(n, Op(_)) == Flat(SeqOf(n, Op))
Id(p, i) == p \o ToString(i)

(* A family of chain structures: every word over R, P up to length 3, then      *)
(* random words (with elastic joints) of the given lengths.                     *)
WordsUpTo3 == FlatN(3, LAMBDA n : SeqOf(2 ^ n, LAMBDA m : TypeWord(m - 1, n)))
RandWord(n, key) == SeqOf(n, LAMBDA i : IF Flip(key \o <<i>>, 2, 3) THEN Pick(<<"R", "P">>, key \o <<i, 1>>) ELSE Pick(<<"R_SEA", "P_SEA", "R", "P">>, key \o <<i, 2>>))
RandWords(lens, key) == SeqOf(Len(lens), LAMBDA i : RandWord(lens[i], key \o <<i>>))
\* options of configuration i of a family: everything else varied at random
HasSea(w) == \E i \in 1..Len(w) : IsSEA(w[i])
FrameMode(key) == IF Flip(key, 1, 2) THEN 0 ELSE Pick(<<1, 1, 2, 3, 4>>, key \o <<1>>)
\* an order below n, now and then a high one
Order(n, key) == IF Flip(key \o <<1>>, 1, 10) THEN 5 + Upto(key \o <<2>>, 8) ELSE Upto(key, n)
Opt(w, key) ==
  LET el == HasSea(w) /\ Flip(key \o <<1>>, 3, 4) IN
  [DefOpt EXCEPT !.types = w, !.elastic = el, !.dlo = Order(4, key \o <<2>>),
                 !.ko = Order(4, key \o <<3>>), !.do = Order(4, key \o <<4>>), !.dmo = Order(4, key \o <<5>>),
                 !.masks = RandMasks(key \o <<6>>),
                 !.ang = IF Flip(key \o <<7>>, 1, 2) THEN AngT ELSE IF Flip(key \o <<7, 1>>, 1, 2) THEN GenT ELSE NearT,
                 !.zerograv = Flip(key \o <<8>>, 1, 6), !.zerobase = Flip(key \o <<9>>, 1, 6), !.fmt = RandFmt(key \o <<10>>),
                 !.bodies = IF Flip(key \o <<11>>, 1, 2) THEN 2 ELSE 0, !.tiny = IF Flip(key \o <<12>>, 1, 5) THEN 1 ELSE 0,
                 !.bframe = FrameMode(key \o <<13>>), !.eframe = FrameMode(key \o <<14>>)]

Entries(cfg, Pr(_)) == LET c == SelectSeq(Catalogue(cfg), Pr) IN [i \in 1..Len(c) |-> c[i].n]
\* build the robot, then rounds: joint vectors (and, from round 2, new symbolic parameters), evaluation
Rounds(cfg, fs, key, rounds) ==
  <<New(0, 1)>> \o FlatN(rounds, LAMBDA r : (IF r > 1 THEN SetSymb(cfg, 0, key \o <<r, 2>>) ELSE <<>>)
                                              \o SetAllArgs(cfg, 0, key \o <<r, 1>>) \o <<EvalE(0, fs)>>)
\* one scenario per option record; Pr chooses the functions to evaluate
Family(p, opts, Pr(_), key, rounds) ==
  SeqOf(Len(opts), LAMBDA i : LET cfg == MkCfg([opts[i] EXCEPT !.bodies = IF @ = 2 THEN 1 ELSE @], key \o <<i, 99>>) IN
      Sc(Id(p, i), <<cfg>>, Rounds(cfg, Entries(cfg, Pr), key \o <<i, 98>>, rounds)))
OptsFor(words, key) == SeqOf(Len(words), LAMBDA i : Opt(words[i], key \o <<i>>))
\* every pair of shapes of the frames at both ends, fixed or partly symbolic
FrameOpts(key) == SeqOf(25, LAMBDA i : [Opt(RandWord(1 + (i % 2), key \o <<i>>), key \o <<i>>) EXCEPT !.bframe = (i - 1) % 5, !.eframe = (i - 1) \div 5, !.zerobase = FALSE,
                                         !.masks.base = IF i % 3 = 2 THEN @ ELSE 0, !.masks.ee = IF i % 4 = 3 THEN @ ELSE 0])
\* chains of one kind of bodies each, with and without symbolic ones
KindOpts(key) == SeqOf(21, LAMBDA i : [Opt(<<"R", IF i % 2 = 0 THEN "R" ELSE "P">>, key \o <<i>>) EXCEPT !.bodies = 10 + ((i - 1) \div 3), !.zerograv = FALSE, !.masks.dyn = i % 3])
\* lengths of random chains: q per quick run of each length in 1..m, thorough: t of each
Lens(m, q, t) == FlatN(m, LAMBDA n : SeqOf(T(q, t), LAMBDA j : n))
Sized(m, q, t, key) == WordsUpTo3 \o RandWords(Lens(m, q, t), key)

Plan_C01(plan_) == Family("C01_", OptsFor(Sized(6, 8, 60, <<Seed, 1, 0>>) \o RandWords(T(<<8, 11>>, <<7,8,9,10,11,12,13>>), <<Seed, 1, 1>>), <<Seed, 1>>) \o FrameOpts(<<Seed, 1, 7>>),
                   LAMBDA f : f.k \in {"T0", "T", "T0i"}, <<Seed, 1, 2>>, T(3, 5))
Plan_C02(plan_) == Family("C02_", OptsFor(Sized(5, 7, 50, <<Seed, 2, 0>>) \o RandWords(T(<<7, 10>>, <<7,8,9,10,11>>), <<Seed, 2, 1>>), <<Seed, 2>>) \o KindOpts(<<Seed, 2, 7>>),
                   LAMBDA f : f.k \in {"J", "Jcm", "Jpinv"}, <<Seed, 2, 2>>, T(2, 4))
Plan_C03(plan_) == Family("C03_", OptsFor(Sized(T(4, 6), 6, 40, <<Seed, 3, 0>>) \o RandWords(T(<<5,6,7>>, <<7,8>>), <<Seed, 3, 1>>), <<Seed, 3>>) \o KindOpts(<<Seed, 3, 7>>),
                   LAMBDA f : f.k \in {"Jt", "M", "C", "G"} /\ f.i > 0, <<Seed, 3, 2>>, T(2, 4))
Plan_C04(plan_) == Family("C04_", OptsFor(Sized(T(5, 6), 6, 40, <<Seed, 4, 0>>) \o RandWords(T(<<6,7,7,8>>, <<7,8,9>>), <<Seed, 4, 1>>), <<Seed, 4>>) \o KindOpts(<<Seed, 4, 7>>),
                   LAMBDA f : f.k \in {"M", "C", "G"} /\ f.i = 0, <<Seed, 4, 2>>, T(2, 4))
Plan_C05(plan_) == Family("C05_", OptsFor(Sized(T(5, 6), 6, 40, <<Seed, 5, 0>>) \o RandWords(T(<<6,7,7>>, <<7,8,9>>), <<Seed, 5, 1>>), <<Seed, 5>>) \o KindOpts(<<Seed, 5, 7>>),
                   LAMBDA f : f.k \in {"regM", "regC", "regG", "Yr"}, <<Seed, 5, 2>>, T(2, 4))

(* Friction and elastic terms: every pattern of joint kinds up to length 3.       *)
Words4 == FlatN(3, LAMBDA n : SeqOf(4 ^ n, LAMBDA m : TypeWord4(m - 1, n)))
FricOpt(w, key) == [Opt(w, key) EXCEPT !.elastic = HasSea(w) /\ Flip(key \o <<21>>, 9, 10), !.dlo = Order(5, key \o <<22>>), !.ko = Order(5, key \o <<23>>),
                                       !.do = Order(5, key \o <<24>>), !.dmo = Order(5, key \o <<25>>),
                                       !.bodies = IF Flip(key \o <<26>>, 1, 2) THEN 1 ELSE 0, !.zfric = Flip(key \o <<27>>, 1, 3)]
IsFric(f) == f.k \in {"dl","Dlm","regdl","k","Km","regk","d","Dmat","regd","dm","Dmm","regdm","Mm","regMm"}
\* also with some joint vectors at rest
Rest(cfg, s, key) == LET as == SelectSeq(<<"q", "dq">> \o (IF cfg.elastic THEN <<"x", "dx", "ddx">> ELSE <<>>), LAMBDA a : Flip(key \o <<Len(a)>>, 1, 2)) IN
  [j \in 1..Len(as) |-> Set(s, as[j], Zeros(ArgSize(cfg, as[j])), ArgKinds(cfg, as[j]))]
\* the symbolic entries of some sections (and with whole = TRUE every entry of some links, then symbolic) are zero in the file
Hollow(cfg, whole, key) ==
  LET in(i) == Flip(key \o <<i>>, 2, 3)
      z(v, s, i) == IF in(i) THEN [k \in 1..Len(v) |-> IF s[k] = 1 THEN "0" ELSE v[k]] ELSE v
      lk(k) == whole /\ Flip(key \o <<20, (k - 1) \div 10>>, 1, 2)
      ds == [k \in 1..Len(cfg.dyns) |-> IF lk(k) THEN 1 ELSE cfg.dyns[k]]
      dv == [k \in 1..Len(cfg.dyn) |-> IF lk(k) THEN "0" ELSE cfg.dyn[k]]
  IN  [cfg EXCEPT !.dh = z(@, cfg.dhs, 1), !.base = z(@, cfg.bases, 2), !.ee = z(@, cfg.ees, 3), !.grav = z(@, cfg.gravs, 4), !.dyns = ds, !.dyn = IF whole THEN dv ELSE z(dv, ds, 5),
                  !.Dl = z(@, cfg.Dls, 6), !.K = z(@, cfg.Ks, 7), !.D = z(@, cfg.Ds, 8), !.Dm = z(@, cfg.Dms, 9), !.Mm = z(@, cfg.Mms, 10)]
Plan_C07(plan_) ==
  LET ws == Words4 \o RandWords(T(<<4,4,5,6,8>>, FlatN(80, LAMBDA i : <<4, 5, 6, 7, 8>>)), <<Seed, 7, 0>>) IN
  SeqOf(Len(ws), LAMBDA i : LET c0 == MkCfg(FricOpt(ws[i], <<Seed, 7, i>>), <<Seed, 7, i, 99>>)
                                cfg == IF i % 4 = 2 THEN Hollow(c0, FALSE, <<Seed, 7, i, 96>>) ELSE c0
                                fs == Entries(cfg, IsFric) IN
     Sc(Id("C07_", i), <<cfg>>, Rounds(cfg, fs, <<Seed, 7, i, 98>>, T(2, 4)) \o Rest(cfg, 0, <<Seed, 7, i, 97>>) \o <<EvalE(0, fs)>>))

(* Kinematic regressors: every single symbolic parameter of small chains, and     *)
(* mixtures.                                                                      *)
OneMask(n, k) == [i \in 1..n |-> IF i = k THEN 1 ELSE 0]
OneSymbolic(cfg, k) ==      \* k in 1..4n+12
  LET d == 4 * cfg.nj IN
  [cfg EXCEPT !.dhs = OneMask(d, k), !.bases = OneMask(6, k - d), !.ees = OneMask(6, k - d - 6)]
IsKinReg(f) == f.k \in {"regJdq", "regJTw"}
Plan_C08(plan_) ==
  LET one(w, key) == LET cfg == MkCfg([DefOpt EXCEPT !.types = w, !.ang = GenT], key) IN
                     SeqOf(4 * Len(w) + 12, LAMBDA k : OneSymbolic(cfg, k))
      cf == FlatN(T(6, 14), LAMBDA i : one(WordsUpTo3[i], <<Seed, 8, i>>))
      ws == Sized(T(4, 5), 5, 40, <<Seed, 8, 0>>)
      mx == SeqOf(Len(ws), LAMBDA i : LET c == MkCfg(Opt(ws[i], <<Seed, 8, i, 5>>), <<Seed, 8, i, 6>>) IN IF i % 3 = 0 THEN Hollow(c, FALSE, <<Seed, 8, i, 8>>) ELSE c)
      all == cf \o mx
  IN  SeqOf(Len(all), LAMBDA i : LET fs == Entries(all[i], IsKinReg) IN
         Sc(Id("C08_", i), <<all[i]>>, Rounds(all[i], fs, <<Seed, 8, i, 7>>, 2) \o (IF fs = <<>> THEN <<Fns(0), EvalE(0, <<"reg_Jdq", "reg_JTw">>)>> ELSE <<>>)))

(* Selectivity: the same robot with many choices of symbolic parameters.          *)
GetArgs(s, as) == [op |-> "getargs", s |-> s, as |-> as]
Info(s) == [op |-> "info", s |-> s]
ParArgs(cfg) == LET ps == SelectSeq(ParNames, LAMBDA p : p \notin ({"Dl"} \cup ElaPars) \/ (p = "Dl" /\ cfg.dlo > 0) \/ (p \in ElaPars /\ cfg.elastic)) IN
                [i \in 1..Len(ps) |-> "par_" \o ps[i]]
Masked(cfg, m, key) ==
  LET mk(n, mode, i) == Mask(n, mode, key \o <<i>>) IN
  [cfg EXCEPT !.dhs = mk(4 * cfg.nj, m.dh, 1), !.bases = mk(6, m.base, 2), !.ees = mk(6, m.ee, 3), !.gravs = mk(3, m.grav, 4),
              !.dyns = mk(10 * cfg.nj, m.dyn, 5), !.Dls = mk(Len(cfg.Dl), m.Dl, 6), !.Ks = mk(Len(cfg.K), m.K, 7), !.Ds = mk(Len(cfg.D), m.D, 8),
              !.Dms = mk(Len(cfg.Dm), m.Dm, 9), !.Mms = mk(Len(cfg.Mm), m.Mm, 10)]
Plan_C09(plan_) ==
  LET ws == T(<<<<"R_SEA", "P">>, <<"P", "R_SEA", "R">>, <<"R", "P_SEA", "R_SEA", "P">>>>, SeqOf(14, LAMBDA i : RandWord(1 + (i % 5), <<Seed, 9, i, 0>>)))
      per == T(12, 20)
      bs == SeqOf(Len(ws), LAMBDA i : MkCfg([FricOpt(ws[i], <<Seed, 9, i>>) EXCEPT !.elastic = HasSea(ws[i])], <<Seed, 9, i, 1>>))
      modes(j, key) == IF j <= 6 THEN AllMasks(j - 1) ELSE RandMasks(key)
  IN  FlatN(Len(ws), LAMBDA i : SeqOf(per, LAMBDA j :
         LET c0 == Masked(bs[i], modes(j, <<Seed, 9, i, j>>), <<Seed, 9, i, j, 1>>)
             cfg == IF j % 3 = 0 \/ (j = 2 /\ i % 2 = 0) THEN Hollow(c0, j % 2 = 0, <<Seed, 9, i, j, 2>>) ELSE c0 IN
         Sc("C09_" \o ToString(i) \o "_" \o ToString(j), <<cfg>>,
            <<New(0, 1), GetArgs(0, ParArgs(cfg))>> \o Tail(Rounds(cfg, Entries(cfg, LAMBDA f : TRUE), <<Seed, 9, i, 2>>, 2)) \o <<GetArgs(0, ParArgs(cfg))>>)))
=============================================================================
