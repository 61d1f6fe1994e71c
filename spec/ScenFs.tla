-------------------------------- MODULE ScenFs -------------------------------
(* Scenarios about runs of the generator (C16): histories of runs with all       *)
(* options in several directories, then everything that was generated is used:   *)
(* compiled and linked together, driven as objects, parameter files loaded,      *)
(* saved functions applied.                                                      *)
EXTENDS ScenObj, GenFs
MkCfgE(path, ci) == [op |-> "mkcfg", path |-> path, ci |-> ci]
MkFileE(path, x) == [op |-> "mkfile", path |-> path, text |-> x]
GenE(cwd, file, base, name, abs, p, f, c, home) == [home |-> home, op |-> "gen", cwd |-> cwd, file |-> file, base |-> base, name |-> name, abs |-> abs, p |-> p, f |-> f, c |-> c]
RNames == <<"arm", "arm_reg", "arm2", "robot", "my_robot", "Gen", "x1_y", "a", "arm_gen", "robot_robot", "conf", "M", "yaml", "thunder_robot", "thunder", "par", "RobotB", "q", "Arm", "MY_robot", "Robot">>
FsDirs == << <<>>, <<"w">>, <<"w", "sub.yaml.d">>, <<"co", "src", "thunder", "build">>, <<"build2", "x", "y", "z", "build">> >>
Copies(co) == FlatN(2, LAMBDA j : FlatN(3, LAMBDA k : <<MkFileE(co \o <<"src", <<"thunder_robot", "thunder_robot_chrono">>[j], <<"library", "src", "robots">>[k], "keep.txt">>, "k")>>))
FsCfgs(key) ==
  LET c(j) == OCfgM(RandWord(1 + (j % 2), key \o <<j>>), key \o <<j, 1>>)
  IN  <<WithEnvFn(c(1)), c(2), MkCfg([OOpt(<<"R_SEA">>, key) EXCEPT !.elastic = TRUE], key \o <<3>>), c(4)>>
Plan_C16(plan_) ==
  LET one(i) ==
        LET key == <<Seed, 16, i>>
            cfgs == FsCfgs(key)
            n == T(8, 14)
            \* three configuration files with names that are robot names, one that needs -n
            nm(j) == RNames[1 + ((i * 3 + j) % Len(RNames))]
            dirs == <<FsDirs[1 + Upto(key \o <<21>>, 5)], FsDirs[1 + Upto(key \o <<22>>, 5)], FsDirs[1 + ((i + 2) % 5)], <<"w">>>>
            base(j) == IF j = 4 THEN "conf.v2" ELSE nm(j)
            file(j) == Append(dirs[j], base(j) \o ".yaml")
            start == Copies(<<"co">>) \o Copies(<<"build2", "x">>) \o <<MkFileE(<<"w", "notes.txt">>, "n")>> \o FlatN(4, LAMBDA j : <<MkCfgE(file(j), j)>>)
            \* run m: which configuration file; where; with which name and options
            R(m) == LET k == key \o <<m>>
                        j == 1 + Upto(k \o <<1>>, 4)
                        nc == 1 + Upto(k \o <<2>>, 4)
                        name == IF j = 4 \/ Flip(k \o <<3>>, 1, 3) THEN nm(1 + Upto(k \o <<4>>, 5)) ELSE ""
                    IN  [cwd |-> FsDirs[1 + Upto(k \o <<5>>, 5)], j |-> j, name |-> name, p |-> IF Flip(k \o <<6>>, 1, 3) THEN 1 ELSE 0, f |-> IF Flip(k \o <<7>>, 1, 3) THEN 1 ELSE 0,
                         c |-> IF Flip(k \o <<8>>, 1, 2) THEN 1 ELSE 0, abs |-> Upto(k \o <<9>>, 3), swap |-> Flip(k \o <<10>>, 1, 4), nc |-> nc, again |-> Flip(k \o <<11>>, 1, 4), home |-> IF Flip(k \o <<12>>, 1, 4) THEN 0 ELSE 1]
            \* copying only makes sense inside a build directory
            ev(m) == LET r == R(m)
                         g == GenE(r.cwd, file(r.j), base(r.j), r.name, r.abs, r.p, r.f, IF IsBuild(r.cwd) THEN r.c ELSE 0, r.home)
                     IN  (IF r.swap THEN <<MkCfgE(file(r.j), r.nc)>> ELSE <<>>) \o <<g>> \o (IF r.again THEN <<g>> ELSE <<>>)
            hist == start \o FlatN(n, ev)
            \* what the model says is there at the end
            FnsOf(ci) == AllFns(cfgs[ci])
            step(t, e) == CASE e.op = "mkcfg" -> Put1(t, Join(e.path), CfgFile(e.ci)) [] e.op = "mkfile" -> Put1(t, Join(e.path), Stray(e.text))
                            [] OTHER -> RunGen(t, e.cwd, RobotName(e.name, e.base), t[Join(e.file)].ci, e.p = 1, e.f = 1, e.c = 1, FnsOf(t[Join(e.file)].ci))
            RECURSIVE upto(_)
            upto(k) == IF k = 0 THEN <<>> ELSE TLCEval(step(upto(k - 1), hist[k]))
            tree == TLCEval(upto(Len(hist)))
            gens == SelectSeq(hist, LAMBDA e : e.op = "gen")
            places == LET x == [k \in 1..Len(gens) |-> <<gens[k].cwd, RobotName(gens[k].name, gens[k].base), gens[k].f>>]
                      IN  SelectSeq([k \in 1..Len(x) |-> <<x[k], k>>], LAMBDA y : ~ \E q \in (y[2]+1)..Len(x) : x[q][1] = y[1][1] /\ x[q][2] = y[1][2])
            np == IF Len(places) > T(5, 8) THEN T(5, 8) ELSE Len(places)
            pl(k) == places[k][1]
            \* robots of one program: at most one per name
            grp(k) == Cardinality({q \in 1..(k-1) : pl(q)[2] = pl(k)[2]})
            \* every kind of content that there is now must be what a fresh run makes in an empty directory
            made == {tree[p] : p \in DOMAIN tree}
            pairs_ == SetToSeq({<<x.n, x.ci>> : x \in {y \in made : y.n # ""}})
            aloneFile(ci) == <<"alone", ToString(ci), "c" \o ToString(ci) \o ".yaml">>
            alone == FlatN(4, LAMBDA ci : <<MkCfgE(aloneFile(ci), ci)>>)
                     \o FlatN(Len(pairs_), LAMBDA j : LET ci == pairs_[j][2] IN <<GenE(<<"alone", ToString(ci)>>, aloneFile(ci), "c" \o ToString(ci), pairs_[j][1], 0, j % 2, 1, 0, 1)>>)
            use(k) ==
              LET d == OutDir(pl(k)[1], pl(k)[2])
                  nme == pl(k)[2]
                  ci == tree[In(d, "thunder_" \o nme \o ".h")].ci
                  cfg == cfgs[ci]
                  kk == key \o <<50, k>>
              IN  <<[op |-> "gnew", s |-> k, dir |-> d, name |-> nme, grp |-> grp(k)], OE("oinfo", k), OE("ofns", k),
                    [op |-> "gfiles", dir |-> d, name |-> nme, conf |-> "c" \o ToString(k) \o ".yaml", reg |-> "r" \o ToString(k) \o ".yaml"],
                    OFileU("oloadconff", k, "c" \o ToString(k) \o ".yaml", 1), OAllPar(k)>> \o OSetEnv(cfg, k, kk) \o <<OEvalE(k, AllFns(cfg)),
                    OFileU("oloadreg", k, "r" \o ToString(k) \o ".yaml", 1), OGetE(k, <<"DYN", "REG">>), OEvalE(k, <<"M", "G", "T_0_ee">>),
                    [op |-> "newfile", s |-> k, file |-> "c" \o ToString(k) \o ".yaml"], Fns(k), Info(k), GetArgs(k, AllArgs([cfg EXCEPT !.ufs = <<>>]))>>
                  \o (IF pl(k)[3] = 1 THEN FlatN(Len(AllFns(cfg)), LAMBDA j : IF j % 2 = k % 2 THEN <<[CasE(cfg, ci, AllFns(cfg)[j], kk \o <<j>>) EXCEPT !.op = "gcas"] @@ ("dir" :> d)>> ELSE <<>>) ELSE <<>>)
            again(k) == LET cfg == cfgs[tree[In(OutDir(pl(k)[1], pl(k)[2]), "thunder_" \o pl(k)[2] \o ".h")].ci] IN <<OEvalE(k, <<"M", "G", "T_0_ee">>), OAllPar(k)>>
        IN  Sc(Id("C16_", i), cfgs, hist \o alone \o FlatN(np, use) \o FlatN(np, again))
      \* two runs for the same robot name in the same place, the second with another configuration and other
      \* options, for every pair of options
      opts(x) == [p |-> x % 2, f |-> (x \div 2) % 2, c |-> (x \div 4) % 2]
      pairs(i) ==
        LET key == <<Seed, 16, 70, i>>
            el(j) == [MkCfg([OOpt(<<"R_SEA">>, key \o <<j>>) EXCEPT !.elastic = TRUE, !.dlo = 1 + (j % 2)], key \o <<j, 3>>) EXCEPT !.name = "rob"]
            cfgs == <<el(1), el(2), el(3)>>
            dir == <<"co", "src", "thunder", "build">>
            g(j, o) == GenE(dir, Append(dir, "c" \o ToString(j) \o ".yaml"), "c" \o ToString(j), "arm", 0, opts(o).p, opts(o).f, opts(o).c, 1)
            \* each of them alone, with everything, shows what its files are
            alone(j) == GenE(<<"alone" \o ToString(j)>>, Append(dir, "c" \o ToString(j) \o ".yaml"), "c" \o ToString(j), "arm", 0, (i + j) % 2, 1, 0, 1)
            hist == Copies(<<"co">>) \o FlatN(3, LAMBDA j : <<MkCfgE(Append(dir, "c" \o ToString(j) \o ".yaml"), j), alone(j)>>)
                    \o FlatN(8, LAMBDA b : <<g(1 + (b % 3), i - 1), g(1 + ((b + 1) % 3), b - 1)>>)
        IN  Sc(Id("C16_p", i), cfgs, hist)
      \* robots of one program whose names extend each other or differ in case
      kin(i) ==
        LET key == <<Seed, 16, 80, i>>
            cfgs == SeqOf(2, LAMBDA j : OCfgM(RandWord(3 - j, key \o <<j>>), key \o <<j, 1>>))
            nms == CASE i = 1 -> <<"arm", "arm_reg", "arm_T", "arm_gen", "arm_J", "arm_reg_gen">> [] i = 2 -> <<"M", "M_reg", "reg", "M_gen_reg", "T", "M_ddot">>
                     [] OTHER -> <<"arm", "Arm", "ARM", "aRm", "arm_2", "ARM_2">>
            ci(k) == 1 + (k % 2)
            use(k) == LET cfg == cfgs[ci(k)] IN
                <<[op |-> "gnew", s |-> k, dir |-> <<"w", nms[k] \o "_generatedFiles">>, name |-> nms[k], grp |-> 0], OE("oinfo", k), OE("ofns", k)>>
                \o OSetEnv(cfg, k, key \o <<k>>) \o <<OEvalE(k, AllFns(cfg))>>
        IN  Sc(Id("C16_n", i), cfgs, <<MkCfgE(<<"w", "a.yaml">>, 1), MkCfgE(<<"w", "b.yaml">>, 2)>>
               \o FlatN(6, LAMBDA k : <<GenE(<<"w">>, <<"w", IF ci(k) = 1 THEN "a.yaml" ELSE "b.yaml">>, IF ci(k) = 1 THEN "a" ELSE "b", nms[k], 0, 0, 0, 0, 1)>>) \o FlatN(6, use)
               \o FlatN(6, LAMBDA k : <<OEvalE(k, <<"M", "G", "T_0_ee">>)>>))
      \* runs that are killed, that find pieces of other runs, that are refused, and runs at the same time
      crash(i) ==
        LET key == <<Seed, 16, 90, i>>
            c(j) == OCfgM(RandWord(1 + (j % 3), key \o <<j>>), key \o <<j, 1>>)
            cfgs == <<c(1), c(2), [c(3) EXCEPT !.badnj = @ + 1]>>
            dir == IF i % 2 = 0 THEN <<"co", "src", "thunder", "build">> ELSE <<"w">>
            cp == IF i % 2 = 0 THEN 1 ELSE 0
            file(j) == Append(dir, "c" \o ToString(j) \o ".yaml")
            run(j, nme, d, p, f) == GenE(d, file(j), "c" \o ToString(j), nme, 0, p, f, IF IsBuild(d) THEN 1 ELSE 0, 1)
            kill(j, nme, at) == [run(j, nme, dir, at % 2, 1) EXCEPT !.op = "genkill"] @@ ("at" :> at)
            full(j, nme) == run(j, nme, dir, 1, 1)
            start == (IF cp = 1 THEN Copies(<<"co">>) ELSE <<>>) \o FlatN(3, LAMBDA j : <<MkCfgE(file(j), j)>>)
            nfs == Len(AllFns(cfgs[1]))
            \* reference runs in places of their own
            ref(j, nme) == <<run(j, nme, <<"alone", nme, ToString(j)>>, 1, 1)>>
            killed == FlatN(T(6, 20), LAMBDA m : LET at == CASE m = 1 -> 0 [] m = 2 -> 1 [] m = 3 -> nfs + 4 [] OTHER -> Upto(key \o <<m, 2>>, nfs + 8) IN
                         <<kill(1 + (m % 2), "arm", at), full(1 + Upto(key \o <<m, 3>>, 2), "arm")>>)
            outs(nme) == Outputs(dir, nme, 1, TRUE, TRUE, cp = 1, AllFns(cfgs[1]))
            \* pieces of files where the run is going to write
            pieces(nme) == LET o == SelectSeq(outs(nme), LAMBDA x : Flip(key \o <<Len(x[1]), 5>>, 1, 2)) IN [k \in 1..Len(o) |-> [op |-> "mkfile", path |-> <<o[k][1]>>, text |-> "#include <nothing.h>"]]
            bad(m) == LET g == [GenE(dir, file(IF m = 1 THEN 3 ELSE 1), "c3", IF m % 2 = 0 THEN "" ELSE "arm", 0, 1, 1, cp, 1) EXCEPT !.op = "genbad"] IN
                      g @@ ("args" :> CASE m = 1 -> <<>> [] m = 2 -> <<"gen", "none.yaml">> [] m = 3 -> <<"gen", "none.yaml", "-n", "arm", "-p">> [] m = 4 -> <<"gen", "c1.yaml", "--nothing">> [] m = 5 -> <<"gen", "c1.yaml", "-n">>
                                     [] m = 6 -> <<"gen", "broken.yaml", "-n", "arm">> [] m = 7 -> <<"gen", "c1.yaml", "c2.yaml">> [] OTHER -> <<"gen", "half.yaml", "-n", "arm", "-f">>)
            together == [op |-> "gens", runs |-> <<run(1, "arm", dir, 1, 1), run(2, "arm2", dir, 1, 1), run(1, "arm_gen", dir, 0, 1), run(2, "arm", <<"w2">>, 1, 0), run(2, "Arm", dir, 1, 1), run(1, "arm", <<"w3">>, 0, 1)>>]
            \* after that some more
        IN  Sc(Id("C16_c", i), cfgs, start \o ref(1, "arm") \o ref(2, "arm") \o ref(2, "arm2") \o ref(1, "arm_gen") \o killed
               \o <<full(1, "arm2")>> \o pieces("arm") \o <<full(1, "arm")>> \o pieces("arm_gen") \o <<full(1, "arm_gen")>>
               \o <<MkFileE(Append(dir, "broken.yaml"), "num_joints: 2\ntype_joints: [R, R"), MkFileE(Append(dir, "half.yaml"), "num_joints: 2\ntype_joints: ['R', 'R']\nkinematics:\n  DH: [0, 0, 0, 0]")>>
               \o FlatN(8, LAMBDA m : <<bad(m)>>) \o <<together, full(2, "arm"), together>> \o FlatN(3, LAMBDA m : <<bad(m)>>))
  IN  SeqOf(T(8, 32), one) \o SeqOf(8, pairs) \o SeqOf(3, kin) \o SeqOf(T(2, 8), crash)
=============================================================================
