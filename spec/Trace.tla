------------------------------- MODULE Trace --------------------------------
(* Validation of recorded executions against the specification.                 *)
(* VP_TRACE: one scenario per line: [id, cfgs, ev]; ev are the calls made on    *)
(* the real code, in order, with what each returned.  One action per public     *)
(* call; each takes the event's arguments from the trace, applies the state     *)
(* machine and compares every observable result.                                *)
(*   lib: library Robot objects by slot; obj: generated objects by slot;        *)
(*   fs : files written by save functions; tree, sig: files of generator runs;  *)
(*   bad: what the last event contradicts *)
EXTENDS PyMod, Panda, GenFs, FiniteSets, SequencesExt, Json, IOUtils

Scens == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES sc, l, st

Empty == [lib |-> <<>>, obj |-> <<>>, fs |-> <<>>, tree |-> <<>>, sig |-> <<>>, frm |-> <<>>, bad |-> <<>>]
Init == sc \in 1..Len(Scens) /\ l = 1 /\ st = Empty

E == Scens[sc].ev[l]
Cfg(i) == Scens[sc].cfgs[i]
Is(op) == l <= Len(Scens[sc].ev) /\ st.bad = <<>> /\ E.op = op
Put(f, k, v) == (k :> v) @@ f
\* the effect [bad, st] of the current event, unless the call crashed or threw
Report(b) == PrintT("REJECT " \o ToJson([id |-> Scens[sc].id, l |-> l, op |-> E.op, bad |-> b]))
Step(res) ==
  /\ sc' = sc /\ l' = l + 1
  /\ st' = IF E.crash # 0 \/ E.exc # "" THEN [st EXCEPT !.bad = <<"crash or exception">>]
           ELSE LET x == res IN [x.st EXCEPT !.bad = x.bad]
  /\ (st'.bad = <<>> \/ Report(st'.bad))
Ok(s) == [bad |-> <<>>, st |-> s]
No(b) == [bad |-> b, st |-> st]
LibIs(x) == [bad |-> x.bad, st |-> [st EXCEPT !.lib = Put(@, E.s, x.r)]]
ObjIs(x) == [bad |-> x.bad, st |-> [st EXCEPT !.obj = Put(@, E.s, x.r)]]
R == st.lib[E.s]
O == st.obj[E.s]

---------------------------------------------------------------------------
(* library: construction and copies                                              *)
LNew     == Is("new")  /\ Step(LibIs(Okk(RNewC(Cfg(E.ci)))))
LNewFull == Is("newf") /\ Step(LibIs(Okk(RNewF(Cfg(E.ci)))))
LModule == Is("mod") /\ Step(LibIs(Okk(RModule(R, E.m))))
LNewBare == Is("newb") /\ Step(LibIs(Okk(RNewB(Cfg(E.ci)))))
\* a configuration that must be refused
LRefuse  == /\ Is("newbad")
            /\ sc' = sc /\ l' = l + 1
            /\ st' = [st EXCEPT !.bad = IF E.crash = 0 /\ E.exc # "" THEN <<>> ELSE <<"accepted or crashed">>]
            /\ (st'.bad = <<>> \/ Report(st'.bad))
LCopy == Is("copy") /\ Step(Ok([st EXCEPT !.lib = Put(@, E.s, @[E.from])]))
LDel  == Is("del")  /\ Step(Ok(st))
(* arguments and parameters                                                      *)
LSet    == Is("set") /\ Step(LibIs(IF E.a = "par_DYN" THEN RSetDyn(R, E) ELSE IF E.a = "par_REG" THEN RSetReg(R, E) ELSE RSet(R, E)))
LSetArg == Is("setarg") /\ Step(LibIs(RSetArg(R, E)))
LGetArgs == Is("getargs") /\ Step(No(LET b == SelectSeq([i \in 1..Len(E.as) |-> [a |-> E.as[i], v |-> E.vs[i]]],
                LAMBDA p : ~ ArgClose(p.a, p.v, RVec(R, IF p.a = "DYN!" THEN "par_DYN" ELSE IF p.a = "REG!" THEN "par_REG" ELSE p.a)))
              IN [i \in 1..Len(b) |-> b[i].a]))
(* functions                                                                     *)
LEval == Is("eval") /\ Step(No(REvalBad(R, E.out)))
LFns  == Is("fns") /\ Step(No(LET got == {E.fns[i] : i \in 1..Len(E.fns)}
                                  want == ROffer(R)
                              IN  IF got = want /\ Len(E.fns) = Cardinality(want) THEN If(E.same = 1, "get_functions(false)")
                                  ELSE LET d == (got \ want) \cup (want \ got) IN <<ToString({x.n : x \in d})>>))
LInfo == Is("info") /\ Step(No(RInfoBad(R, E)))
LAddFn == Is("addfn") /\ Step(LibIs(RAdd_(R, E)))
(* files                                                                         *)
LSaveConf == Is("saveconf") /\ Step([bad |-> If(E.ret = 1, "ret"),
                                     st |-> [st EXCEPT !.fs = Put(@, E.file, [k |-> "conf", cfg |-> R.cfg])]])
LSaveReg  == Is("savereg") /\ Step([bad |-> If(E.ret = 1, "ret"),
                                    st |-> [st EXCEPT !.fs = Put(@, E.file, [k |-> "reg", v |-> R.reg, Dl |-> <<>>])]])
LSavePar  == Is("savepar") /\ Step([bad |-> If(E.ret = 1, "ret"),
                                    st |-> [st EXCEPT !.fs = Put(@, E.file, [k |-> "par", p |-> [a \in {E.as[i] : i \in 1..Len(E.as)} |-> RRaw(R, a)]])]])
LLoadConf == Is("loadconf") /\ Step(LET x == RLoadConf(R, Cfg(E.ci), E.upd = 1) IN [LibIs(Okk(x)) EXCEPT !.bad = If(E.ret = 1, "ret")])
LLoadConfF == Is("loadconff") /\ Step(LET x == RLoadDyn(R, st.fs[E.file], E.upd = 1) IN [LibIs(Okk(x)) EXCEPT !.bad = If(E.ret = 1, "ret")])
LLoadReg  == Is("loadreg") /\ Step(LibIs(Okk(RLoadReg(R, st.fs[E.file], E.upd = 1))))
LLoadPar  == Is("loadpar") /\ Step(LibIs([bad |-> If(E.ret = 1, "ret"), r |-> RLoadPar(R, st.fs[E.file], E.as)]))
LNewFile  == Is("newfile") /\ Step(LibIs(Okk(RNewC(st.fs[E.file].cfg))))
\* inertial files made from a configuration
LGenInertial == Is("geninertial") /\ Step([bad |-> If(E.ret = 1, "ret"),
                  st |-> [st EXCEPT !.fs = Put(Put(@, E.dynfile, [k |-> "dyn", v |-> Cfg(E.ci).dyn, Dl |-> Cfg(E.ci).Dl]), E.regfile, [k |-> "reg", v |-> RegStr(Cfg(E.ci).dyn), Dl |-> Cfg(E.ci).Dl])]])
(* pure functions                                                                *)
Pure == Is("pure") /\ Step(No(PureBad(E)))
(* frame objects                                                                 *)
FrIs(f) == Ok([st EXCEPT !.frm = Put(@, E.s, f)])
FrCon  == Is("fcon") /\ Step(FrIs(FNew(E)))
FrCopy == Is("fcopy") /\ Step(FrIs(st.frm[E.from]))
FrSet  == Is("fset") /\ Step(FrIs(FSet(st.frm[E.s], E)))
FrGet  == Is("fget") /\ Step(No(FGetBad(st.frm[E.s], E)))
\* a constructor given a vector that has not three entries
FrRefuse == Is("fbad") /\ Step(No(If(E.ret = 0, "accepted")))

Done == l > Len(Scens[sc].ev) \/ st.bad # <<>>
LibNext == LNew \/ LNewFull \/ LModule \/ LNewBare \/ LRefuse \/ LCopy \/ LDel \/ LSet \/ LSetArg \/ LGetArgs
           \/ LEval \/ LFns \/ LInfo \/ LAddFn \/ LSaveConf \/ LSaveReg \/ LSavePar \/ LLoadConf \/ LLoadConfF \/ LLoadReg \/ LLoadPar \/ LNewFile \/ LGenInertial
---------------------------------------------------------------------------
(* objects of generated classes                                                  *)
ONewA    == Is("onew") /\ Step(ObjIs(Okk(ONew(Cfg(E.ci)))))
OCopyA   == Is("ocopy") /\ Step(Ok([st EXCEPT !.obj = Put(@, E.s, @[E.from])]))
ODelA    == Is("odel") /\ Step(Ok(st))
OSetA    == Is("oset") /\ Step(ObjIs(Okk(OSet(O, E))))
OSetAllA == Is("osetall") /\ Step(ObjIs(Okk(OSetAll(O, E))))
OResizeA == Is("oresize") /\ Step(ObjIs(Okk(OResize(O))))
OGetA    == Is("oget") /\ Step(No(LET b == SelectSeq([i \in 1..Len(E.as) |-> [a |-> E.as[i], v |-> E.vs[i]]],
                LAMBDA p : ~ ArgClose(p.a, p.v, OVec(O, p.a))) IN [i \in 1..Len(b) |-> b[i].a]))
OEvalA   == Is("oeval") /\ Step(No(OEvalBad(O, E.out)))
OInfoA   == Is("oinfo") /\ Step(No(OInfoBad(O, E)))
\* the names of the get_<f>() members that are generated functions
OFnsA    == Is("ofns") /\ Step(No(LET got == {E.fns[i] : i \in 1..Len(E.fns)}
                                      want == {x.n : x \in ROffer(OAsRobot(O))}
                                  IN  IF got = want THEN <<>> ELSE <<ToString((got \ want) \cup (want \ got))>>))
OLoadConfA == Is("oloadconf") /\ Step(ObjIs(Okk(OLoadConf(O, Cfg(E.ci), E.secs, E.upd = 1))))
OLoadConfF == Is("oloadconff") /\ Step(ObjIs(Okk(LET f == st.fs[E.file] IN
                 IF f.k = "conf" THEN OLoadConf(O, f.cfg, Sections(f.cfg), E.upd = 1) ELSE OLoadDyn(O, f, E.upd = 1))))
OLoadRegA == Is("oloadreg") /\ Step(LET o == OLoadReg(O, st.fs[E.file], E.upd = 1) IN [ObjIs(Okk(o)) EXCEPT !.bad = If(VecClose(E.v, OVec(o, "REG")), "ret")])
OSaveRegA == Is("osavereg") /\ Step(Ok([st EXCEPT !.fs = Put(@, E.file, OSaveInertial(O, "reg"))]))
OSaveDynA == Is("osavedyn") /\ Step(Ok([st EXCEPT !.fs = Put(@, E.file, OSaveInertial(O, "dyn"))]))
OSaveParA == Is("osavepar") /\ Step([bad |-> If(E.ret = 1, "ret"), st |-> [st EXCEPT !.fs = Put(@, E.file, OSavePar(O))]])
\* contents of a file written by save_par
ReadPar == Is("readpar") /\ Step(No(LET f == st.fs[E.file]
              b == {nm \in DOMAIN f.p : ~ (nm \in DOMAIN E.y /\ LET x == [i \in 1..Len(f.p[nm].v) |-> Num(f.p[nm].k[i] = 1, f.p[nm].v[i])] IN IF nm \in {"par_DYN", "par_REG"} THEN LinkFileClose(E.y[nm], x) ELSE VecCloseRel(E.y[nm], x))}
              IN  IF b = {} /\ DOMAIN E.y = DOMAIN f.p THEN <<>> ELSE <<ToString(b)>>))
\* contents of a file with inertial parameters per link
ReadInertial == Is("readin") /\ Step(No(InertialBad(E.y, st.fs[E.file])))
\* parameter files written by the generator
GenFilesA == Is("genfiles") /\ Step(Ok([st EXCEPT !.fs = Put(Put(@, E.conf, [k |-> "conf", cfg |-> Cfg(E.ci)]), E.reg, [k |-> "reg", v |-> RegStr(Cfg(E.ci).dyn), Dl |-> <<>>])]))
\* a saved function applied to given values of its arguments
CasA == (Is("cas") \/ Is("gcas")) /\ Step(No(LET r0 == RNewC(Cfg(E.ci))
                                at(a) == E.vs[CHOOSE i \in 1..Len(E.as) : E.as[i] = a]
                                has(a) == \E i \in 1..Len(E.as) : E.as[i] = a
                                r == [r0 EXCEPT !.reg = IF has("par_REG") THEN at("par_REG") ELSE @,
                                                !.par = [p \in DOMAIN r0.par |-> IF has("par_" \o p) THEN at("par_" \o p) ELSE r0.par[p]],
                                                !.env = [a \in DOMAIN r0.env |-> IF has(a) THEN at(a) ELSE r0.env[a]]]
                            IN  REvalBad(r, E.out)))
\* objects made through the Python module; its definition
PyNewA == Is("pynew") /\ Step(ObjIs(Okk(ONew(Cfg(E.ci)))))
PyModA == Is("pymod") /\ Step(No(PyModBad(O, E.name, E)))
PyInfoA == Is("pyinfo") /\ Step(No(PyInfoBad(O, E)))
\* repeated evaluations, and the order in which threads take their turns
TEvalA == Is("teval") /\ Step(No(OEvalBad(O, E.out)))
TSetA == Is("tset") /\ Step(LET o == OSet(O, E) IN
           [ObjIs(Okk(o)) EXCEPT !.bad = IF E.vss # <<>> /\ \A i \in 1..Len(E.vss) : \A j \in 1..Len(E.as) : ArgClose(E.as[j], E.vss[i][j], OVec(o, E.as[j])) THEN <<>> ELSE <<"values">>])
\* no two threads touched the same memory
RacesA == Is("races") /\ Step(No(If(E.n = 0, "race")))
SchedA == Is("sched") /\ Step(Ok(st))
\* files that a user writes, and runs of the generator
FsCfg   == Is("mkcfg") /\ Step(Ok([st EXCEPT !.tree = Put1(@, Join(E.path), CfgFile(E.ci))]))
FsStray == Is("mkfile") /\ Step(Ok([st EXCEPT !.tree = Put1(@, Join(E.path), Stray(E.text))]))
FsGen   == Is("gen") /\ Step(
             LET ci == st.tree[Join(E.file)].ci
                 n == RobotName(E.name, E.base)
                 r == RNewC(Cfg(ci))
                 fns == SetToSeq({x.n : x \in ROffer(r)})
                 t == RunGen(st.tree, E.cwd, n, ci, E.p = 1, E.f = 1, E.c = 1, fns)
                 loose == Loose(st.tree, E.cwd, n, Outputs(E.cwd, n, ci, E.p = 1, E.f = 1, E.c = 1, fns))
             IN  [bad |-> If(E.exit \in {0, 1}, "exit") \o TreeBad(t, st.sig, E.tree, loose) \o If(E.tmpl = 0, "template changed"),
                  st |-> [st EXCEPT !.tree = [p \in DOMAIN t \cap DOMAIN E.tree |-> t[p]], !.sig = Learn(t, @, E.tree)]])
\* a run that was killed on its way: its own files may be there, in part
FsKill  == Is("genkill") /\ Step(
             LET n == RobotName(E.name, E.base)
                 ci == st.tree[Join(E.file)].ci
                 outs == Outputs(E.cwd, n, ci, E.p = 1, E.f = 1, E.c = 1, SetToSeq({x.n : x \in ROffer(RNewC(Cfg(ci)))}))
                 own == {outs[i][1] : i \in 1..Len(outs)} \cup Loose(st.tree, E.cwd, n, outs)
                 new == DOMAIN E.tree
             IN  [bad |-> TreeBad([p \in (DOMAIN st.tree \ own) \cup (own \cap new) |-> IF p \in own THEN Stray(p) ELSE st.tree[p]], st.sig, E.tree, own) \o If(E.tmpl = 0, "template changed"),
                  st |-> [st EXCEPT !.tree = [p \in (DOMAIN st.tree \cup own) \cap new |-> IF p \in own THEN Stray(ToString(l) \o " " \o p) ELSE st.tree[p]]]])
\* a run that has to be refused: nothing is written
FsBad   == Is("genbad") /\ Step([bad |-> TreeBad(st.tree, st.sig, E.tree, {}) \o If(E.tmpl = 0, "template changed") \o If(E.exit # -99, "exit"), st |-> st])
\* several runs at the same time, for different robots or in different directories
RECURSIVE RunAll(_, _)
RunAll(t, rs) == IF rs = <<>> THEN t
  ELSE LET e == rs[1]
           ci == t[Join(e.file)].ci
       IN  RunAll(TLCEval(RunGen(t, e.cwd, RobotName(e.name, e.base), ci, e.p = 1, e.f = 1, e.c = 1, SetToSeq({x.n : x \in ROffer(RNewC(Cfg(ci)))}))), Tail(rs))
FsTogether == Is("gens") /\ Step(
             LET t == RunAll(st.tree, E.runs) IN
             [bad |-> If(\A i \in 1..Len(E.exit) : E.exit[i] \in {0, 1}, "exit") \o TreeBad(t, st.sig, E.tree, {}) \o If(E.tmpl = 0, "template changed"),
              st |-> [st EXCEPT !.tree = [p \in DOMAIN t \cap DOMAIN E.tree |-> t[p]], !.sig = Learn(t, @, E.tree)]])
\* runs of genYAML and the files it wrote
PandaRun == Is("panda") /\ Step([bad |-> If(E.exit = 0, "exit") \o If({E.tree[i] : i \in 1..Len(E.tree)} = PandaTree, "files") \o If(E.same = 1, "input changed"),
                                 st |-> [st EXCEPT !.fs = Put(@, "panda", E.links)]])
PandaRead == Is("pread") /\ Step(No(PandaFileBad(E.y, st.fs["panda"], E.kind)))
PandaPert == Is("ppert") /\ Step(No(PandaPertBad(E.ys, st.fs["panda"], E.p)))
\* an object of the class in a generated directory (several robots linked into one program)
GNew    == Is("gnew") /\ Step(LET f == st.tree[In(E.dir, "thunder_" \o E.name \o ".h")] IN ObjIs(Okk(ONew([Cfg(f.ci) EXCEPT !.name = E.name]))))
\* the parameter files next to it
GFiles  == Is("gfiles") /\ Step(Ok(LET f == st.tree[In(E.dir, E.name \o "_conf.yaml")]
                                      h == st.tree[In(E.dir, E.name \o "_par_REG.yaml")]
                                  IN  [st EXCEPT !.fs = Put(Put(@, E.conf, [k |-> "conf", cfg |-> Cfg(f.ci)]), E.reg, [k |-> "reg", v |-> RegStr(Cfg(h.ci).dyn), Dl |-> <<>>])]))
FsNext == FsCfg \/ FsStray \/ FsGen \/ FsKill \/ FsBad \/ FsTogether \/ GNew \/ GFiles \/ PandaRun \/ PandaRead \/ PandaPert
ObjNext == PyNewA \/ PyModA \/ PyInfoA \/ GenFilesA \/ CasA \/ TEvalA \/ TSetA \/ RacesA \/ SchedA \/ ONewA \/ OCopyA \/ ODelA \/ OSetA \/ OSetAllA \/ OResizeA \/ OGetA \/ OEvalA \/ OInfoA \/ OFnsA
           \/ OLoadConfA \/ OLoadConfF \/ OLoadRegA \/ OSaveRegA \/ OSaveDynA \/ OSaveParA \/ ReadPar \/ ReadInertial
PureNext == Pure \/ FrCon \/ FrCopy \/ FrSet \/ FrGet \/ FrRefuse
Next == LibNext \/ ObjNext \/ FsNext \/ PureNext
Spec == Init /\ [][Next]_<<sc, l, st>>
\* the state is a function of the scenario and the position in it
View == <<sc, l, st.bad>>
=============================================================================
