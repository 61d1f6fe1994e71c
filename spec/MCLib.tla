-------------------------------- MODULE MCLib --------------------------------
(* Library robots under every order of calls: the state machine of RobotLib with  *)
(* small pools of values, explored completely by TLC.  As in MCObj the action      *)
(* properties say what users rely on, and every transition is replayed on the code.*)
(*   Group "lin": inertial sets of robots without functions, with files;           *)
(*   "larg": joint vectors and parameters of robots with functions; "lfn":         *)
(*   functions of the user; "lpar": parameter files                                *)
EXTENDS ScenState, RobotLib, TLCExt, FiniteSets
CONSTANTS Group, NObj
VARIABLES rob, files, act
vars == <<rob, files, act>>

Key_ == <<Seed, 960>>
Comp_ == Group # "lin"
MCTypes == CASE Group = "lin" -> <<"R">> [] Group = "lfn" -> <<"P">> [] OTHER -> <<"P", "R_SEA">>
c1 == TLCEval(MkCfg([DefOpt EXCEPT !.types = MCTypes, !.elastic = HasSea(MCTypes), !.dlo = 1, !.ko = 1, !.masks = [NoMasks EXCEPT !.Dl = 1, !.K = 1, !.dyn = IF Group = "larg" THEN 1 ELSE 2, !.base = 3]], Key_))
c2 == TLCEval(MkCfg([DefOpt EXCEPT !.types = MCTypes, !.elastic = HasSea(MCTypes), !.dlo = 1, !.ko = 1], Key_ \o <<1>>))
cfg_(i) == IF i = 1 THEN c1 ELSE c2
New_(i) == IF Comp_ THEN RNewC(cfg_(i)) ELSE RNewF(cfg_(i))
Slots == 0..(NObj - 1)
Others(s) == Slots \ {s}
W(s, a, m) == Set(s, a, SeqOf(m, LAMBDA i : "7/2"), Plain(m))
Wrongs(s, a, n) == {W(s, a, m) : m \in {0, n - 1, n + 1} \ {n}}
DynA == DynVal(Key_ \o <<2>>, c1.nj)
Copies_(s) == {Copy(t, s) : t \in Others(s)}
V(a, k) == ArgVal(c1, a, Key_ \o <<10, k>>)
SetOf(s, a, k) == Set(s, a, V(a, k), ArgKinds(c1, a))

LinCalls(s) ==
  {SetPar(c1, s, "par_DYN", v) : v \in {DynA, c1.dyn}} \cup {SetPar(c1, s, "par_REG", RegStr(v)) : v \in {DynA, c1.dyn}} \cup {SetArg(s, "par_REG", RegStr(DynA), Plain(10 * c1.nj))}
  \cup Wrongs(s, "par_DYN", 10 * c1.nj) \cup Wrongs(s, "par_REG", 10 * c1.nj)
  \cup {LoadConf(s, i, u) : i \in {1, 2}, u \in {0, 1}} \cup {SaveF("savereg", s, "r")} \cup (IF "r" \in DOMAIN files THEN {LoadF("loadreg", s, "r", u) : u \in {0, 1}} ELSE {}) \cup Copies_(s)
ArgCalls(s) ==
  {SetOf(s, a, 1) : a \in {"q", "dq", "ddqr"}} \cup UNION {Wrongs(s, a, c1.nj) : a \in {"q", "dq", "dqr", "ddqr"}} \cup {SetOf(s, "x", 1)} \cup UNION {Wrongs(s, a, NumEl(c1)) : a \in {"x", "dx", "ddx", "ddxr"}}
  \cup {SetArg(s, "par_K", Select(CoefVal(Key_, 1), c1.Ks), Plain(1)), SetArg(s, "w", V("w", 2), Plain(6))} \cup Copies_(s)
FnCalls(s) ==
  {AddFn(s, n, x, <<"q">>, ow) : n \in {"u1", "T_0"}, x \in {"cst", "comp"}, ow \in {TRUE, FALSE}} \cup Copies_(s)
ParFiles == {<<"q", "par_K">>, <<"par_Dl", "dq">>}
ParCalls(s) ==
  {SetOf(s, a, 1) : a \in {"q", "dq"}} \cup {SetArg(s, "par_K", Select(CoefVal(Key_, 1), c1.Ks), Plain(1)), SetArg(s, "par_Dl", Select(CoefVal(Key_ \o <<3>>, 2), c1.Dls), Plain(2))}
  \cup {SaveL("savepar", s, "p", as) : as \in ParFiles}
  \cup (IF "p" \in DOMAIN files THEN {LoadF("loadpar", s, "p", 1) @@ [as |-> as] : as \in {<<>>} \cup {<<x>> : x \in DOMAIN files["p"].p}} ELSE {})
Calls(s) == CASE Group = "lin" -> LinCalls(s) [] Group = "larg" -> ArgCalls(s) [] Group = "lfn" -> FnCalls(s) [] OTHER -> ParCalls(s)

\* [bad, r]: what the call must return and the robot afterwards; ret is then the right answer
Eff(e) ==
  LET r == rob[e.s] f(x) == [ret |-> 1, r |-> x]
      try(Op(_, _)) == IF Op(r, e @@ [ret |-> 1]).bad = <<>> THEN [ret |-> 1, r |-> Op(r, e @@ [ret |-> 1]).r] ELSE [ret |-> 0, r |-> Op(r, e @@ [ret |-> 0]).r] IN
  CASE e.op = "set" /\ e.a = "par_DYN" -> try(RSetDyn) [] e.op = "set" /\ e.a = "par_REG" -> try(RSetReg) [] e.op = "set" -> try(RSet)
    [] e.op = "setarg" -> try(RSetArg) [] e.op = "addfn" -> try(RAdd_) [] e.op = "copy" -> f(rob[e.from])
    [] e.op = "loadconf" -> f(RLoadConf(r, cfg_(e.ci), e.upd = 1)) [] e.op = "loadreg" -> f(RLoadReg(r, files[e.file], e.upd = 1)) [] e.op = "loadpar" -> f(RLoadPar(r, files[e.file], e.as))
    [] OTHER -> f(r)
FilesAfter(e) ==
  CASE e.op = "savereg" -> (e.file :> [k |-> "reg", v |-> rob[e.s].reg, Dl |-> <<>>]) @@ files
    [] e.op = "savepar" -> (e.file :> [k |-> "par", p |-> [a \in {e.as[i] : i \in 1..Len(e.as)} |-> RRaw(rob[e.s], a)]]) @@ files [] OTHER -> files
R1(r) == [env |-> r.env, par |-> r.par, reg |-> r.reg, uf |-> r.uf]
View == <<[s \in Slots |-> R1(rob[s])], files>>
Init == rob = [s \in Slots |-> New_(1)] /\ files = <<>> /\ act = [op |-> "none"]
Next == \E s \in Slots : \E e \in Calls(s) : act' = [e |-> e, ret |-> Eff(e).ret] /\ rob' = [rob EXCEPT ![e.s] = Eff(e).r] /\ files' = FilesAfter(e)
Spec == Init /\ [][Next]_vars
Emit == PrintT("EDGE " \o ToJson([f |-> TLCFP(View), e |-> act'.e, t |-> TLCFP(View')]))

Looked == CASE Group = "lin" -> <<"par_DYN", "par_REG", "DYN!", "REG!", "par_Dl">> [] Group = "larg" -> <<"q", "dq", "dqr", "ddqr", "x", "dx", "ddx", "ddxr", "w", "par_K">>
            [] Group = "lfn" -> <<"q">> [] OTHER -> <<"q", "dq", "par_K", "par_Dl", "par_REG">>
LookE(k) == IF Group = "lfn" THEN <<EvalE(k, <<"u1", "T_0">>)>> ELSE <<GetArgs(k, Looked)>>
ASSUME PrintT("START " \o ToJson([id |-> Group, cfgs |-> <<c1, c2>>, init |-> TLCFP(<<[s \in Slots |-> R1(New_(1))], <<>> >>),
          pre |-> FlatN(NObj, LAMBDA k : <<IF Comp_ THEN New(k - 1, 1) ELSE NewF(k - 1, 1)>>), look |-> FlatN(NObj, LAMBDA k : LookE(k - 1)),
          all |-> FlatN(NObj, LAMBDA k : <<GetArgs(k - 1, AllArgs(c1)), Fns(k - 1)>>), eval |-> IF Comp_ THEN SeqOf(NObj, LAMBDA k : EvalE(k - 1, <<"T_0_ee", "G", "u1", "dl">>)) ELSE <<>>]))
---------------------------------------------------------------------------
A == act'.e
Said == act'.ret
B(s) == rob[s]
N(s) == rob'[s]
Cur(r, a) == IF a = "par_REG" THEN r.reg ELSE IF IsParArg(a) THEN r.par[ParOf(a)] ELSE r.env[a]
Apart == \A s \in Slots : s # A.s => N(s) = B(s)
\* a refused call says so and changes nothing; an accepted one is visible
SetOrNot == A.op = "set" => /\ (Said = 1) = (Len(A.v) = (IF A.a \in {"par_DYN", "par_REG"} THEN 10 * c1.nj ELSE ArgSize(c1, A.a)))
                            /\ IF Said = 1 THEN A.a = "par_DYN" \/ Cur(N(A.s), A.a) = A.v ELSE N(A.s) = B(A.s)
OnlyNamed == A.op \in {"set", "setarg"} =>
  /\ \A a \in DOMAIN B(A.s).env : a # A.a => N(A.s).env[a] = B(A.s).env[a]
  /\ \A p \in DOMAIN B(A.s).par : A.a # "par_" \o p /\ ~ (p = "DYN" /\ A.a = "par_REG" /\ A.op = "set") => N(A.s).par[p] = B(A.s).par[p]
  /\ (A.a \notin {"par_REG", "par_DYN"} => N(A.s).reg = B(A.s).reg) /\ N(A.s).uf = B(A.s).uf
SameBodies(r) == LET x == RegStr(r.par["DYN"]) IN \A i \in 1..Len(r.reg) : REq(RD(x[i]), RD(r.reg[i]))
Changed == N(A.s).par["DYN"] # B(A.s).par["DYN"] \/ N(A.s).reg # B(A.s).reg
Consistent == Group = "lin" /\ Changed /\ (A.op = "set" \/ (A.op \in {"loadconf", "loadreg"} /\ A.upd = 1)) => SameBodies(N(A.s))
OneOnly == A.op \in {"loadconf", "loadreg"} /\ A.upd = 0 => N(A.s).par["DYN"] = B(A.s).par["DYN"] \/ N(A.s).reg = B(A.s).reg
\* functions: a name that exists is only replaced on demand; nothing else is lost
Ufs(r) == {r.uf[i] : i \in 1..Len(r.uf)}
Adds == A.op = "addfn" =>
  /\ (Said = 1) = (A.ow \/ ~ (A.u.n = "T_0" \/ \E u \in Ufs(B(A.s)) : u.n = A.u.n))
  /\ (Said = 0 => N(A.s) = B(A.s)) /\ (Said = 1 => \E i \in 1..Len(N(A.s).uf) : N(A.s).uf[i] = A.u)
  /\ {u \in Ufs(N(A.s)) : u.n # A.u.n} = {u \in Ufs(B(A.s)) : u.n # A.u.n} /\ {u.n : u \in Ufs(N(A.s))} \ {A.u.n} = {u.n : u \in Ufs(B(A.s))} \ {A.u.n}
GivesBack == /\ (A.op = "loadreg" => N(A.s).reg = files[A.file].v)
             /\ (A.op = "loadpar" => LET names == IF A.as = <<>> THEN DOMAIN files[A.file].p ELSE {A.as[i] : i \in 1..Len(A.as)} IN
                    /\ \A a \in names : Cur(N(A.s), a) = files[A.file].p[a].v
                    /\ \A a \in (DOMAIN B(A.s).env) \ names : N(A.s).env[a] = B(A.s).env[a] /\ \A p \in DOMAIN B(A.s).par : "par_" \o p \notin names => N(A.s).par[p] = B(A.s).par[p])
             /\ (A.op \in {"savereg", "savepar"} => N(A.s) = B(A.s)) /\ \A f \in DOMAIN files : A.op \notin {"savereg", "savepar"} => files'[f] = files[f]
Copied == A.op = "copy" => N(A.s) = B(A.from)
Relied == [][Apart /\ SetOrNot /\ OnlyNamed /\ Consistent /\ OneOnly /\ Adds /\ GivesBack /\ Copied]_vars
Sizes == \A s \in Slots : LET r == rob[s] IN
  /\ \A a \in DOMAIN r.env : Len(r.env[a]) = ArgSize(c1, a)
  /\ \A p \in DOMAIN r.par : Len(r.par[p]) = (IF r.comp THEN Len(Ones(ParMask(c1, p))) ELSE Len(ParVal(c1, p)))
  /\ Len(r.reg) = 10 * c1.nj /\ \A i, j \in 1..Len(r.uf) : i # j => r.uf[i].n # r.uf[j].n
=============================================================================
