-------------------------------- MODULE MCObj --------------------------------
(* Objects of a generated class under every order of calls: the state machine of *)
(* GenObj with small pools of values, explored completely by TLC.  The action     *)
(* properties state, in their own terms, what users rely on; every transition is  *)
(* printed, and tools/vp.py joins them to walks that are replayed on real objects *)
(* (every reachable abstract state, every call in it).                            *)
(*   Group "in": inertial sets; "inf": inertial sets with files; "args": joint    *)
(*   vectors; "kin": kinematic parameters and sections; "coef": friction and      *)
(*   elastic coefficients                                                         *)
EXTENDS ScenObj, GenObj, TLCExt
CONSTANTS Group, NObj
VARIABLES objs, files, act
vars == <<objs, files, act>>

Key_ == <<Seed, 950>>
MCMasks == [dh |-> 2, base |-> 2, ee |-> 3, grav |-> 4, dyn |-> 1, Dl |-> 1, K |-> 1, D |-> 1, Dm |-> 1, Mm |-> 1]
MCTypes == CASE Group \in {"in", "inf", "two"} -> <<"P">> [] Group = "coef" -> <<"R_SEA">> [] OTHER -> <<"R", "P">>
c1 == TLCEval(WithEnvFn(MkCfg([OOpt(MCTypes, Key_) EXCEPT !.elastic = Group = "coef", !.dlo = 1, !.ko = 1, !.do = 1, !.dmo = 1, !.masks = MCMasks, !.fmt.nograv = 0, !.bodies = 0, !.zerograv = FALSE, !.zerobase = FALSE], Key_)))
c2 == TLCEval(Sibling(c1, Key_ \o <<1>>))
cfg_(i) == IF i = 1 THEN c1 ELSE c2
Slots == 0..(NObj - 1)
W(s, a, m) == OSetV(s, a, SeqOf(m, LAMBDA i : "7/2"), Plain(m), m % 2)         \* some other length
Wrongs(s, a, n) == {W(s, a, m) : m \in {0, n - 1, n + 1} \ {n}}
DynA == DynVal(Key_ \o <<2>>, c1.nj)
CopyTo(s, from) == OCopyE(s, from)
Others(s) == Slots \ {s}

InCalls(s) ==
  {OSetV(s, "DYN", v, Plain(10 * c1.nj), u) : v \in {DynA, c1.dyn}, u \in {0, 1}} \cup {OSetV(s, "REG", RegStr(v), Plain(10 * c1.nj), u) : v \in {DynA, c1.dyn}, u \in {0, 1}}
  \cup Wrongs(s, "DYN", 10 * c1.nj) \cup Wrongs(s, "REG", 10 * c1.nj)
  \cup {OLoad(s, i, <<"dynamics">>, u) : i \in {1, 2}, u \in {0, 1}} \cup {OE("oresize", s)} \cup {CopyTo(t, s) : t \in Others(s)}
FileCalls(s) ==
  {OSetV(s, "DYN", DynA, Plain(10 * c1.nj), u) : u \in {0, 1}} \cup {OSetV(s, "REG", RegStr(c1.dyn), Plain(10 * c1.nj), u) : u \in {0, 1}}
  \cup {OFile("osavereg", s, "r"), OFile("osavedyn", s, "d")}
  \cup (IF "r" \in DOMAIN files THEN {OFileU("oloadreg", s, "r", u) : u \in IF files["r"].v[1] = "0" THEN {0} ELSE {0, 1}} ELSE {}) \cup (IF "d" \in DOMAIN files THEN {OFileU("oloadconff", s, "d", u) : u \in {0, 1}} ELSE {})
  \cup {OE("oresize", s)} \cup {CopyTo(t, s) : t \in Others(s)}
ArgNames4 == <<"q", "dq", "dqr", "ddqr">>
ArgCalls(s) ==
  {OSetArgE(c1, s, ArgNames4[j], Key_ \o <<10, j>>) : j \in 1..4} \cup UNION {Wrongs(s, ArgNames4[j], c1.nj) : j \in 1..4}
  \cup {OSetAllE(c1, s, b, Key_ \o <<11>>) : b \in 0..4} \cup {OE("oresize", s)} \cup {CopyTo(t, s) : t \in Others(s)}
KinCalls(s) ==
  {OSetPar(c1, s, p, 1, Key_ \o <<12>>) : p \in Kin4} \cup UNION {{W(s, p, m) : m \in {0, Len(OCur(objs[s], p)) - 1, Len(OCur(objs[s], p)) + 1}} : p \in Kin4}
  \cup {OLoad(s, 1, ss, 1) : ss \in {<<"kinematics">>, <<"gravity">>, <<"Base_to_L0">>, <<"Ln_to_EE">>, <<"head", "dynamics">>, AllSecs(c1)}} \cup {OE("oresize", s)} \cup {CopyTo(t, s) : t \in Others(s)}
CoefP == {"Dl", "K", "D", "Dm", "Mm"}
CoefCalls(s) ==
  {OSetPar(c1, s, p, 1, Key_ \o <<13>>) : p \in CoefP} \cup UNION {Wrongs(s, p, 1) : p \in CoefP}
  \cup {OLoad(s, 1, ss, 1) : ss \in {<<"dynamics">>, <<"elastic">>, <<"kinematics">>, AllSecs(c1)}} \cup {OE("oresize", s)} \cup {CopyTo(t, s) : t \in Others(s)}
\* several objects of a class
TwoCalls(s) ==
  {OSetArgE(c1, s, "q", Key_ \o <<10>>), OSetV(s, "DYN", DynA, Plain(10 * c1.nj), 1), OSetV(s, "REG", RegStr(c1.dyn), Plain(10 * c1.nj), 0), OLoad(s, 1, <<"dynamics">>, 1), OE("oresize", s)} \cup {CopyTo(t, s) : t \in Others(s)}
Calls(s) == CASE Group = "two" -> TwoCalls(s) [] Group = "in" -> InCalls(s) [] Group = "inf" -> FileCalls(s) [] Group = "args" -> ArgCalls(s) [] Group = "kin" -> KinCalls(s) [] OTHER -> CoefCalls(s)

\* the effect of a call on the objects
After(e) ==
  LET o == objs[e.s] IN
  CASE e.op = "oset" -> OSet(o, e) [] e.op = "osetall" -> OSetAll(o, e) [] e.op = "oresize" -> OResize(o) [] e.op = "ocopy" -> objs[e.from]
    [] e.op = "oloadconf" -> OLoadConf(o, cfg_(e.ci), e.secs, e.upd = 1)
    [] e.op = "oloadreg" -> OLoadReg(o, files[e.file], e.upd = 1) [] e.op = "oloadconff" -> OLoadDyn(o, files[e.file], e.upd = 1)
    [] OTHER -> o
FilesAfter(e) ==
  CASE e.op = "osavereg" -> (e.file :> OSaveInertial(objs[e.s], "reg")) @@ files [] e.op = "osavedyn" -> (e.file :> OSaveInertial(objs[e.s], "dyn")) @@ files [] OTHER -> files

O1(o) == [env |-> o.env, par |-> o.par, full |-> o.full, reg |-> o.reg]
View == <<[s \in Slots |-> O1(objs[s])], files>>
Init == objs = [s \in Slots |-> ONew(c1)] /\ files = <<>> /\ act = [op |-> "none"]
Next == \E s \in Slots : \E e \in Calls(s) :
          /\ act' = e /\ objs' = [objs EXCEPT ![e.s] = After(e)] /\ files' = FilesAfter(e)
Spec == Init /\ [][Next]_vars
Emit == PrintT("EDGE " \o ToJson([f |-> TLCFP(View), e |-> act', t |-> TLCFP(View')]))

\* what is looked at after a call, and the walk's beginning
Looked == CASE Group = "two" -> <<"DYN", "REG", "DHtable">> [] Group \in {"in", "inf"} -> <<"DYN", "REG">> [] Group = "args" -> <<"DHtable">> [] Group = "kin" -> <<"DHtable", "world2L0", "Ln2EE", "gravity">> [] OTHER -> <<"Dl", "K", "D", "Dm", "Mm">>
Seen == CASE Group \in {"in", "inf", "two"} -> <<"M", "G">> [] Group = "args" -> <<"M", "Yr">> [] Group = "kin" -> <<"T_0_ee", "G">> [] OTHER -> <<"dl", "k", "d", "dm", "Mm">>
ASSUME PrintT("START " \o ToJson([id |-> Group, cfgs |-> <<c1, c2>>, init |-> TLCFP(<<[s \in Slots |-> O1(ONew(c1))], <<>> >>),
          pre |-> FlatN(NObj, LAMBDA k : <<ONewE(k - 1, 1)>>), look |-> FlatN(NObj, LAMBDA k : (IF Group = "args" THEN <<>> ELSE <<OGetE(k - 1, Looked)>>) \o (IF Group \in {"args", "two"} THEN <<OEvalE(k - 1, <<"uenv", "T_0_ee">>)>> ELSE <<>>)), all |-> SeqOf(NObj, LAMBDA k : OAllPar(k - 1)), eval |-> SeqOf(NObj, LAMBDA k : OEvalE(k - 1, Seen))]))
---------------------------------------------------------------------------
(* What holds of every call (primes: after it)                                   *)
A == act'
B(s) == objs[s]
N(s) == objs'[s]
Touches(e) == e.op \notin {"osavereg", "osavedyn"}
\* other objects, and the source of a copy, are not affected
Apart == \A s \in Slots : s # A.s => N(s) = B(s)
\* a vector of another length changes nothing; one of the right length is there afterwards
SetOrNot == A.op = "oset" => IF Len(A.v) = Len(OCur(B(A.s), A.a)) THEN OCur(N(A.s), A.a) = A.v ELSE N(A.s) = B(A.s)
AllOrNone == A.op = "osetall" => \/ \A i \in 1..4 : Len(A.vs[i]) = c1.nj /\ N(A.s).env[ArgNames4[i]] = A.vs[i]
                                 \/ N(A.s) = B(A.s) /\ \E i \in 1..4 : Len(A.vs[i]) # c1.nj
\* only what is named changes
OnlyNamed == A.op = "oset" =>
  /\ \A a \in DOMAIN B(A.s).env : a # A.a => N(A.s).env[a] = B(A.s).env[a]
  /\ \A p \in DOMAIN B(A.s).par : p # A.a /\ ~ (p = "DYN" /\ A.a = "REG" /\ A.upd = 1) => N(A.s).par[p] = B(A.s).par[p]
  /\ (A.a # "REG" /\ ~ (A.a = "DYN" /\ A.upd = 1) => N(A.s).reg = B(A.s).reg) /\ N(A.s).full = B(A.s).full
\* the two inertial sets describe the same bodies after an update
SameBodies(o) == LET r == RegStr(o.par["DYN"]) IN \A i \in 1..Len(o.reg) : REq(RD(r[i]), RD(o.reg[i]))
Changed == N(A.s).par["DYN"] # B(A.s).par["DYN"] \/ N(A.s).reg # B(A.s).reg
Consistent == A.op \in {"oset", "oloadconf", "oloadreg", "oloadconff"} /\ Changed /\ A.upd = 1 => SameBodies(N(A.s))
OneOnly == A.op \in {"oset", "oloadconf", "oloadreg", "oloadconff"} /\ A.upd = 0 => N(A.s).par["DYN"] = B(A.s).par["DYN"] \/ N(A.s).reg = B(A.s).reg
\* load_conf: the sections of the file and nothing else; joint vectors never
SecOf(p) == CASE p = "DHtable" -> "kinematics" [] p = "world2L0" -> "Base_to_L0" [] p = "Ln2EE" -> "Ln_to_EE" [] p = "gravity" -> "gravity" [] p \in {"DYN", "Dl"} -> "dynamics" [] OTHER -> "elastic"
Loads == A.op = "oloadconf" =>
  /\ N(A.s).env = B(A.s).env
  /\ \A p \in DOMAIN B(A.s).par : ~ Has(A.secs, SecOf(p)) => N(A.s).par[p] = B(A.s).par[p]
  /\ \A p \in DOMAIN B(A.s).par : Has(A.secs, SecOf(p)) /\ (SecOf(p) = "elastic" => c1.elastic) =>
        OComp(N(A.s), p) = Select(ParVal(cfg_(A.ci), p), ParMask(c1, p))
\* files keep what was saved until they are saved again, and give it back
FilesKept == \A f \in DOMAIN files : A.op \notin {"osavereg", "osavedyn"} \/ A.file # f => files'[f] = files[f]
GivesBack == /\ (A.op = "oloadreg" => N(A.s).reg = files[A.file].v) /\ (A.op = "oloadconff" => N(A.s).par["DYN"] = files[A.file].v)
             /\ (A.op \in {"osavereg", "osavedyn"} => N(A.s) = B(A.s))
Copies == A.op = "ocopy" => N(A.s) = B(A.from)
Fresh == A.op = "oresize" => N(A.s) = ONew(c1)
Relied == [][Apart /\ SetOrNot /\ AllOrNone /\ OnlyNamed /\ Consistent /\ OneOnly /\ Loads /\ FilesKept /\ GivesBack /\ Copies /\ Fresh]_vars
\* every vector has the size that the generated functions expect
Sizes == \A s \in Slots : LET o == objs[s] IN
  /\ \A a \in DOMAIN o.env : Len(o.env[a]) = ArgSize(c1, a)
  /\ \A p \in DOMAIN o.par : Len(o.par[p]) = (IF p \in Kin4 /\ ~ o.full[p] THEN Len(Ones(ParMask(c1, p))) ELSE OSize(c1, p)) /\ Len(o.reg) = Len(o.par["DYN"])
  /\ \A p \in DOMAIN o.par : Len(OComp(o, p)) = Len(Ones(ParMask(c1, p)))
=============================================================================
