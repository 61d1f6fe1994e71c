------------------------------ MODULE RobotLib ------------------------------
(* State machine of a library Robot object.                                     *)
(*  r = [cfg, comp, env, par, reg, uf, done]                                    *)
(*   comp: built with its functions (robot_from_file): parameter vectors then   *)
(*         hold exactly the symbolic entries; otherwise they are full           *)
(*   env : joint arguments; par: parameter vectors; reg: REG inertial vector    *)
(*   uf  : functions added by the user: [n, x, args, descr]                     *)
(*   done: the parts of the model (Modules) that have been computed             *)
EXTENDS Semantics, Modules

RNewC(cfg) == [cfg |-> cfg, comp |-> TRUE, env |-> ZeroEnv(cfg),
               par |-> [p \in {ParNames[i] : i \in 1..Len(ParNames)} |-> Select(ParVal(cfg, p), ParMask(cfg, p))],
               reg |-> RegStr(cfg.dyn), uf |-> cfg.ufs, done |-> Parts]
RNewF(cfg) == [cfg |-> cfg, comp |-> FALSE, env |-> ZeroEnv(cfg),
               par |-> [p \in {ParNames[i] : i \in 1..Len(ParNames)} |-> ParVal(cfg, p)],
               reg |-> RegStr(cfg.dyn), uf |-> <<>>, done |-> {}]
\* Robot(file): kinematic and gravity values are read, the others start at zero
RNewB(cfg) == LET z(p) == p \notin {"DHtable", "world2L0", "Ln2EE", "gravity"} IN
  [cfg |-> cfg, comp |-> FALSE, env |-> ZeroEnv(cfg),
   par |-> [p \in {ParNames[i] : i \in 1..Len(ParNames)} |-> IF z(p) THEN Zeros(Len(ParVal(cfg, p))) ELSE ParVal(cfg, p)],
   reg |-> Zeros(10 * cfg.nj), uf |-> <<>>, done |-> {}]
REff(r) == Effective(r.cfg, LAMBDA p : IF r.comp THEN Expand(ParVal(r.cfg, p), ParMask(r.cfg, p), r.par[p]) ELSE r.par[p])
Touch(v) == v
(* exact value (rationals) of the argument / parameter vector named a            *)
RVec(r, a) ==
  IF a = "par_REG" THEN [i \in 1..Len(r.reg) |-> RD(r.reg[i])]
  ELSE IF IsParArg(a) THEN
    LET p == ParOf(a)
        s == Ones(ParMask(r.cfg, p))
    IN  [i \in 1..Len(r.par[p]) |-> Num(IsAngle(p, IF r.comp THEN s[i] ELSE i), r.par[p][i])]
  ELSE [i \in 1..Len(r.env[a]) |-> Num(IsAngleArg(r.cfg, a, i), r.env[a][i])]

(* Functions a user adds.  x = "lin": with S_a = sum_j j * arg_a[j], the value   *)
(* is the column << sum_a a*S_a, sum_j arg_1[j]^2 >>; x = "cst": the 1x2 <<c,2c>>;*)
(* x = "dist" is the example the repository ships: the distance of q from q0.    *)
\* par args in functions added before compression see the full vector
UfArg(r, a) == IF IsParArg(a) THEN LET p == ParOf(a)
                                       f == IF r.comp THEN Expand(ParVal(r.cfg, p), ParMask(r.cfg, p), r.par[p]) ELSE r.par[p]
                                   IN  [i \in 1..Len(f) |-> Num(IsAngle(p, i), f[i])]
               ELSE RVec(r, a)
UfVal(r, u) ==
  IF u.x = "cst" THEN << <<RI(3), RI(6)>> >>
  ELSE IF u.x = "dist" THEN LET q == RVec(r, "q") IN << <<RSqrt(RSum([j \in 1..Len(q) |-> LET e == RSub(q[j], RD(u.q0[j])) IN RMul(e, e)]))>> >>
  ELSE LET vec(a) == IF u.x = "lin" THEN UfArg(r, a) ELSE RVec(r, a)
           sa(i) == LET v == vec(u.args[i]) IN RSum([j \in 1..Len(v) |-> RMul(RI(j), v[j])])
           v1 == vec(u.args[1])
       IN  << <<RSum([i \in 1..Len(u.args) |-> RMul(RI(i), sa(i))])>>,
              <<RSum([j \in 1..Len(v1) |-> RMul(v1[j], v1[j])])>> >>
UfCols(u) == IF u.x = "cst" THEN 2 ELSE 1
UfRows(u) == IF u.x \in {"cst", "dist"} THEN 1 ELSE 2
UfIdx(r, nm) == {i \in 1..Len(r.uf) : r.uf[i].n = nm}
ROwn(r) == IF r.done = {} THEN <<>> ELSE IF r.done = Parts THEN Catalogue(r.cfg) ELSE ModFns(r.cfg, r.done)
RHas(r, nm) == UfIdx(r, nm) # {} \/ LET c == ROwn(r) IN \E i \in 1..Len(c) : c[i].n = nm
\* names of the observed results that are wrong
REvalBad(r, outs) ==
  LET u(o) == UfIdx(r, o.f)
      mine == SelectSeq(outs, LAMBDA o : u(o) # {})
      std  == SelectSeq(outs, LAMBDA o : u(o) = {} /\ RHas(r, o.f))
      unk  == SelectSeq(outs, LAMBDA o : ~ RHas(r, o.f))
      badm == SelectSeq(mine, LAMBDA o : LET w == r.uf[CHOOSE i \in u(o) : TRUE] IN ~ MatClose(o, UfVal(r, w), UfCols(w)))
      badu == SelectSeq(unk, LAMBDA o : ~ (MatShape(o, 1, 1) /\ Close(o.v[1], RI(0), RI(1))))
  IN  [i \in 1..Len(badm) |-> badm[i].f] \o [i \in 1..Len(badu) |-> badu[i].f]
      \o (IF std = <<>> THEN <<>> ELSE EvalBad(REff(r), r.env, std))

\* the offered functions, as a set of [n, r, c, args]
ROffer(r) ==
  LET c == ROwn(r)
      over(nm) == UfIdx(r, nm) # {}
      stdf == {[n |-> c[i].n, r |-> c[i].r, c |-> c[i].c, args |-> ArgNames(c[i].args)] : i \in {i \in 1..Len(c) : ~ over(c[i].n)}}
      user == {[n |-> u.n, r |-> UfRows(u), c |-> UfCols(u), args |-> u.args] : u \in {r.uf[i] : i \in 1..Len(r.uf)}}
  IN  stdf \cup user

---------------------------------------------------------------------------
(* Effect of one call: [bad, r] - bad lists what contradicts the specification.  *)
Okk(r) == [bad |-> <<>>, r |-> r]
Bad(r, b) == [bad |-> b, r |-> r]
Setters == {"q", "dq", "dqr", "ddqr", "x", "dx", "ddx", "ddxr"}
\* e.ret: value returned by the call
RSet(r, e) ==
  LET acc == Len(e.v) = ArgSize(r.cfg, e.a) IN
  [bad |-> If(e.ret = (IF acc THEN 1 ELSE 0), "ret"),
   r |-> IF acc THEN [r EXCEPT !.env[e.a] = e.v] ELSE r]
\* inertial vectors of a robot whose DYN vector is complete
RSetDyn(r, e) ==
  LET acc == Len(e.v) = 10 * r.cfg.nj IN
  [bad |-> If(e.ret = (IF acc THEN 1 ELSE 0), "ret"),
   r |-> IF acc THEN [r EXCEPT !.par["DYN"] = e.v, !.reg = RegStr(e.v)] ELSE r]
\* a robot with functions keeps the symbolic entries of the DYN vector
RSetReg(r, e) ==
  LET acc == Len(e.v) = 10 * r.cfg.nj IN
  [bad |-> If(e.ret = (IF acc THEN 1 ELSE 0), "ret"),
   r |-> IF acc THEN [r EXCEPT !.reg = e.v, !.par["DYN"] = IF r.comp THEN Select(DynStr(e.v), r.cfg.dyns) ELSE DynStr(e.v)] ELSE r]
RSetArg(r, e) ==
  [bad |-> If(e.ret = 1, "ret"),
   r |-> IF e.a = "par_REG" THEN [r EXCEPT !.reg = e.v]
         ELSE IF IsParArg(e.a) THEN [r EXCEPT !.par[ParOf(e.a)] = e.v] ELSE [r EXCEPT !.env[e.a] = e.v]]
RLoadConf(r, cfg, upd) ==      \* load_conf_par of a file describing cfg, on a robot with full vectors
  LET ps == {"DYN"} \cup (IF r.cfg.dlo > 0 THEN {"Dl"} ELSE {}) \cup (IF r.cfg.elastic THEN ElaPars ELSE {}) IN
  [r EXCEPT !.par = [p \in DOMAIN r.par |-> IF p \in ps THEN ParVal(cfg, p) ELSE r.par[p]],
            !.reg = IF upd THEN RegStr(cfg.dyn) ELSE r.reg]
RAdd_(r, e) ==     \* add_function
  LET have == RHas(r, e.u.n)
      refuse == have /\ ~ e.ow
      u == e.u
  IN  [bad |-> If(e.ret = (IF refuse THEN 0 ELSE 1), "ret"),
       r |-> IF refuse THEN r
             ELSE [r EXCEPT !.uf = SelectSeq(r.uf, LAMBDA w : w.n # u.n) \o <<u>>]]
---------------------------------------------------------------------------
(* Computing a model part by part.  Selecting the symbolic parameters fixes the   *)
(* others at the values they have then; the update at the end leaves the          *)
(* parameter vectors with the symbolic entries, and completes the robot.          *)
RSelect(r) == [r EXCEPT !.cfg = Effective(r.cfg, LAMBDA p : r.par[p])]
RUpdate(r) == [r EXCEPT !.comp = TRUE, !.par = [p \in DOMAIN r.par |-> Select(r.par[p], ParMask(r.cfg, p))]]
RModule(r, m) ==
  CASE m = "select" -> RSelect(r) [] m = "update" -> RUpdate(r)
    [] m = "user" -> [r EXCEPT !.uf = r.cfg.ufs]
    [] OTHER -> [r EXCEPT !.done = ModCall(r.cfg, r.done, m)]
---------------------------------------------------------------------------
(* raw vector (numerals) and angle flags of an argument, for files               *)
RRaw(r, a) == IF a = "par_REG" THEN [v |-> r.reg, k |-> [i \in 1..Len(r.reg) |-> 0]]
              ELSE IF IsParArg(a) THEN LET p == ParOf(a)
                                           s == Ones(ParMask(r.cfg, p))
                                       IN  [v |-> r.par[p], k |-> [i \in 1..Len(r.par[p]) |-> IF IsAngle(p, IF r.comp THEN s[i] ELSE i) THEN 1 ELSE 0]]
              ELSE [v |-> r.env[a], k |-> [i \in 1..Len(r.env[a]) |-> IF IsAngleArg(r.cfg, a, i) THEN 1 ELSE 0]]
\* load_par: the listed vectors (all of the file when none is listed)
RLoadPar(r, f, as) ==
  LET names == IF Len(as) = 0 THEN DOMAIN f.p ELSE {as[i] : i \in 1..Len(as)} IN
  [r EXCEPT !.reg = IF "par_REG" \in names THEN f.p["par_REG"].v ELSE @,
            !.par = [p \in DOMAIN r.par |-> IF ("par_" \o p) \in names THEN f.p["par_" \o p].v ELSE r.par[p]],
            !.env = [a \in DOMAIN r.env |-> IF a \in names THEN f.p[a].v ELSE r.env[a]]]
\* load_par_REG on a robot with full vectors; only what the file holds
RLoadReg(r, f, upd) ==
  [r EXCEPT !.reg = f.v, !.par = [p \in DOMAIN r.par |-> IF p = "DYN" /\ upd THEN (IF r.comp THEN Select(DynStr(f.v), r.cfg.dyns) ELSE DynStr(f.v))
                                     ELSE IF p = "Dl" /\ Len(f.Dl) > 0 THEN f.Dl ELSE r.par[p]]]
\* load_conf_par of a file with a dynamics section alone (written by save_par_DYN)
RLoadDyn(r, f, upd) ==
  [r EXCEPT !.par = [p \in DOMAIN r.par |-> IF p = "DYN" THEN f.v ELSE IF p = "Dl" /\ Len(f.Dl) > 0 THEN f.Dl ELSE r.par[p]],
            !.reg = IF upd THEN RegStr(f.v) ELSE @]
RInfoBad(r, e) ==
  LET c == r.cfg IN
  If(e.nj = c.nj, "numJoints") \o If(e.types = c.types, "jointsType") \o If((e.ela = 1) = c.elastic, "ELASTIC")
  \o If(e.ko = c.ko /\ e.do = c.do /\ e.dlo = c.dlo /\ e.dmo = c.dmo, "orders") \o If(e.ne = NumEl(c), "numElasticJoints")
  \o If(e.isel = [i \in 1..c.nj |-> IF IsSEA(c.types[i]) THEN 1 ELSE 0], "isElasticJoint")
  \o If(e.npd = 10 * c.nj /\ e.npr = 10 * c.nj, "numPar")
=============================================================================
