------------------------------- MODULE GenObj -------------------------------
(* State machine of an object of a generated class thunder_<robot>.             *)
(*  o = [cfg, env, par, full, reg]                                              *)
(*   env : joint arguments                                                      *)
(*   par : parameter vectors; DHtable, world2L0, Ln2EE and gravity have their   *)
(*         full size until a file with their section is loaded (full[p]) and    *)
(*         then hold exactly the symbolic entries; the others are always full   *)
(*   reg : the REG inertial vector                                              *)
EXTENDS RobotLib, FiniteSets

Kin4 == {"DHtable", "world2L0", "Ln2EE", "gravity"}
\* sizes of the parameter vectors of the class (motor inertia exists for every elastic joint)
OSize(cfg, p) == IF p = "Mm" THEN NumEl(cfg) ELSE Len(ParVal(cfg, p))
ONew(cfg) == [cfg |-> cfg, env |-> ZeroEnv(cfg),
              par |-> [p \in {ParNames[i] : i \in 1..Len(ParNames)} |-> Zeros(OSize(cfg, p))],
              full |-> [p \in Kin4 |-> TRUE], reg |-> Zeros(10 * cfg.nj)]
\* the symbolic entries of parameter p that the generated functions use
OComp(o, p) ==
  LET s == Ones(ParMask(o.cfg, p)) IN
  IF p \notin Kin4 THEN TLCEval([k \in 1..Len(s) |-> o.par[p][s[k]]])
  ELSE IF o.full[p] THEN SubSeq(o.par[p], 1, Len(s)) ELSE o.par[p]
\* the same object seen as a library robot with its functions
OAsRobot(o) == [cfg |-> o.cfg, comp |-> TRUE, env |-> o.env,
                par |-> [p \in {ParNames[i] : i \in 1..Len(ParNames)} |-> TLCEval(OComp(o, p))],
                reg |-> o.reg, uf |-> o.cfg.ufs, done |-> Parts]
OEvalBad(o, outs) == REvalBad(OAsRobot(o), outs)

IsPar(a) == \E i \in 1..Len(ParNames) : ParNames[i] = a
\* current vector and angle flags of argument or parameter a ("q", "DYN", "REG", ...)
OCur(o, a) == IF a = "REG" THEN o.reg ELSE IF IsPar(a) THEN o.par[a] ELSE o.env[a]
OFlag(o, a, i) == IF a = "REG" THEN FALSE
                  ELSE IF ~ IsPar(a) THEN IsAngleArg(o.cfg, a, i)
                  ELSE IF a \in Kin4 /\ ~ o.full[a] THEN IsAngle(a, Ones(ParMask(o.cfg, a))[i]) ELSE IsAngle(a, i)
OVec(o, a) == LET v == OCur(o, a) IN [i \in 1..Len(v) |-> Num(OFlag(o, a, i), v[i])]

(* A setter takes the new vector if it has the right size and else does nothing. *)
OSet(o, e) ==
  IF Len(e.v) # Len(OCur(o, e.a)) THEN o
  ELSE IF e.a = "DYN" THEN [o EXCEPT !.par["DYN"] = e.v, !.reg = IF e.upd = 1 THEN RegStr(e.v) ELSE @]
  ELSE IF e.a = "REG" THEN [o EXCEPT !.reg = e.v, !.par["DYN"] = IF e.upd = 1 THEN DynStr(e.v) ELSE @]
  ELSE IF IsPar(e.a) THEN [o EXCEPT !.par[e.a] = e.v]
  ELSE [o EXCEPT !.env[e.a] = e.v]
(* setArguments: all four or none *)
OSetAll(o, e) ==
  IF \A i \in 1..4 : Len(e.vs[i]) = o.cfg.nj
  THEN [o EXCEPT !.env["q"] = e.vs[1], !.env["dq"] = e.vs[2], !.env["dqr"] = e.vs[3], !.env["ddqr"] = e.vs[4]]
  ELSE o
OResize(o) == ONew(o.cfg)

(* load_conf of a file that describes cfg and has the sections secs               *)
Has(secs, s) == \E i \in 1..Len(secs) : secs[i] = s
\* link l of the file has no friction entry: nothing is said about its coefficients
NoFriction(cfg, i) == LET l == (i - 1) \div cfg.dlo IN \A j \in (l * cfg.dlo + 1)..(l * cfg.dlo + cfg.dlo) : cfg.Dl[j] = "0" /\ cfg.Dls[j] = 0
OLoadConf(o, cfg, secs, upd) ==
  LET kin(p, s) == IF Has(secs, s) THEN Select(ParVal(cfg, p), ParMask(o.cfg, p)) ELSE o.par[p]
      has == [p \in Kin4 |-> CASE p = "DHtable" -> Has(secs, "kinematics") [] p = "world2L0" -> Has(secs, "Base_to_L0")
                               [] p = "Ln2EE" -> Has(secs, "Ln_to_EE") [] p = "gravity" -> Has(secs, "gravity")]
      dy == Has(secs, "dynamics")
      el == Has(secs, "elastic")
  IN  [o EXCEPT
        !.par = [p \in DOMAIN o.par |->
           CASE p = "DHtable" -> kin(p, "kinematics") [] p = "world2L0" -> kin(p, "Base_to_L0")
             [] p = "Ln2EE" -> kin(p, "Ln_to_EE") [] p = "gravity" -> kin(p, "gravity")
             [] p = "DYN" -> IF dy THEN cfg.dyn ELSE o.par[p]
             [] p = "Dl" -> IF dy THEN TLCEval([i \in 1..Len(cfg.Dl) |-> IF NoFriction(cfg, i) THEN o.par[p][i] ELSE cfg.Dl[i]]) ELSE o.par[p]
             [] OTHER -> IF el /\ o.cfg.elastic THEN ParVal(cfg, p) ELSE o.par[p]],
        !.full = [p \in Kin4 |-> IF has[p] THEN FALSE ELSE o.full[p]],
        !.reg = IF dy /\ upd THEN RegStr(cfg.dyn) ELSE o.reg]

(* files                                                                          *)
\* save_par_REG / save_par_DYN
OSaveInertial(o, k) == [k |-> k, v |-> IF k = "reg" THEN o.reg ELSE o.par["DYN"], Dl |-> o.par["Dl"]]
\* names used by save_par
SaveNames == <<"DHtable", "world2L0", "Ln2EE", "gravity", "par_DYN", "par_REG", "par_K", "par_Dl", "par_D", "par_Dm", "par_Mm">>
SaveSrc(nm) == CASE nm \in Kin4 -> nm [] nm = "par_REG" -> "REG" [] OTHER -> ParOf(nm)
Kinds(o, a) == LET v == OCur(o, a) IN TLCEval([i \in 1..Len(v) |-> IF OFlag(o, a, i) THEN 1 ELSE 0])
OSavePar(o) == [k |-> "par", p |-> [nm \in {SaveNames[i] : i \in 1..Len(SaveNames)} |->
                                      [v |-> OCur(o, SaveSrc(nm)), k |-> Kinds(o, SaveSrc(nm))]]]
\* load_par_REG: only the inertial parameters of the file
OLoadReg(o, f, upd) == [o EXCEPT !.reg = f.v, !.par["DYN"] = IF upd THEN DynStr(f.v) ELSE @]
\* load_conf of a file written by save_par_DYN: the dynamics section alone
OLoadDyn(o, f, upd) == [o EXCEPT !.par["DYN"] = f.v, !.par["Dl"] = f.Dl, !.reg = IF upd THEN RegStr(f.v) ELSE @]

\* the sections a configuration file of cfg has
Sections(cfg) == <<"kinematics", "Base_to_L0", "Ln_to_EE", "dynamics">>
  \o (IF cfg.fmt.nograv = 1 /\ (\A i \in 1..3 : cfg.grav[i] = "0" /\ cfg.gravs[i] = 0) THEN <<>> ELSE <<"gravity">>) \o (IF cfg.elastic THEN <<"elastic">> ELSE <<>>)

\* inertial parameters per link of a parsed file: keys of a DYN or REG file
InKeys(k) == IF k = "reg" THEN <<"mass", "m_CoM_x", "m_CoM_y", "m_CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz">>
             ELSE <<"mass", "CoM_x", "CoM_y", "CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz">>
InertialBad(y, f) ==
  LET n == Len(f.v) \div 10
      K == InKeys(f.k)
      o == IF n = 0 THEN 0 ELSE Len(f.Dl) \div n
      link(l) == "link" \o ToString(l)
      InClose(x, l, k) == FileClose(x, RD(f.v[10*(l-1)+k]), MaxOf([i \in 1..10 |-> RD(f.v[10*(l-1)+i])], 1, 10))
      ok(l) == /\ link(l) \in DOMAIN y.dynamics
               /\ LET d == y.dynamics[link(l)] IN
                  /\ "inertial" \in DOMAIN d /\ \A k \in 1..10 : K[k] \in DOMAIN d.inertial /\ InClose(d.inertial[K[k]], l, k)
                  /\ (o = 0 \/ ("friction" \in DOMAIN d /\ "Dl" \in DOMAIN d.friction /\ VecCloseRel(d.friction["Dl"], [j \in 1..o |-> RD(f.Dl[o*(l-1)+j])])))
      bad == {l \in 1..n : ~ ok(l)}
  IN  If(bad = {}, ToString(bad)) \o If(Cardinality(DOMAIN y.dynamics) = n, "links")

OInfoBad(o, e) ==
  If(e.nj = o.cfg.nj /\ e.nj2 = o.cfg.nj, "n_joints") \o If(e.npd = 10 * o.cfg.nj /\ e.npd2 = e.npd, "numParDYN") \o If(e.npr = 10 * o.cfg.nj /\ e.npr2 = e.npr, "numParREG")
  \o If(e.name = o.cfg.name, "robotName")
  \o If((e.ela = 1) = o.cfg.elastic, "ELASTIC") \o If(e.ne = NumEl(o.cfg), "numElasticJoints")
  \o If(e.ko = o.cfg.ko /\ e.do = o.cfg.do /\ e.dlo = o.cfg.dlo /\ e.dmo = o.cfg.dmo, "orders")
  \o If(e.isel = [i \in 1..o.cfg.nj |-> IF IsSEA(o.cfg.types[i]) THEN 1 ELSE 0], "isElasticJoint")
=============================================================================
