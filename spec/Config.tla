------------------------------- MODULE Config -------------------------------
(* What a configuration file says, and what a robot made from it offers.        *)
(*  cfg = [nj, types, elastic, dlo, ko, do, dmo,                                *)
(*         dh, dhs, base, bases, ee, ees, grav, gravs, dyn, dyns,               *)
(*         Dl, Dls, K, Ks, D, Ds, Dm, Dms, Mm, Mms]                             *)
(*  values are numerals (angles: tan of half the angle), ..s are 0/1 masks.     *)
EXTENDS Regressor, Actuation

ParNames == <<"DHtable", "world2L0", "Ln2EE", "gravity", "DYN", "Dl", "K", "D", "Dm", "Mm">>
ElaPars  == {"K", "D", "Dm", "Mm"}
ParVal(cfg, p) == CASE p = "DHtable" -> cfg.dh [] p = "world2L0" -> cfg.base [] p = "Ln2EE" -> cfg.ee
                    [] p = "gravity" -> cfg.grav [] p = "DYN" -> cfg.dyn [] p = "Dl" -> cfg.Dl
                    [] p = "K" -> cfg.K [] p = "D" -> cfg.D [] p = "Dm" -> cfg.Dm [] p = "Mm" -> cfg.Mm
ParMask(cfg, p) == CASE p = "DHtable" -> cfg.dhs [] p = "world2L0" -> cfg.bases [] p = "Ln2EE" -> cfg.ees
                    [] p = "gravity" -> cfg.gravs [] p = "DYN" -> cfg.dyns [] p = "Dl" -> cfg.Dls
                    [] p = "K" -> cfg.Ks [] p = "D" -> cfg.Ds [] p = "Dm" -> cfg.Dms [] p = "Mm" -> cfg.Mms
IsSymb(cfg, p) == \E i \in 1..Len(ParMask(cfg, p)) : ParMask(cfg, p)[i] # 0
\* is entry i of the full parameter vector p an angle?
IsAngle(p, i) == CASE p = "DHtable" -> i % 4 \in {0, 2} [] p \in {"world2L0", "Ln2EE"} -> i > 3 [] OTHER -> FALSE
\* entry i of joint vector v
IsAngleArg(cfg, v, i) == v = "q" /\ IsRev(cfg.types[i])
Num(isang, s) == IF isang THEN RAng(s) ELSE RD(s)

Select(full, mask) == LET s == Ones(mask) IN TLCEval([k \in 1..Len(s) |-> full[s[k]]])
RECURSIVE Rank(_, _)
Rank(mask, i) == IF i = 0 THEN 0 ELSE Rank(mask, i - 1) + (IF mask[i] # 0 THEN 1 ELSE 0)
\* the full vector in which the symbolic entries are those of comp (in order)
Expand(full, mask, comp) == TLCEval([i \in 1..Len(full) |-> IF mask[i] # 0 THEN comp[Rank(mask, i)] ELSE full[i]])
\* the full vector in which the symbolic entries are those of another full vector
Overlay(full, mask, other) == TLCEval([i \in 1..Len(full) |-> IF mask[i] # 0 THEN other[i] ELSE full[i]])
Zeros(n) == [i \in 1..n |-> "0"]

\* effective configuration: the configuration with the current parameter values (full vectors)
Effective(cfg, cur(_)) ==
  [cfg EXCEPT !.dh = cur("DHtable"), !.base = cur("world2L0"), !.ee = cur("Ln2EE"), !.grav = cur("gravity"),
              !.dyn = cur("DYN"), !.Dl = cur("Dl"), !.K = cur("K"), !.D = cur("D"), !.Dm = cur("Dm"), !.Mm = cur("Mm")]

ArgSize(cfg, a) == IF a = "w" THEN 6 ELSE IF a \in {"x", "dx", "ddx", "ddxr"} THEN NumEl(cfg) ELSE cfg.nj
JointArgs == <<"q", "dq", "ddq", "d3q", "d4q", "dqr", "ddqr", "w">>
ElArgs == <<"x", "dx", "ddx", "ddxr">>
ZeroEnv(cfg) == [a \in {"q","dq","ddq","d3q","d4q","dqr","ddqr","w","x","dx","ddx","ddxr"} |-> Zeros(ArgSize(cfg, a))]
---------------------------------------------------------------------------
(* The functions a robot offers: name, kind, index, size and argument list.     *)
S(i) == ToString(i)
Catalogue(cfg) ==
  LET n  == cfg.nj
      ne == NumEl(cfg)
      \* arguments: sure ones, then the parameters with at least one symbolic entry
      A(sure, ps) == sure \o SelectSeq(ps, LAMBDA p : IsSymb(cfg, p))
      f(nm, k, i, r, c, sure, ps) == [n |-> nm, k |-> k, i |-> i, r |-> r, c |-> c, args |-> A(sure, ps)]
      DW == <<"DHtable", "world2L0">>
      DWE == <<"DHtable", "world2L0", "Ln2EE">>
      DWD == <<"DHtable", "world2L0", "DYN">>
      DWGD == <<"DHtable", "world2L0", "gravity", "DYN">>
      kin == << f("T_0", "T0", 0, 4, 4, <<>>, <<"world2L0">>), f("T_0_0", "T0", 0, 4, 4, <<>>, <<"world2L0">>),
                f("T_0_ee", "T0i", n + 1, 4, 4, <<"q">>, DWE), f("T_0_" \o S(n+1), "T0i", n + 1, 4, 4, <<"q">>, DWE),
                f("J_" \o S(n+1), "J", n + 1, 6, n, <<"q">>, DWE), f("J_ee", "J", n + 1, 6, n, <<"q">>, DWE),
                f("J_ee_dot", "Jt", 1, 6, n, <<"q", "dq">>, DWE), f("J_ee_ddot", "Jt", 2, 6, n, <<"q", "dq", "ddq">>, DWE),
                f("J_ee_pinv", "Jpinv", 0, n, 6, <<"q">>, DWE) >>
             \o [i \in 1..n |-> f("T_" \o S(i), "T", i, 4, 4, <<"q">>, <<"DHtable">>)]
             \o [i \in 1..n |-> f("T_0_" \o S(i), "T0i", i, 4, 4, <<"q">>, DW)]
             \o [i \in 1..n |-> f("J_" \o S(i), "J", i, 6, n, <<"q">>, DW)]
      dyn == [i \in 1..n |-> f("J_cm_" \o S(i), "Jcm", i, 6, n, <<"q">>, DWD)]
             \o << f("M", "M", 0, n, n, <<"q">>, DWD), f("M_dot", "M", 1, n, n, <<"q", "dq">>, DWD),
                   f("M_ddot", "M", 2, n, n, <<"q", "dq", "ddq">>, DWD),
                   f("C", "C", 0, n, n, <<"q", "dq">>, DWD), f("C_std", "C", 0, n, n, <<"q", "dq">>, DWD),
                   f("C_dot", "C", 1, n, n, <<"q", "dq", "ddq">>, DWD),
                   f("C_ddot", "C", 2, n, n, <<"q", "dq", "ddq", "d3q">>, DWD),
                   f("G", "G", 0, n, 1, <<"q">>, DWGD), f("G_dot", "G", 1, n, 1, <<"q", "dq">>, DWGD),
                   f("G_ddot", "G", 2, n, 1, <<"q", "dq", "ddq">>, DWGD) >>
      reg == << f("Yr", "Yr", 0, n, 10*n, <<"q", "dq", "dqr", "ddqr">>, <<"DHtable", "world2L0", "gravity">>),
                f("reg_M", "regM", 0, n, 10*n, <<"q", "ddqr">>, DW),
                f("reg_C", "regC", 0, n, 10*n, <<"q", "dq", "dqr">>, DW),
                f("reg_G", "regG", 0, n, 10*n, <<"q">>, <<"DHtable", "world2L0", "gravity">>) >>
      ncol == Len(Ones(cfg.dhs)) + Len(Ones(cfg.bases)) + Len(Ones(cfg.ees))
      regj == IF ncol = 0 THEN <<>>
              ELSE << f("reg_Jdq", "regJdq", 0, 6, ncol, <<"q", "dq">>, DWE), f("reg_JTw", "regJTw", 0, n, ncol, <<"q", "w">>, DWE) >>
      fric == IF cfg.dlo = 0 THEN <<>>
              ELSE << f("dl", "dl", 0, n, 1, <<"dq">>, <<"Dl">>) >>
                   \o [j \in 1..cfg.dlo |-> f("Dl" \o S(j), "Dlm", j, n, n, <<>>, <<"Dl">>)]
                   \o (IF IsSymb(cfg, "Dl") THEN << f("reg_dl", "regdl", 0, n, Len(Ones(cfg.Dls)), <<"dq">>, <<>>) >> ELSE <<>>)
      el == IF ~ cfg.elastic THEN <<>>
            ELSE << f("Mm", "Mm", 0, ne, ne, <<>>, <<"Mm">>) >>
                 \o (IF cfg.ko = 0 THEN <<>> ELSE << f("k", "k", 0, ne, 1, <<"q", "x">>, <<"K">>) >>
                       \o [j \in 1..cfg.ko |-> f("K" \o S(2*j-1), "Km", j, ne, ne, <<>>, <<"K">>)])
                 \o (IF cfg.do = 0 THEN <<>> ELSE << f("d", "d", 0, ne, 1, <<"dq", "dx">>, <<"D">>) >>
                       \o [j \in 1..cfg.do |-> f("D" \o S(j), "Dmat", j, ne, ne, <<>>, <<"D">>)])
                 \o (IF cfg.dmo = 0 THEN <<>> ELSE << f("dm", "dm", 0, ne, 1, <<"dx">>, <<"Dm">>) >>
                       \o [j \in 1..cfg.dmo |-> f("Dm" \o S(j), "Dmm", j, ne, ne, <<>>, <<"Dm">>)])
                 \o (IF IsSymb(cfg, "K") THEN << f("reg_k", "regk", 0, ne, Len(Ones(cfg.Ks)), <<"q", "x">>, <<>>) >> ELSE <<>>)
                 \o (IF IsSymb(cfg, "D") THEN << f("reg_d", "regd", 0, ne, Len(Ones(cfg.Ds)), <<"dq", "dx">>, <<>>) >> ELSE <<>>)
                 \o (IF IsSymb(cfg, "Dm") THEN << f("reg_dm", "regdm", 0, ne, Len(Ones(cfg.Dms)), <<"dx">>, <<>>) >> ELSE <<>>)
                 \o (IF IsSymb(cfg, "Mm") THEN << f("reg_Mm", "regMm", 0, ne, Len(Ones(cfg.Mms)), <<"ddx">>, <<>>) >> ELSE <<>>)
  IN  kin \o dyn \o reg \o regj \o fric \o el
FnNames(cfg) == LET c == Catalogue(cfg) IN [i \in 1..Len(c) |-> c[i].n]
\* parameter names as the code spells them in argument lists
ArgName(a) == IF \E i \in 1..Len(ParNames) : ParNames[i] = a THEN "par_" \o a ELSE a
\* and back
ParOf(a) == CHOOSE p \in {ParNames[i] : i \in 1..Len(ParNames)} : "par_" \o p = a
IsParArg(a) == \E i \in 1..Len(ParNames) : "par_" \o ParNames[i] = a
ArgNames(args) == [i \in 1..Len(args) |-> ArgName(args[i])]
=============================================================================
