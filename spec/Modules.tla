------------------------------ MODULE Modules -------------------------------
(* The parts a model is computed in.  A robot may be made without its functions  *)
(* (robot_from_file with compute = 0) and computed part by part by calling the    *)
(* compute_* functions one by one; what a call needs and has not been computed    *)
(* yet is computed first.  A part is a set of functions of the catalogue.         *)
EXTENDS Config, FiniteSets

PartOf(f) == CASE f.k \in {"T0", "T", "T0i"} -> "chain" [] f.k = "J" -> "jac" [] f.k \in {"Jt", "Jpinv"} -> "kadv"
              [] f.k = "Jcm" \/ (f.k \in {"M", "C", "G"} /\ f.i = 0) -> "mcg" [] f.k \in {"M", "C", "G"} -> "dadv"
              [] f.k \in {"Yr", "regM", "regC", "regG"} -> "yr" [] f.k \in {"regJdq", "regJTw"} -> "regj"
              [] f.k \in {"dl", "Dlm"} -> "dl" [] f.k = "regdl" -> "rdl" [] f.k \in {"regk", "regd", "regdm", "regMm"} -> "rel" [] OTHER -> "ela"
Parts == {"chain", "jac", "kadv", "mcg", "dadv", "yr", "regj", "dl", "rdl", "ela", "rel"}
Needs(p) == CASE p \in {"jac", "mcg"} -> {"chain"} [] p \in {"kadv", "yr", "regj"} -> {"chain", "jac"}
             [] p = "dadv" -> {"mcg"} [] p = "rdl" -> {"dl"} [] p = "rel" -> {"ela"} [] OTHER -> {}
RECURSIVE Closed(_)
Closed(ps) == LET m == ps \cup UNION {Needs(p) : p \in ps} IN IF m = ps THEN ps ELSE Closed(m)
\* the calls, and what each is for
ModCalls == <<"chain", "jac", "kin_adv", "kin0", "kin1", "MCG", "Dl", "elastic", "dyn_adv", "dyn0", "dyn1", "Yr", "reg_J", "reg_Dl", "reg_elastic", "reg0", "reg1">>
Asked(m) == CASE m = "chain" -> {"chain"} [] m = "jac" -> {"jac"} [] m = "kin_adv" -> {"kadv"} [] m = "kin0" -> {"chain", "jac"} [] m = "kin1" -> {"chain", "jac", "kadv"}
             [] m = "MCG" -> {"mcg"} [] m = "Dl" -> {"dl"} [] m = "elastic" -> {"ela"} [] m = "dyn_adv" -> {"dadv"}
             [] m = "dyn0" -> {"mcg", "dl", "ela"} [] m = "dyn1" -> {"mcg", "dl", "ela", "dadv"} [] m = "Yr" -> {"yr"} [] m = "reg_J" -> {"regj"}
             [] m = "reg_Dl" -> {"rdl"} [] m = "reg_elastic" -> {"rel"} [] OTHER -> {"yr", "regj", "rdl", "rel"}
\* parts without functions in this configuration do not count
Present(cfg) == LET c == TLCEval(Catalogue(cfg)) IN TLCEval({PartOf(c[i]) : i \in 1..Len(c)})
\* reg_elastic etc. of a robot without such terms computes nothing
ModAfter(present, done, m) == done \cup (Closed(Asked(m)) \cap present)
ModCall(cfg, done, m) == ModAfter(Present(cfg), done, m)
ModFns(cfg, done) == SelectSeq(TLCEval(Catalogue(cfg)), LAMBDA f : PartOf(f) \in done)
=============================================================================
