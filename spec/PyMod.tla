-------------------------------- MODULE PyMod --------------------------------
(* The Python module of a generated robot: module thunder_<name>_py with class   *)
(* thunder_<name>; every method has the documented keywords and defaults.        *)
EXTENDS GenObj
PyModName(n) == "thunder_" \o n \o "_py"
PyClsName(n) == "thunder_" \o n
A0(n) == [n |-> n, d |-> ""]
AT(n) == [n |-> n, d |-> "True"]
M1(n, as) == [n |-> n, args |-> as]
PyEnv == <<"q", "dq", "ddq", "d3q", "d4q", "dqr", "ddqr", "x", "dx", "ddx", "ddxr", "w">>
PyPar == <<"K", "D", "Dm", "Mm", "Dl", "DHtable", "gravity", "world2L0", "Ln2EE">>
PyFixed ==
  {M1("resizeVariables", <<>>), M1("setArguments", <<A0("q"), A0("dq"), A0("dqr"), A0("ddqr")>>),
   M1("set_par_REG", <<A0("par"), AT("update_DYN")>>), M1("set_par_DYN", <<A0("par"), AT("update_REG")>>),
   M1("get_par_REG", <<>>), M1("get_par_DYN", <<>>), M1("get_numJoints", <<>>), M1("get_numParDYN", <<>>), M1("get_numParREG", <<>>),
   M1("load_par_REG", <<A0("file_path"), AT("update_DYN")>>), M1("load_conf", <<A0("file_path"), AT("update_REG")>>),
   M1("save_par_REG", <<A0("file_path")>>), M1("save_par_DYN", <<A0("file_path")>>), M1("save_par", <<A0("file_path")>>)}
  \cup {M1("set_" \o PyEnv[i], <<A0(PyEnv[i])>>) : i \in 1..Len(PyEnv)}
  \cup {M1("set_par_" \o PyPar[i], <<A0("par")>>) : i \in 1..Len(PyPar)} \cup {M1("get_par_" \o PyPar[i], <<>>) : i \in 1..Len(PyPar)}
PyWant(o) == PyFixed \cup {M1("get_" \o x.n, <<>>) : x \in ROffer(OAsRobot(o))}
\* names of methods that are missing, defined twice or with other arguments, or of functions the robot does not have
PyModBad(o, name, e) ==
  LET want == PyWant(o)
      defs(n) == SelectSeq(e.defs, LAMBDA d : d.n = n)
      bad == {w.n : w \in {x \in want : LET d == defs(x.n) IN Len(d) # 1 \/ d[1] # x}}
  IN  If(e.mod = PyModName(name), "module " \o e.mod) \o If(\E i \in 1..Len(e.classes) : e.classes[i] = PyClsName(name), "class")
      \o If(bad = {}, ToString(bad))
PyInfoBad(o, e) == If(e.nj = o.cfg.nj, "get_numJoints") \o If(e.npd = 10 * o.cfg.nj, "get_numParDYN") \o If(e.npr = 10 * o.cfg.nj, "get_numParREG")
=============================================================================
