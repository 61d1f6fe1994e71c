-------------------------------- MODULE GenFs --------------------------------
(* What runs of the generator do to the file system.  A tree is a function from  *)
(* path names to [d, ci, n]: a description of the content, the configuration and *)
(* the robot name it was made from.  Two files with equal descriptions have      *)
(* equal content, wherever and whenever they were made.                          *)
EXTENDS Integers, Sequences, TLC

RECURSIVE Join(_)
Join(p) == IF p = <<>> THEN "" ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o "/" \o Join(Tail(p))
In(dir, f) == Join(Append(dir, f))
Put1(t, p, x) == (p :> x) @@ t
RECURSIVE PutAll(_, _)
PutAll(t, ps) == IF ps = <<>> THEN t ELSE PutAll(Put1(t, ps[1][1], ps[1][2]), Tail(ps))

CfgFile(ci) == [d |-> "cfg " \o ToString(ci), ci |-> ci, n |-> ""]
Stray(x) == [d |-> "stray " \o x, ci |-> 0, n |-> ""]
Made(k, n, ci) == [d |-> k \o " " \o n \o " " \o ToString(ci), ci |-> ci, n |-> n]

OutDir(cwd, n) == Append(cwd, n \o "_generatedFiles")
\* the six files of a library; thunder_<n>.cpp also depends on the Python option
SixOf(n, ci, py) ==
  <<<<"H", n \o "_gen.h", Made("gen.h", n, ci)>>, <<"C", n \o "_gen.cpp", Made("gen.cpp", n, ci)>>,
    <<"H", "thunder_" \o n \o ".h", Made("class.h", n, ci)>>, <<"C", "thunder_" \o n \o ".cpp", Made(IF py THEN "class.cpp+py" ELSE "class.cpp", n, ci)>>,
    <<"Y", n \o "_conf.yaml", Made("conf", n, ci)>>, <<"Y", n \o "_par_REG.yaml", Made("reg", n, ci)>>>>
\* parent of a directory, three levels up, is the checkout when the generator runs in a build directory
IsBuild(cwd) == Len(cwd) > 0 /\ cwd[Len(cwd)] = "build"
CheckoutOf(cwd) == SubSeq(cwd, 1, Len(cwd) - 3)
CopyDir(cwd, proj, kind) == CheckoutOf(cwd) \o <<"src", proj, CASE kind = "H" -> "library" [] kind = "C" -> "src" [] OTHER -> "robots">>

(* one run: options [n, ci, p, f, c] in directory cwd; fns: names of the functions of configuration ci *)
Outputs(cwd, n, ci, p, f, c, fns) ==
  LET six == SixOf(n, ci, p)
      out == OutDir(cwd, n)
      own == [i \in 1..6 |-> <<In(out, six[i][2]), six[i][3]>>]
      cp(proj) == [i \in 1..6 |-> <<In(CopyDir(cwd, proj, six[i][1]), six[i][2]), six[i][3]>>]
  IN  own \o (IF p THEN <<<<In(out, "CMakeLists.txt"), Made("cmake", n, ci)>>>> ELSE <<>>)
      \o (IF f THEN [i \in 1..Len(fns) |-> <<In(out, fns[i] \o ".casadi"), Made("casadi " \o fns[i], n, ci)>>] ELSE <<>>)
      \o (IF c /\ IsBuild(cwd) THEN cp("thunder_robot") \o cp("thunder_robot_chrono") ELSE <<>>)
RunGen(t, cwd, n, ci, p, f, c, fns) == PutAll(t, Outputs(cwd, n, ci, p, f, c, fns))

\* the robot name: given, or the name of the configuration file without .yaml (base: that name)
RobotName(given, base) == IF given # "" THEN given ELSE base

\* files of the robot's own directory that this run did not write may stay or go
Loose(t, cwd, n, outs) == LET o == Join(OutDir(cwd, n)) \o "/" IN {p \in DOMAIN t : Len(p) > Len(o) /\ SubSeq(p, 1, Len(o)) = o} \ {outs[i][1] : i \in 1..Len(outs)}
(* observed listing: obs maps path to content signature.  Known signatures by description. *)
TreeBad(t, sig, obs, loose) ==
  LET miss == (DOMAIN t \ DOMAIN obs) \ loose
      extra == DOMAIN obs \ DOMAIN t
      diff == {p \in DOMAIN t \cap DOMAIN obs : t[p].d \in DOMAIN sig /\ sig[t[p].d] # obs[p]}
      \* two files made in this run with the same description
      two == {p \in DOMAIN t \cap DOMAIN obs : \E r \in DOMAIN t \cap DOMAIN obs : t[p].d = t[r].d /\ obs[p] # obs[r]}
  IN  (IF miss = {} THEN <<>> ELSE <<"missing " \o ToString(miss)>>) \o (IF extra = {} THEN <<>> ELSE <<"unexpected " \o ToString(extra)>>)
      \o (IF diff = {} THEN <<>> ELSE <<"content " \o ToString(diff)>>) \o (IF two = {} THEN <<>> ELSE <<"differ " \o ToString(two)>>)
Learn(t, sig, obs) == LET ps == DOMAIN t \cap DOMAIN obs IN [d \in {t[p].d : p \in ps} |-> obs[CHOOSE p \in ps : t[p].d = d]] @@ sig
=============================================================================
