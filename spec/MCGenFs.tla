------------------------------- MODULE MCGenFs -------------------------------
(* All histories of up to MaxRuns runs in a small world: two robot names, two    *)
(* configurations, two directories (one of them a build directory), all options. *)
EXTENDS GenFs, FiniteSets
CONSTANT MaxRuns
VARIABLES tree, last, runs
vars == <<tree, last, runs>>
Names == {"arm", "arm_gen"}
Dirs == {<<"w">>, <<"co", "src", "thunder", "build">>}
Fns == <<"M", "G">>
Start == PutAll(<<>>, <<<<"w/a.yaml", CfgFile(1)>>, <<"w/b.yaml", CfgFile(2)>>, <<"w/arm_generatedFiles/note.txt", Stray("x")>>, <<"co/src/thunder_robot/library/own.h", Stray("y")>>>>)
Init == tree = Start /\ last = [cwd |-> <<>>, n |-> "", ci |-> 0, p |-> FALSE, f |-> FALSE, c |-> FALSE, old |-> Start] /\ runs = 0
Gen(cwd, n, ci, p, f, c) ==
  /\ runs < MaxRuns
  /\ tree' = RunGen(tree, cwd, n, ci, p, f, c, Fns)
  /\ last' = [cwd |-> cwd, n |-> n, ci |-> ci, p |-> p, f |-> f, c |-> c, old |-> tree]
  /\ runs' = runs + 1
Next == \E cwd \in Dirs, n \in Names, ci \in 1..2, p, f, c \in BOOLEAN : Gen(cwd, n, ci, p, f, c)
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Last == Outputs(last.cwd, last.n, last.ci, last.p, last.f, last.c, Fns)
LastPaths == {Last[i][1] : i \in 1..Len(Last)}
\* files that are not the robot's own are untouched
Others == \A p \in DOMAIN last.old : tree[p] # last.old[p] => (p \in LastPaths /\ last.old[p].n = last.n)
Kept == DOMAIN last.old \subseteq DOMAIN tree
\* no two outputs of one run share a path
Apart == runs > 0 => Cardinality(LastPaths) = Len(Last)
\* running again changes nothing
Again == runs > 0 => RunGen(tree, last.cwd, last.n, last.ci, last.p, last.f, last.c, Fns) = tree
\* the six files of a library always come from the same configuration
SixSame == \A cwd \in Dirs, n \in Names :
   LET six == SixOf(n, 1, FALSE)
       ps == {In(OutDir(cwd, n), six[i][2]) : i \in 1..6} \cap DOMAIN tree
   IN  ps = {} \/ (Cardinality(ps) = 6 /\ Cardinality({tree[p].ci : p \in ps}) = 1)
\* the copies in a checkout come from one configuration too, the one last copied
CopySame == \A n \in Names : \A pr \in {"thunder_robot", "thunder_robot_chrono"} :
   LET six == SixOf(n, 1, FALSE)
       ps == {In(CopyDir(<<"co", "src", "thunder", "build">>, pr, six[i][1]), six[i][2]) : i \in 1..6} \cap DOMAIN tree
   IN  ps = {} \/ (Cardinality(ps) = 6 /\ Cardinality({tree[p].ci : p \in ps}) = 1)
StrayKept == tree["w/arm_generatedFiles/note.txt"] = Stray("x") /\ tree["co/src/thunder_robot/library/own.h"] = Stray("y") /\ tree["w/a.yaml"] = CfgFile(1)
=============================================================================
