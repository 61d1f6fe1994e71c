-------------------------------- MODULE MCMod --------------------------------
(* Computing a model part by part, in every order: the state is the set of parts   *)
(* computed so far.  TLC explores it completely and checks what users rely on;      *)
(* every call in every reachable state is replayed on the code.                     *)
(*   Group "kin": a robot with symbolic kinematic parameters; "act": one with       *)
(*   friction and elastic joints                                                    *)
EXTENDS ScenState, RobotLib, TLCExt
CONSTANTS Group, NObj
VARIABLES rob, act
vars == <<rob, act>>

Key_ == <<Seed, 961>>
c1 == TLCEval(IF Group = "kin" THEN MkCfg([DefOpt EXCEPT !.types = <<"R", "P">>, !.masks = [NoMasks EXCEPT !.dh = 2, !.base = 1, !.dyn = 2]], Key_)
              ELSE MkCfg([DefOpt EXCEPT !.types = <<"R_SEA">>, !.elastic = TRUE, !.dlo = 1, !.ko = 1, !.do = 1, !.dmo = 2, !.masks = AllMasks(1)], Key_))
Has == TLCEval(Present(c1))
Calls == IF Group = "kin" THEN {ModCalls[i] : i \in 1..Len(ModCalls)} ELSE {"kin0", "MCG", "Dl", "elastic", "dyn_adv", "dyn0", "dyn1", "Yr", "reg_J", "reg_Dl", "reg_elastic", "reg0", "reg1"}
Init == rob = [RNewF(c1) EXCEPT !.cfg = c1] /\ act = "none"
Next == \E m \in Calls : act' = m /\ rob' = [rob EXCEPT !.done = ModAfter(Has, @, m)]
Spec == Init /\ [][Next]_vars
View == rob.done
Emit == PrintT("EDGE " \o ToJson([f |-> TLCFP(rob.done), e |-> Mod(0, act'), t |-> TLCFP(rob'.done)]))
ASSUME PrintT("START " \o ToJson([id |-> Group, cfgs |-> <<c1>>, init |-> TLCFP(RNewF(c1).done), pre |-> <<NewF(0, 1), Mod(0, "select")>>, look |-> <<Fns(0)>>,
          all |-> <<Copy(1, 0), Mod(1, "update"), Fns(1)>> \o SetAllArgs(c1, 1, Key_ \o <<2>>) \o <<EvalE(1, FnNames(c1))>>, eval |-> <<>>]))
---------------------------------------------------------------------------
Sizes == /\ rob.done \subseteq Has /\ \A p \in rob.done : Needs(p) \subseteq rob.done
         \* any two calls commute, and a call does nothing the second time
         /\ \A m, k \in Calls : ModAfter(Has, ModAfter(Has, rob.done, m), k) = ModAfter(Has, ModAfter(Has, rob.done, k), m)
         /\ \A m \in Calls : ModAfter(Has, ModAfter(Has, rob.done, m), m) = ModAfter(Has, rob.done, m)
         \* the three parts together are the whole model
         /\ ModAfter(Has, ModAfter(Has, ModAfter(Has, {}, "reg1"), "dyn1"), "kin1") = Has
         /\ ModFns(c1, Has) = Catalogue(c1)
Relied == [][/\ rob.done \subseteq rob'.done /\ rob'.par = rob.par /\ rob'.env = rob.env /\ rob'.cfg = rob.cfg
             /\ (Asked(act') \cap Has) \subseteq rob'.done
             /\ rob'.done \ rob.done \subseteq Closed(Asked(act'))]_vars
=============================================================================
