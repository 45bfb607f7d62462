----------------------------- MODULE PatchMachine ---------------------------
(***************************************************************************)
(* Applying a patch to a device, one rule at a time, in the documented      *)
(* order of the sections.  One action per kind of rule.                     *)
(*                                                                          *)
(* The same machine is used to validate recorded runs of the real tool: a   *)
(* case holds the device read, the merged patch, and what the tool produced *)
(* for the whole patch and for some of its prefixes (observations).         *)
(*   case == [id, dev, files, patch, ed, obs]                               *)
(*   obs  == sequence of [at, out, dev]; `at` names the point of the run    *)
(*           ("i" after item i, "i/section" inside of peripheral item i,    *)
(*           "end" for the whole patch); out \in {"ok","err","panic"}       *)
(***************************************************************************)
EXTENDS Steps, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c,     \* number of the case
          dev,   \* the device so far
          todo,  \* steps still to be done
          st     \* "run", "ok", or the reason of the failure
vars == <<c, dev, todo, st>>

Case == Cases[c]
-----------------------------------------------------------------------------
(* Observations                                                             *)
Want(o, d, s) == \* does observation o agree with device d and status s?
  IF s # "" THEN o.out = "err" ELSE o.out = "ok" /\ o.dev = NormDev(d)
ObsAt(at) == {i \in 1..Len(Case.obs) : Case.obs[i].at = at}
Report(i, d, s) ==
  PrintT("MISMATCH " \o ToJson([id |-> Case.id, at |-> Case.obs[i].at, spec |-> IF s = "" THEN "ok" ELSE s,
                                saw |-> Case.obs[i].out, dev |-> IF s = "" THEN <<NormDev(d)>> ELSE <<>>]))
\* observations at point `at` and (when the run ends) all later ones
Check(at, d, s, end) ==
  IF s = "MODEL-RANGE" THEN PrintT("RANGE " \o ToJson([id |-> Case.id]))
  ELSE /\ \A i \in ObsAt(at) \cup (IF end THEN ObsAt("end") ELSE {}) :
            IF Want(Case.obs[i], d, s) THEN TRUE ELSE Report(i, d, s)
       /\ IF end THEN PrintT("DONE " \o ToJson([id |-> Case.id, st |-> IF s = "" THEN "ok" ELSE s])) ELSE TRUE

-----------------------------------------------------------------------------
Init ==
  /\ c \in 1..Len(Cases)
  /\ dev = Cases[c].dev
  /\ todo = ItemsOf(Cases[c].patch)
  /\ st = "run"

\* the step at the head is done with result r; nothing is produced on failure
Finish(r, at) ==
  IF IsOk(r)
  THEN /\ dev' = r.v
       /\ todo' = Tail(todo)
       /\ st' = "run"
       /\ UNCHANGED c
       /\ Check(at, r.v, "", FALSE)
  ELSE /\ st' = r.e
       /\ todo' = <<>>
       /\ UNCHANGED <<c, dev>>
       /\ Check(at, dev, r.e, TRUE)
Head0(k) == st = "run" /\ todo # <<>> /\ todo[1].k = k
AsMapThen(F(_)) == Bind(AsMap(todo[1].y), F)

Fail == Head0("fail") /\ Finish(Err(todo[1].s), todo[1].at)
DeletePeripherals == Head0("_delete") /\ Finish(Ok(DeletePer(dev, todo[1].s)), todo[1].at)
CopyPeripheral == Head0("_copy") /\ Finish(AsMapThen(LAMBDA h : CopyPer(dev, todo[1].s, h, Case.files)), todo[1].at)
ModifyDevice == Head0("_modify") /\ Finish(ModifyDev(dev, todo[1].s, todo[1].y), todo[1].at)
ClearPeripherals == Head0("_clear_fields") /\ Finish(Ok(ClearPers(dev, todo[1].s)), todo[1].at)
AddPeripheral == Head0("_add") /\ Finish(AsMapThen(LAMBDA h : AddPer(dev, todo[1].s, h)), todo[1].at)
DerivePeripheral == Head0("_derive") /\ Finish(DerivePer(dev, todo[1].s, todo[1].y), todo[1].at)
RebasePeripheral == Head0("_rebase")
                    /\ Finish(Bind(AsStr(todo[1].y), LAMBDA o : RebasePer(dev, todo[1].s, o)), todo[1].at)
MatchPeripherals ==
  /\ Head0("peripheral")
  /\ LET x == todo[1] S == PersAt(dev, SpecOf(x.s)) IN
     IF x.y.t # "m" THEN Finish(Err("not-map"), x.at)
     ELSE IF S = {} /\ ~IsOptional(x.s) THEN Finish(Err("no-peripheral"), x.at)
     ELSE /\ todo' = Sections(S, x) \o Tail(todo)
          /\ UNCHANGED <<c, dev, st>>
PeripheralSection ==
  Head0("section") /\ Finish(PerPhase(dev, todo[1].s, todo[1].y.m, Case.ed, todo[1].ph), todo[1].at)
Nothing == Head0("nothing") /\ Finish(Ok(dev), todo[1].at)
Done ==
  /\ st = "run" /\ todo = <<>>
  /\ st' = "ok"
  /\ UNCHANGED <<c, dev, todo>>
  /\ Check("", dev, "", TRUE)

Next == \/ Fail \/ DeletePeripherals \/ CopyPeripheral \/ ModifyDevice \/ ClearPeripherals
        \/ AddPeripheral \/ DerivePeripheral \/ RebasePeripheral \/ MatchPeripherals
        \/ PeripheralSection \/ Nothing \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
