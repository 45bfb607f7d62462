------------------------------- MODULE Explore ------------------------------
(***************************************************************************)
(* Histories of patches: a file is patched, what comes out is patched       *)
(* again, and so on.  TLC walks the whole graph of the devices that can be   *)
(* reached from a few devices with the patches of a catalogue, checks what   *)
(* a user relies on at every step of every rule, and prints every edge of   *)
(* the graph; each of them is then replayed on the real tool.               *)
(* RULES: [n, patch, parts] per patch; parts: the patches this one holds     *)
(*   (their numbers), one after the other, or none; such a patch is a        *)
(*   history of its own                                                     *)
(***************************************************************************)
EXTENDS PatchProps

Rules == ndJsonDeserialize(IOEnv.RULES)
CONSTANT Depth
VARIABLES hist,  \* numbers of the patches applied so far
          src    \* the device the patch at hand started from
all == <<c, dev, todo, st, hist, src>>
Now_ == hist[Len(hist)]

Begin == Init /\ hist = <<>> /\ src = dev

\* the next patch
Choose(r) ==
  /\ st = "run" /\ todo = <<>> /\ Len(hist) < Depth
  /\ hist # <<>> => Rules[r].parts = <<>> /\ Rules[Now_].parts = <<>>
  /\ hist' = Append(hist, r)
  /\ src' = dev
  /\ todo' = <<Step("open", "", NullY, "", "")>> \o ItemsOf(Rules[r].patch)
  /\ UNCHANGED <<c, dev, st>>
\* its rules, as in any run
Apply ==
  /\ \/ Fail \/ DeletePeripherals \/ CopyPeripheral \/ ModifyDevice \/ ClearPeripherals
     \/ AddPeripheral \/ DerivePeripheral \/ RebasePeripheral \/ MatchPeripherals \/ PeripheralSection \/ Nothing
  /\ UNCHANGED <<hist, src>>
Open == Head0("open") /\ todo' = Append(Tail(todo), Step("close", "", NullY, "", "")) /\ UNCHANGED <<c, dev, st, hist, src>>
Point(out, d) == PrintT("POINT " \o ToJson([c |-> Case.id, hist |-> hist, out |-> out, dev |-> d]))
\* the file is written: what the next patch reads
Close == /\ Head0("close")
         /\ dev' = NormDev(dev)
         /\ todo' = <<>>
         /\ Point("", <<dev'>>)
         /\ UNCHANGED <<c, st, hist, src>>
\* nothing is written, the history ends
Stop == /\ st \notin {"run", "over"}
        /\ st' = "over"
        /\ Point(st, <<>>)
        /\ UNCHANGED <<c, dev, todo, hist, src>>
Walk == (\E r \in 1..Len(Rules) : Choose(r)) \/ Open \/ Apply \/ Close \/ Stop
Graph == Begin /\ [][Walk]_all

\* how a device was reached does not matter, only how many patches may still come
Seen == <<c, dev, todo, st, IF st = "run" /\ todo = <<>> THEN dev ELSE src, Len(hist)>>

-----------------------------------------------------------------------------
\* a patch is the same as its parts one after the other
InParts(d, ps) == FoldR(LAMBDA e, r : Bind(Patched(e, Rules[r].patch, Case.files, Case.ed), LAMBDA x : Ok(NormDev(x))), d, ps)
PartsAlike == [][
  /\ (Head0("close") /\ todo' = <<>> /\ Rules[Now_].parts # <<>>) => InParts(src, Rules[Now_].parts) = Ok(dev')
  /\ (st' = "over" /\ Rules[Now_].parts # <<>>) => ~IsOk(InParts(src, Rules[Now_].parts)) ]_all
\* a failed patch leaves nothing behind
Atomic == [][st' # st => dev' = dev]_all
\* what is written can be written again, and says the same
Stable == (st = "run" /\ todo = <<>>) => NormDev(dev) = dev
\* a step of the machine as a function: the machine and the function of whole patches agree
WholeAlike == [][
  Head0("close") /\ todo' = <<>> => Patched(src, Rules[Now_].patch, Case.files, Case.ed) = Ok(dev) ]_all
=============================================================================
