------------------------------ MODULE Interrupts ----------------------------
(***************************************************************************)
(* `svdtools interrupts`: the interrupts of a device by number, and the     *)
(* numbers no interrupt has.                                                *)
(*   case == [id, pers, gaps, out, lines]                                   *)
(*   pers: sequence of [n, ints], ints: sequence of [n, d, v]               *)
(***************************************************************************)
EXTENDS Views, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, left, lines, next, gaps, st
vars == <<c, left, lines, next, gaps, st>>

Trimmed(s) == LET K == {i \in 1..Len(s) : ~IsSpace(Ch(s, i))} IN IF K = {} THEN "" ELSE SubSeq(s, MinOf(K), MaxOf(K))
Text(o) == IF o = None THEN "" ELSE SubstAll(Trimmed(o[1]), "\n", " ")
\* all interrupts in the order of the file, with the names of their peripherals
All == Flat([i \in 1..Len(Cases[c].pers) |->
  LET p == Cases[c].pers[i] IN [j \in 1..Len(p.ints) |-> [per |-> p.n, i |-> p.ints[j]]]])
\* the first one with the smallest number
Least == MinOf({k \in 1..Len(left) : \A j \in 1..Len(left) : left[k].i.v <= left[j].i.v})

Init == /\ c \in 1..Len(Cases) /\ left = All /\ lines = <<>> /\ next = 0 /\ gaps = <<>> /\ st = "run"
PrintLine ==
  /\ st = "run" /\ left # <<>>
  /\ LET x == left[Least] IN
     /\ lines' = Append(lines, NatStr(x.i.v) \o " " \o x.i.n \o ": " \o Text(x.i.d) \o " (in " \o x.per \o ")")
     /\ gaps' = gaps \o [k \in 1..(IF x.i.v > next THEN x.i.v - next ELSE 0) |-> next + k - 1]
     /\ next' = x.i.v + 1
     /\ left' = RemoveAt2(left, Least)
  /\ UNCHANGED <<c, st>>
Want == IF Cases[c].gaps THEN Append(lines, "Gaps: " \o Join([k \in 1..Len(gaps) |-> NatStr(gaps[k])], ", ")) ELSE lines
Done ==
  /\ st = "run" /\ left = <<>>
  /\ st' = "ok"
  /\ UNCHANGED <<c, left, lines, next, gaps>>
  /\ IF Cases[c].out = "ok" /\ Cases[c].lines = Want THEN TRUE
     ELSE PrintT("MISMATCH " \o ToJson([id |-> Cases[c].id, saw |-> Cases[c].out, want |-> Want, got |-> Cases[c].lines]))
  /\ PrintT("DONE " \o ToJson([id |-> Cases[c].id, st |-> "ok", lines |-> Len(lines)]))
Next == PrintLine \/ Done
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Numbers == {All[k].i.v : k \in 1..Len(All)}
\* every number up to the greatest is an interrupt or a gap, never both
GapsExact == st = "ok" => ToSet(gaps) = {n \in 0..(next - 1) : n \notin Numbers}
Once == \A i, j \in 1..Len(gaps) : gaps[i] = gaps[j] => i = j
AllListed == st = "ok" => Len(lines) = Len(All)
=============================================================================
