-------------------------------- MODULE Twice -------------------------------
(***************************************************************************)
(* What a command gives is a function of the command and of what the files  *)
(* it names hold: not of the place, the time, the surroundings, the number  *)
(* of processors, other files, or the commands run before.                  *)
(* case == [id, runs: <<[cmd, ins, out, say, left, kept]>>]                 *)
(*   cmd  the command, relative to the directory it runs in                 *)
(*   ins  pairs of name and contents of the files it is given               *)
(*   out  how it ended, say what it printed, left the files it wrote        *)
(*   kept whether everything else is as before                              *)
(* The machine learns what each command gives and then has to see the same. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, i, known, st
vars == <<c, i, known, st>>
Case == Cases[c]
Runs == Case.runs
Init == c \in 1..Len(Cases) /\ i = 1 /\ known = <<>> /\ st = "run"

Asked(r) == <<r.cmd, r.ins>>
Given(r) == [out |-> r.out, say |-> r.say, left |-> r.left]
Before(k, r) == {n \in 1..Len(k) : k[n].asked = Asked(r)}
Verdict(v) == PrintT("DONE " \o ToJson([id |-> Case.id, st |-> v, runs |-> i - 1, commands |-> Len(known)]))
Bad(want, saw) ==
  /\ PrintT("MISMATCH " \o ToJson([id |-> Case.id, cmd |-> Runs[i].cmd, want |-> want, saw |-> saw]))
  /\ Verdict("bad") /\ st' = "bad" /\ UNCHANGED <<c, i, known>>
Learn ==
  /\ st = "run" /\ i <= Len(Runs) /\ Before(known, Runs[i]) = {} /\ Runs[i].kept
  /\ Runs[i].out \in {"ok", "err"}
  /\ known' = Append(known, [asked |-> Asked(Runs[i]), given |-> Given(Runs[i])])
  /\ i' = i + 1 /\ UNCHANGED <<c, st>>
Again ==
  /\ st = "run" /\ i <= Len(Runs) /\ Runs[i].kept
  /\ \E n \in Before(known, Runs[i]) :
       /\ known[n].given = Given(Runs[i])
       /\ i' = i + 1 /\ UNCHANGED <<c, known, st>>
Differs ==
  /\ st = "run" /\ i <= Len(Runs)
  /\ IF ~Runs[i].kept THEN Bad("nothing else changes", "something else changed")
     ELSE IF Runs[i].out \notin {"ok", "err"} THEN Bad("an end", Runs[i].out)
     ELSE /\ Before(known, Runs[i]) # {}
          /\ \A n \in Before(known, Runs[i]) : known[n].given # Given(Runs[i])
          /\ Bad(known[CHOOSE n \in Before(known, Runs[i]) : TRUE].given, Given(Runs[i]))
Finish == st = "run" /\ i > Len(Runs) /\ Verdict("ok") /\ st' = "ok" /\ UNCHANGED <<c, i, known>>
Next == Learn \/ Again \/ Differs \/ Finish
Spec == Init /\ [][Next]_vars

\* one answer to each question, kept for good
OneAnswer == \A m, n \in 1..Len(known) : known[m].asked = known[n].asked => m = n
Kept == [][SubSeq(known', 1, Len(known)) = known]_vars
\* a command that fails writes nothing
FailWritesNothing == \A n \in 1..Len(known) : known[n].given.out = "err" => known[n].given.left = <<>>
=============================================================================
