-------------------------------- MODULE Blame -------------------------------
(***************************************************************************)
(* Where a refused patch failed.  The rules of a patch are applied one by   *)
(* one; the one that fails leaves a trail of names, from the outside in:    *)
(* the device, the rule, the peripheral it matched, the rule on registers   *)
(* or clusters, the element it matched, and so on down to the entry.  What  *)
(* the tool says must name all of them, in that order.                      *)
(* case == [id, dev, patch, ed, out, said, asked, shown]                    *)
(*   said: the names quoted in the message, in order                        *)
(*   asked, shown: whether the patch was to be shown, and what was shown    *)
(***************************************************************************)
EXTENDS Steps, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k, d, trail, st
vars == <<c, k, d, trail, st>>
Case == Cases[c]
Rules == ItemsOf(Case.patch)
Init == c \in 1..Len(Cases) /\ k = 0 /\ d = Case.dev /\ trail = <<>> /\ st = "run"

\* the names in `t` appear in `s` in their order
RECURSIVE Along(_, _, _, _)
Along(t, i, s, j) ==
  IF i > Len(t) THEN TRUE
  ELSE IF j > Len(s) THEN FALSE
  ELSE IF t[i] = s[j] THEN Along(t, i + 1, s, j + 1) ELSE Along(t, i, s, j + 1)
\* is the patch shown when it was asked for, and only then?
ShownAsAsked == IF Case.asked THEN Case.shown = Some(YMap(Case.patch)) ELSE Case.shown = None

Verdict(v) == PrintT("DONE " \o ToJson([id |-> Case.id, st |-> v, depth |-> Len(trail')]))
Bad(what, want) ==
  /\ PrintT("MISMATCH " \o ToJson([id |-> Case.id, what |-> what, want |-> want, said |-> Case.said]))
  /\ Verdict("bad") /\ st' = "bad"
Apply ==
  /\ st = "run" /\ k < Len(Rules)
  /\ LET r == In(d.n, RuleOn(d, Rules[k + 1], <<>>, Case.ed)) IN
     /\ UNCHANGED c
     /\ IF IsOk(r) THEN k' = k + 1 /\ d' = r.v /\ UNCHANGED <<trail, st>>
        ELSE IF r.e = "MODEL-RANGE" THEN PrintT("RANGE " \o ToJson([id |-> Case.id])) /\ st' = "range" /\ UNCHANGED <<k, d, trail>>
        ELSE /\ UNCHANGED <<k, d>> /\ trail' = r.w
             /\ IF Case.out # "err" THEN Verdict("other") /\ st' = "other"       \* decided elsewhere
                ELSE IF ~Along(r.w, 1, Case.said, 1) THEN Bad("trail", r.w)
                ELSE IF ~ShownAsAsked THEN Bad("shown", <<r.w, Case.shown>>)
                ELSE Verdict("told") /\ st' = "told"
Finish == st = "run" /\ k = Len(Rules) /\ trail' = <<>> /\ Verdict("other") /\ st' = "other" /\ UNCHANGED <<c, k, d>>
Next == Apply \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What a user relies on                                                    *)
RECURSIVE TextsOf(_)
TextsOf(y) ==
  CASE y.t = "m" -> UNION {{y.m[i][1]} \cup TextsOf(y.m[i][2]) : i \in 1..Len(y.m)}
    [] y.t = "a" -> UNION {TextsOf(y.a[i]) : i \in 1..Len(y.a)}
    [] y.t = "s" -> {y.s}
    [] OTHER -> {}
\* the trail starts at the device and the rule that fails, and names what is in the patch or the device
TrailFromTop == st = "told" => /\ Len(trail) >= 1 /\ trail[1] = d.n
                               /\ Len(trail) >= 2 => trail[2] \in TextsOf(YMap(Case.patch))
                               /\ trail[1] = d.n
\* every rule on the way to the error is a rule of the patch: at least every other name is written in it
TrailInPatch == st = "told" => \A i \in 2..(Len(trail) - 1) :
                  trail[i] \in TextsOf(YMap(Case.patch)) \/ trail[i + 1] \in TextsOf(YMap(Case.patch))
=============================================================================
