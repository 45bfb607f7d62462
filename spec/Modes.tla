-------------------------------- MODULE Modes -------------------------------
(***************************************************************************)
(* The three ways of writing enumerated values that several fields share:   *)
(* copied to every field, derived from those of the first field, or the     *)
(* fields derived from the first field.  The machine runs one patch in      *)
(* each mode, and each outcome is then expanded.                            *)
(* case == [id, dev, m: patch, fresh, runs: <<[mode, out, dev, xout, x]>>]  *)
(*   fresh: no rule gives values to a field that has some or that another   *)
(*          rule with other fields matches, and no field is derived         *)
(***************************************************************************)
EXTENDS Steps, ExpandOps, Valid, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, at, st
vars == <<c, at, st>>
Case == Cases[c]
Runs == Case.runs
Init == c \in 1..Len(Cases) /\ at = 0 /\ st = "run"

-----------------------------------------------------------------------------
\* what a field says about reading and writing: pairs of direction and values
Ways(ac) == CASE ac = "read-only" -> {"read"} [] ac \in {"write-only", "writeOnce"} -> {"write"} [] OTHER -> {"read", "write"}
WaysOf(e) == IF e.us = None \/ e.us = Some("read-write") THEN {"read", "write"} ELSE {e.us[1]}
Says(f, ac) == UNION {{<<w, f.evs[i].vals>> : w \in WaysOf(f.evs[i]) \cap Ways(ac)} : i \in 1..Len(f.evs)}
SameValues(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) :
       /\ a[i].n = b[i].n /\ a[i].off = b[i].off /\ a[i].w = b[i].w
       /\ Says(a[i], OrElse(a[i].ac, "read-write")) = Says(b[i], OrElse(a[i].ac, "read-write"))
\* expanded devices: registers only
SameRegs(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) :
       /\ [a[i] EXCEPT !.fs = None] = [b[i] EXCEPT !.fs = None]
       /\ SameValues([k \in 1..Len(FieldsOf(a[i])) |-> [FieldsOf(a[i])[k] EXCEPT !.ac = Some(FAccess(a[i], FieldsOf(a[i])[k]))]],
                     FieldsOf(b[i]))
SameDevices(a, b) ==
  /\ Len(a.pers) = Len(b.pers)
  /\ [a EXCEPT !.pers = <<>>] = [b EXCEPT !.pers = <<>>]
  /\ \A i \in 1..Len(a.pers) :
       /\ [a.pers[i] EXCEPT !.regs = None] = [b.pers[i] EXCEPT !.regs = None]
       /\ SameRegs(KidsOfPer(a.pers[i]), KidsOfPer(b.pers[i]))
\* devices as written: nothing else differs
\* (a field made a derived one loses what it said about actions and constraints: it takes these from its source)
Bare(f) == [f EXCEPT !.evs = <<>>, !.df = None, !.mwv = None, !.ra = None, !.wc = None]
RECURSIVE BareKid(_)
BareKid(x) == IF IsReg(x) THEN [x EXCEPT !.fs = IF x.fs = None THEN None ELSE Some([i \in 1..Len(x.fs[1]) |-> Bare(x.fs[1][i])])]
              ELSE [x EXCEPT !.ch = [i \in 1..Len(x.ch) |-> BareKid(x.ch[i])]]
BareDev(d) == [d EXCEPT !.pers = [i \in 1..Len(d.pers) |->
                 [d.pers[i] EXCEPT !.regs = IF @ = None THEN None ELSE Some([k \in 1..Len(@[1]) |-> BareKid(@[1][k])])]]]

Verdict(v) == PrintT("DONE " \o ToJson([id |-> Case.id, st |-> v, modes |-> at]))
Bad(what, want, saw) ==
  /\ PrintT("MISMATCH " \o ToJson([id |-> Case.id, at |-> what, want |-> want, saw |-> saw]))
  /\ Verdict("bad") /\ st' = "bad" /\ UNCHANGED <<c, at>>
OutOfRange == PrintT("RANGE " \o ToJson([id |-> Case.id])) /\ st' = "range" /\ UNCHANGED <<c, at>>
\* each run is as specified
Run ==
  /\ st = "run" /\ at < Len(Runs)
  /\ LET r == Runs[at + 1]
         p == Patched(Case.dev, Case.m, <<>>, r.mode)
     IN IF ~IsOk(p)
        THEN IF p.e = "MODEL-RANGE" THEN OutOfRange
             ELSE IF r.out = "err" THEN at' = at + 1 /\ UNCHANGED <<c, st>> ELSE Bad(r.mode, p.e, r.out)
        ELSE IF r.out = "ok" /\ r.dev = NormDev(p.v) THEN at' = at + 1 /\ UNCHANGED <<c, st>>
        ELSE Bad(r.mode, "ok", r.out)
\* and, where the rules only meet fields without values, all of them mean the same
Finish ==
  /\ st = "run" /\ at = Len(Runs)
  /\ IF ~Case.fresh THEN Verdict("any") /\ st' = "any" /\ UNCHANGED <<c, at>>
     ELSE IF \E i \in 1..Len(Runs) : Runs[i].out # Runs[1].out THEN Bad("outcome", Runs[1].out, [i \in 1..Len(Runs) |-> Runs[i].out])
     ELSE IF Runs[1].out # "ok" THEN Verdict("err") /\ st' = "err" /\ UNCHANGED <<c, at>>
     ELSE IF \E i \in 1..Len(Runs) : BareDev(Runs[i].dev) # BareDev(Runs[1].dev) THEN Bad("rest", "same", "differs")
     ELSE IF \E i \in 1..Len(Runs) : Runs[i].xout # Runs[1].xout THEN Bad("expansion", Runs[1].xout, [i \in 1..Len(Runs) |-> Runs[i].xout])
     ELSE IF Runs[1].xout # "ok" THEN Verdict("unexpandable") /\ st' = "err" /\ UNCHANGED <<c, at>>
     ELSE IF \E i \in 1..Len(Runs) : ~SameDevices(Runs[1].x, Runs[i].x)
          THEN Bad("values", "same", [i \in 1..Len(Runs) |-> SameDevices(Runs[1].x, Runs[i].x)])
     ELSE Verdict("ok") /\ st' = "ok" /\ UNCHANGED <<c, at>>
Next == Run \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* the specification itself: its three modes mean the same once expanded
Expansion(mode) == Bind(Patched(Case.dev, Case.m, <<>>, mode), LAMBDA d : ExpDev(NormDev(d)))
ModesAlike ==
  (st = "ok" /\ Case.fresh) =>
     LET a == Expansion("none") IN IsOk(a) => \A m \in {"enum", "field"} : LET b == Expansion(m) IN IsOk(b) /\ SameDevices(NormDev(a.v), NormDev(b.v))
\* copies refer to nothing, derived values leave the fields alone
\* (in the mode of derived fields, values are derived where the usage differs)
RECURSIVE LinksOf(_)
LinksOf(xs) ==
  FoldLeft(LAMBDA a, x :
    IF ~IsReg(x) THEN LET b == LinksOf(x.ch) IN <<a[1] + b[1], a[2] + b[2]>>
    ELSE FoldLeft(LAMBDA b, f : <<b[1] + (IF f.df = None THEN 0 ELSE 1), b[2] + Len(SelectSeq(f.evs, LAMBDA e : e.df # None))>>,
                  a, FieldsOf(x)), <<0, 0>>, xs)
Links(d) == [i \in 1..Len(d.pers) |-> LinksOf(KidsOfPer(d.pers[i]))]
LinksAsAsked ==
  (st = "ok" /\ Case.fresh) => \A i \in 1..Len(Runs) : \A k \in 1..Len(Case.dev.pers) :
     LET old == Links(Case.dev)[k]
         new == Links(Runs[i].dev)[k]
     IN /\ Runs[i].mode # "field" => new[1] = old[1]
        /\ Runs[i].mode = "none" => new[2] = old[2]
=============================================================================
