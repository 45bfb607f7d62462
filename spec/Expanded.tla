------------------------------- MODULE Expanded -----------------------------
(***************************************************************************)
(* Conversions that write a device out: --expand, --expand-properties and   *)
(* --ignore-enums, one peripheral after the other.                          *)
(* case == [id, dev, xp, ex, ign, out, got]                                 *)
(***************************************************************************)
EXTENDS ExpandOps, Valid, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, at, done, st
vars == <<c, at, done, st>>
Case == Cases[c]
Init == c \in 1..Len(Cases) /\ at = 0 /\ done = <<>> /\ st = "run"

Read == IF Case.ign THEN NoEnumDev(Case.dev) ELSE Case.dev
Known2 == IF Case.xp THEN PropDev(Read) ELSE Read
Outer(d) == [d EXCEPT !.pers = <<>>]
Verdict(v) == PrintT("DONE " \o ToJson([id |-> Case.id, st |-> v, peripherals |-> Len(done)]))
Bad(want, saw) ==
  /\ PrintT("MISMATCH " \o ToJson([id |-> Case.id, at |-> at, want |-> want, saw |-> saw]))
  /\ Verdict("bad") /\ st' = "bad" /\ UNCHANGED <<c, at, done>>
Start ==
  /\ st = "run" /\ at = 0
  /\ IF Case.svd /\ ~VDev(Read, FALSE)
     THEN IF Case.out = "ok" THEN Bad("invalid", "ok")
          ELSE Verdict("err") /\ st' = "err" /\ UNCHANGED <<c, at, done>>
     ELSE at' = 1 /\ UNCHANGED <<c, done, st>>
One(p) == IF Case.ex THEN ExpPer(Known2, p) ELSE Ok(<<p>>)
Continue ==
  /\ st = "run" /\ at > 0 /\ at <= Len(Case.dev.pers)
  /\ LET r == One(Known2.pers[at]) IN
     IF ~IsOk(r)
     THEN IF r.e = "MODEL-RANGE"
          THEN PrintT("RANGE " \o ToJson([id |-> Case.id])) /\ st' = "range" /\ UNCHANGED <<c, at, done>>
          ELSE IF Case.out = "err" THEN Verdict("err") /\ st' = "err" /\ UNCHANGED <<c, at, done>>
          ELSE Bad(r.e, Case.out)
     ELSE LET ps == [i \in 1..Len(r.v) |-> NormPer(r.v[i])]
              n == Len(done)
              got == SubSeq(Case.got.pers, n + 1, IF n + Len(ps) > Len(Case.got.pers) THEN Len(Case.got.pers) ELSE n + Len(ps))
          IN IF Case.out # "ok" THEN done' = done \o ps /\ at' = at + 1 /\ UNCHANGED <<c, st>>
             ELSE IF got = ps THEN done' = done \o ps /\ at' = at + 1 /\ UNCHANGED <<c, st>>
             ELSE Bad(ps, got)
Finish ==
  /\ st = "run" /\ at = Len(Case.dev.pers) + 1
  /\ IF Case.out = "ok" /\ Len(Case.got.pers) = Len(done) /\ [Case.got EXCEPT !.pers = <<>>] = Outer(Case.dev)
     THEN Verdict("ok") /\ st' = "ok" /\ UNCHANGED <<c, at, done>>
     ELSE Bad("ok", Case.out)
Next == Start \/ Continue \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What a user relies on                                                    *)
Regs(p) == KidsOfPer(p)
\* nothing is left to be looked up elsewhere
Plain ==
  Case.ex => \A i \in 1..Len(done) :
     /\ done[i].df = None /\ done[i].dim = None
     /\ \A k \in 1..Len(Regs(done[i])) :
          LET r == Regs(done[i])[k] IN
          /\ IsReg(r) /\ r.df = None /\ r.dim = None
          /\ \A m \in 1..Len(FieldsOf(r)) :
               LET f == FieldsOf(r)[m] IN f.df = None /\ f.dim = None /\ \A e \in 1..Len(f.evs) : f.evs[e].df = None
\* every place of a register of the device is a place of a register of the expanded one, as often
RECURSIVE PlacesOf(_, _, _, _)
PlacesOf(d, x, path, base) ==
  LET r == IF x.df = None THEN Ok([x |-> x, at |-> None])
           ELSE IF IsReg(x) THEN ResReg(d, [x EXCEPT !.df = None], x.df[1], path, Fuel)
           ELSE ResClu(d, [x EXCEPT !.df = None], x.df[1], path, Fuel)
      y == r.v.x
      inner == OrElse(r.v.at, Append(path, y.n))
      one(k) == LET b == base + y.off + (k - 1) * IncOf(y) IN
                IF IsReg(y) THEN <<b>> ELSE Flat([i \in 1..Len(y.ch) |-> PlacesOf(d, y.ch[i], inner, b)])
  IN Flat([k \in 1..CountOf(y) |-> one(k)])
PlacesIn(d, p) ==
  LET q == IF p.df = None THEN Ok([x |-> p, at |-> None]) ELSE ResPer(d, [p EXCEPT !.df = None], p.df[1], Fuel)
      path == OrElse(q.v.at, <<q.v.x.n>>)
      ks == KidsOfPer(q.v.x)
  IN [n |-> CountOf(q.v.x), places |-> Flat([i \in 1..Len(ks) |-> PlacesOf(d, ks[i], path, 0)])]
PlacesKept ==
  [][(Case.ex /\ done' # done) =>
       LET w == PlacesIn(Known2, Known2.pers[at]) IN
       /\ Len(done') - Len(done) = w.n
       /\ \A i \in (Len(done) + 1)..Len(done') :
            SameElements([k \in 1..Len(Regs(done'[i])) |-> Regs(done'[i])[k].off], w.places)]_vars
\* what a block says about size, access and reset values reaches its registers
HasAll(p, q) == \A k \in {"sz", "ac", "pr", "rv", "rm"} : q[k] # None => p[k] # None
PropsReach ==
  Case.xp => \A i \in 1..Len(done) : \A k \in 1..Len(Regs(done[i])) :
     LET x == Regs(done[i])[k] IN
     (Known2.pers = Case.dev.pers \/ x.df # None \/ ~IsReg(x) \/ done[i].df # None \/ Case.ex) \/ HasAll(x.p, Case.dev.p)
NoValues ==
  (Case.ign /\ st = "run") => \A i \in 1..Len(done) : \A k \in 1..Len(Regs(done[i])) :
     IsReg(Regs(done[i])[k]) => \A m \in 1..Len(FieldsOf(Regs(done[i])[k])) : FieldsOf(Regs(done[i])[k])[m].evs = <<>>
=============================================================================
