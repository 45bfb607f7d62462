-------------------------------- MODULE Page --------------------------------
(***************************************************************************)
(* The page of a device, written peripheral after peripheral, and its line  *)
(* of the index.                                                            *)
(*   case == [id, dev, out, page, line]                                     *)
(***************************************************************************)
EXTENDS Html, Valid, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, at, done, st
vars == <<c, at, done, st>>
Case == Cases[c]
Dev == Shown(Case.dev)
Order == PersInOrder(Dev)
Got == Case.page
Init == c \in 1..Len(Cases) /\ at = 0 /\ done = <<>> /\ st = "run"

Verdict(v) == PrintT("DONE " \o ToJson([id |-> Case.id, st |-> v, peripherals |-> Len(done)]))
Bad(want, saw) ==
  /\ PrintT("MISMATCH " \o ToJson([id |-> Case.id, at |-> at, want |-> want, saw |-> saw]))
  /\ Verdict("bad") /\ st' = "bad" /\ UNCHANGED <<c, at, done>>
Start ==
  /\ st = "run" /\ at = 0
  /\ IF ~VDev(Case.dev, FALSE)
     THEN IF Case.out = "ok" THEN Bad("invalid", "ok")
          ELSE Verdict("err") /\ st' = "err" /\ UNCHANGED <<c, at, done>>
     ELSE at' = 1 /\ UNCHANGED <<c, done, st>>
Differs(a, b) == \* where two descriptions of a peripheral differ
  IF [a EXCEPT !.regs = <<>>] # [b EXCEPT !.regs = <<>>] \/ Len(a.regs) # Len(b.regs) THEN <<a, b>>
  ELSE LET i == MinOf({k \in 1..Len(a.regs) : a.regs[k] # b.regs[k]}) IN <<a.regs[i], b.regs[i]>>
Continue ==
  /\ st = "run" /\ at > 0 /\ at <= Len(Order)
  /\ LET r == HtmlPer(Dev, Order[at]) IN
     IF ~IsOk(r)
     THEN IF r.e = "MODEL-RANGE"
          THEN PrintT("RANGE " \o ToJson([id |-> Case.id])) /\ st' = "range" /\ UNCHANGED <<c, at, done>>
          ELSE IF Case.out = "err" THEN Verdict("err") /\ st' = "err" /\ UNCHANGED <<c, at, done>>
          ELSE Bad(r.e, Case.out)
     ELSE IF Case.out # "ok" THEN done' = done \o r.v /\ at' = at + 1 /\ UNCHANGED <<c, st>>
     ELSE IF Len(Got.pers) < Len(done) + Len(r.v) THEN Bad(r.v, "nothing")
     ELSE LET wrong == {k \in 1..Len(r.v) : Got.pers[Len(done) + k] # r.v[k]} IN
          IF wrong # {} THEN LET k == MinOf(wrong) x == Differs(r.v[k], Got.pers[Len(done) + k]) IN Bad(x[1], x[2])
          ELSE done' = done \o r.v /\ at' = at + 1 /\ UNCHANGED <<c, st>>
Finish ==
  /\ st = "run" /\ at = Len(Order) + 1
  /\ LET doc == Sum(done, LAMBDA p : p.doc)
         tot == Sum(done, LAMBDA p : p.tot)
         facts == [n |-> Dev.n, doc |-> doc, tot |-> tot, pct |-> Percent(doc, tot)]
         menu == [i \in 1..Len(done) |-> done[i].n]
     IN IF Case.out # "ok" THEN Bad("ok", Case.out)
        ELSE IF [n |-> Got.n, doc |-> Got.doc, tot |-> Got.tot, pct |-> Got.pct] # facts THEN Bad(facts, [Got EXCEPT !.pers = <<>>])
        ELSE IF Case.line # facts THEN Bad(facts, Case.line)
        ELSE IF Got.menu # menu \/ Len(Got.pers) # Len(menu) THEN Bad(menu, Got.menu)
        ELSE Verdict("ok") /\ st' = "ok" /\ UNCHANGED <<c, at, done>>
Next == Start \/ Continue \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What a user relies on                                                    *)
\* what the page says is covered is what is shown, at every level
CountsAddUp ==
  (Case.out = "ok" /\ st = "ok") =>
    /\ Got.tot = Sum(Got.pers, LAMBDA p : Sum(p.regs, LAMBDA r : Len(r.fs)))
    /\ Got.doc = Sum(Got.pers, LAMBDA p : Sum(p.regs, LAMBDA r : r.doc))
    /\ \A i \in 1..Len(Got.pers) : \A k \in 1..Len(Got.pers[i].regs) :
         LET r == Got.pers[i].regs[k]
             named == Cardinality({j \in 1..Len(r.fs) : r.fs[j].doc # ""})
         IN named <= r.doc /\ r.doc <= Len(r.fs)
Sorted ==
  \A i \in 1..Len(done) : \A k \in 1..(Len(done[i].regs) - 1) : done[i].regs[k].off <= done[i].regs[k + 1].off
\* every bit of a field is under its name in the table unless another field of the register covers it too
BitsShown ==
  \A i \in 1..Len(done) : \A k \in 1..Len(done[i].regs) :
    LET r == done[i].regs[k] IN
    \A j \in 1..Len(r.fs) : \A b \in r.fs[j].lo..(IF r.fs[j].hi < 31 THEN r.fs[j].hi ELSE 31) :
      LET n == r.bits[32 - b] IN
      n = r.fs[j].n \/ \E m \in 1..Len(r.fs) : m # j /\ r.fs[m].n = n /\ b >= r.fs[m].lo /\ b <= r.fs[m].hi
\* no register is left out: counted without any of the above where nothing is derived
RECURSIVE HowMany(_)
HowMany(kids) == Sum(kids, LAMBDA x : CountOf(x) * (IF IsReg(x) THEN 1 ELSE HowMany(x.ch)))
RECURSIVE Derives(_)
Derives(kids) == \E i \in 1..Len(kids) : kids[i].df # None \/ (~IsReg(kids[i]) /\ Derives(kids[i].ch))
AllShown ==
  st = "ok" =>
    LET own == SelectSeq(Case.dev.pers, LAMBDA p : p.df = None /\ ~Derives(KidsOfPer(p))) IN
    \A i \in 1..Len(own) : \A k \in 1..CountOf(own[i]) :
      \E j \in 1..Len(Got.pers) : Got.pers[j].n = InstPer(own[i], k).n /\ Len(Got.pers[j].regs) = HowMany(KidsOfPer(own[i]))
=============================================================================
