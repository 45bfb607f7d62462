-------------------------------- MODULE Valid -------------------------------
(***************************************************************************)
(* When a device description makes sense.  Weak: what every reader of SVD   *)
(* files asks for.  Strict: the full check, asked for by --post-validate.   *)
(***************************************************************************)
EXTENDS SvdData

PlainName(s) == IsIdTail(s)
DottedName(s) == \A i \in 1..Len(Split(s, ".")) : DimableName(Split(s, ".")[i])
OkName(o, P(_)) == o = None \/ P(o[1])
\* bits of x that are not in y
WAndNot1(a, b) == \E k \in 0..15 : (a \div (2 ^ k)) % 2 = 1 /\ (b \div (2 ^ k)) % 2 = 0
WInside(x, y) == \A i \in 1..4 : x[i] = 0 \/ ~WAndNot1(x[i], y[i])
Fits(w, bits) == WBits(w) <= bits

VProps(p, strict) ==
  /\ (p.sz # None /\ p.rv # None) => Fits(p.rv[1], p.sz[1])
  /\ strict => /\ (p.sz # None /\ p.rm # None) => Fits(p.rm[1], p.sz[1])
               /\ (p.rv # None /\ p.rm # None) => WInside(p.rv[1], p.rm[1])
VValue(v, strict) ==
  /\ strict => PlainName(v.n)
  /\ v.v # None \/ v.def = Some(TRUE)
  /\ strict => ~(v.v # None /\ v.def = Some(TRUE))
VValues(e, strict) ==
  /\ \A i \in 1..Len(e.vals) : VValue(e.vals[i], strict)
  /\ strict => OkName(e.n, PlainName)
  /\ IF e.df # None THEN strict => DottedName(e.df[1]) ELSE e.vals # <<>>
\* two lists of values: one for reading and one for writing
\* (derived ones may be either; without a usage they are for both)
TwoSided(a, b) == (a.df # None \/ a.us = Some("read")) /\ (b.df # None \/ b.us = Some("write"))
VField(f, strict) ==
  /\ \A i \in 1..Len(f.evs) : VValues(f.evs[i], strict)
  /\ f.w > 0
  /\ strict => DimableName(f.n) /\ OkName(f.df, DottedName)
  /\ f.w < 64 => \A i \in 1..Len(f.evs) : \A k \in 1..Len(f.evs[i].vals) :
                    LET v == f.evs[i].vals[k].v IN v = None \/ Fits(v[1], f.w)
  /\ strict => CASE Len(f.evs) <= 1 -> TRUE
                 [] Len(f.evs) = 2 -> TwoSided(f.evs[1], f.evs[2]) \/ TwoSided(f.evs[2], f.evs[1])
                 [] OTHER -> FALSE
  /\ (f.wc # None /\ f.w < 64) =>
        (f.wc[1].k = "range" => WLe(f.wc[1].min, f.wc[1].max) /\ Fits(f.wc[1].min, f.w) /\ Fits(f.wc[1].max, f.w))
VReg(r, strict) ==
  /\ VProps(r.p, strict)
  /\ r.fs = None \/ \A i \in 1..Len(r.fs[1]) : VField(r.fs[1][i], strict)
  /\ strict => /\ DimableName(r.n) /\ OkName(r.ag, PlainName) /\ OkName(r.ar, DimableName)
               /\ IF r.df # None THEN DottedName(r.df[1]) ELSE r.fs # Some(<<>>)
RECURSIVE VKid(_, _)
VKid(x, strict) ==
  IF IsReg(x) THEN VReg(x, strict)
  ELSE /\ VProps(x.p, strict)
       /\ \A i \in 1..Len(x.ch) : VKid(x.ch[i], strict)
       /\ strict => DimableName(x.n) /\ (IF x.df # None THEN DottedName(x.df[1]) ELSE x.ch # <<>>)
VPer(p, strict) ==
  /\ VProps(p.p, strict)
  /\ p.regs = None \/ \A i \in 1..Len(p.regs[1]) : VKid(p.regs[1][i], strict)
  /\ strict => DimableName(p.n) /\ (IF p.df # None THEN DimableName(p.df[1]) ELSE p.regs # Some(<<>>))
VDev(d, strict) ==
  /\ VProps(d.p, strict)
  /\ \A i \in 1..Len(d.pers) : VPer(d.pers[i], strict)
  /\ d.pers # <<>>
=============================================================================
