------------------------------ MODULE ExpandOps -----------------------------
(***************************************************************************)
(* The expanded form of a device: every element written out on its own.     *)
(* References are resolved, arrays become their elements, clusters become   *)
(* registers with the name of the cluster in front.                         *)
(* The places of elements are paths <<peripheral, cluster, ..., register>>. *)
(***************************************************************************)
EXTENDS Views

\* names by which an element is found: its own and those of its elements
Calls(x) == ToSet(NamesOf(x)) \cup {x.n}
Those(xs, n) == SelectSeq(xs, LAMBDA x : n \in Calls(x))
NoneOrLast(xs) == IF xs = <<>> THEN None ELSE Some(Last(xs))
RECURSIVE Blocks(_, _)
\* peripherals and clusters at a path
Blocks(d, path) ==
  IF Len(path) = 1 THEN Those(d.pers, path[1])
  ELSE LET up == Blocks(d, Front(path))
           kids(b) == SelectSeq(IF "regs" \in DOMAIN b THEN KidsOfPer(b) ELSE b.ch, LAMBDA x : ~IsReg(x))
       IN Those(Flat([i \in 1..Len(up) |-> kids(up[i])]), Last(path))
RegistersAt(d, path) == \* path of the block and the name of the register
  LET up == Blocks(d, Front(path))
      kids(b) == SelectSeq(IF "regs" \in DOMAIN b THEN KidsOfPer(b) ELSE b.ch, LAMBDA x : IsReg(x))
  IN Those(Flat([i \in 1..Len(up) |-> kids(up[i])]), Last(path))
FieldsAt(d, path) ==
  LET up == RegistersAt(d, Front(path))
  IN Those(Flat([i \in 1..Len(up) |-> FieldsOf(up[i])]), Last(path))
EvsAt(d, path) ==
  LET up == FieldsAt(d, Front(path))
      l == Flat([i \in 1..Len(up) |-> up[i].evs])
  IN SelectSeq(l, LAMBDA e : e.n = Some(Last(path)))

-----------------------------------------------------------------------------
(* What an element takes from the one it is derived from                    *)
FillClu(x, y) ==
  [x EXCEPT !.dim = FillDim(x, y), !.p = FillProps(x.p, y.p), !.hs = Upd(y.hs, x.hs),
            !.ch = IF x.ch = <<>> THEN y.ch ELSE x.ch]
FillReg(x, y) ==
  [x EXCEPT !.dim = FillDim(x, y), !.d = Upd(y.d, x.d), !.p = FillProps(x.p, y.p), !.fs = Upd(y.fs, x.fs),
            !.wc = Upd(y.wc, x.wc), !.ra = Upd(y.ra, x.ra), !.mwv = Upd(y.mwv, x.mwv)]
FillField(x, y) ==
  [x EXCEPT !.dim = FillDim(x, y), !.d = Upd(y.d, x.d), !.ac = Upd(y.ac, x.ac),
            !.evs = IF x.evs = <<>> THEN y.evs ELSE x.evs,
            !.wc = Upd(y.wc, x.wc), !.ra = Upd(y.ra, x.ra), !.mwv = Upd(y.mwv, x.mwv)]
FillEvs(x, y) ==
  [x EXCEPT !.us = Upd(y.us, x.us), !.vals = IF x.vals = <<>> THEN y.vals ELSE x.vals]

-----------------------------------------------------------------------------
(* Resolving references.  The result is [x, at]: the element filled in, and *)
(* the place the contents taken over came from (none: its own place).       *)
Fuel == 12
RECURSIVE ResPer(_, _, _, _)
ResPer(d, x, ref, n) ==
  IF n = 0 THEN Err("MODEL-RANGE")
  ELSE IF ref = x.n THEN Err("self-derived")
  ELSE LET y == NoneOrLast(Blocks(d, <<ref>>)) IN
  IF y = None THEN Err("no-source")
  ELSE LET z == FillPer(x, y[1]) IN
       IF y[1].df # None THEN ResPer(d, z, y[1].df[1], n - 1)
       ELSE Ok([x |-> z, at |-> IF x.regs = None THEN Some(<<ref>>) ELSE None])
\* the place a reference with or without dots names, seen from `path`
Place(path, ref) == LET v == Split(ref, ".") IN IF Len(v) = 1 THEN Append(path, v[1]) ELSE v
RECURSIVE ResClu(_, _, _, _, _)
ResClu(d, x, ref, path, n) ==
  LET place == Place(path, ref) IN
  IF n = 0 THEN Err("MODEL-RANGE")
  ELSE IF place = Append(path, x.n) THEN Err("self-derived")
  ELSE LET ys == Blocks(d, place) y == IF Len(place) < 2 THEN None ELSE NoneOrLast(ys) IN
  IF y = None THEN Err("no-source")
  ELSE LET z == FillClu(x, y[1]) IN
       IF y[1].df # None THEN ResClu(d, z, y[1].df[1], Front(place), n - 1)
       ELSE Ok([x |-> z, at |-> IF x.ch = <<>> THEN Some(place) ELSE None])
RECURSIVE ResReg(_, _, _, _, _)
ResReg(d, x, ref, path, n) ==
  LET place == Place(path, ref) IN
  IF n = 0 THEN Err("MODEL-RANGE")
  ELSE IF place = Append(path, x.n) THEN Err("self-derived")
  ELSE LET y == NoneOrLast(RegistersAt(d, place)) IN
  IF y = None THEN Err("no-source")
  ELSE LET z == FillReg(x, y[1]) IN
       IF y[1].df # None THEN ResReg(d, z, y[1].df[1], Front(place), n - 1)
       ELSE Ok([x |-> z, at |-> IF x.fs = None THEN Some(place) ELSE None])
RECURSIVE ResField(_, _, _, _, _)
ResField(d, x, ref, path, n) ==
  LET place == Place(path, ref) IN
  IF n = 0 \/ (Len(place) < 3) THEN Err("MODEL-RANGE")
  ELSE IF place = Append(path, x.n) THEN Err("self-derived")
  ELSE LET y == NoneOrLast(FieldsAt(d, place)) IN
  IF y = None THEN Err("no-source")
  ELSE LET z == FillField(x, y[1]) IN
       IF y[1].df # None THEN ResField(d, z, y[1].df[1], Front(place), n - 1)
       ELSE Ok([x |-> z, at |-> IF x.evs = <<>> THEN Some(place) ELSE None])
RECURSIVE ResEvs(_, _, _, _, _)
\* path: of the field
ResEvs(d, x, ref, path, n) ==
  LET v == Split(ref, ".")
      rpath == Front(path)
      regs == RegistersAt(d, rpath)
      near == \* the first field of the register that has values of this name
        IF regs = <<>> THEN <<>>
        ELSE LET fs == FieldsOf(Last(regs))
                 F == {i \in 1..Len(fs) : EvsAt(d, Append(rpath, fs[i].n) \o v) # <<>>}
             IN IF F = {} THEN <<>> ELSE Append(rpath, fs[MinOf(F)].n) \o v
      place == IF Len(v) = 1 THEN near
               ELSE IF Len(v) = 2 THEN rpath \o v
               ELSE IF Len(v) = 3 THEN Front(rpath) \o v
               ELSE v
  IN IF n = 0 THEN Err("MODEL-RANGE")
     ELSE IF Some(ref) = x.n THEN Err("self-derived")
     ELSE IF Len(v) > 1 /\ Front(place) = path /\ Some(Last(place)) = x.n THEN Err("self-derived")
     ELSE LET y == IF place = <<>> THEN None ELSE NoneOrLast(EvsAt(d, place)) IN
     IF y = None THEN Err("no-source")
     ELSE LET z == FillEvs(x, y[1]) IN
          IF y[1].df # None THEN ResEvs(d, z, y[1].df[1], Front(place), n - 1) ELSE Ok(z)

-----------------------------------------------------------------------------
(* Writing out                                                              *)
ConcatR(F(_), xs) == FoldR(LAMBDA a, x : Bind(F(x), LAMBDA y : Ok(a \o y)), <<>>, xs)
ExpField(d, f, rpath) ==
  Bind(IF f.df = None THEN Ok([x |-> f, at |-> None]) ELSE ResField(d, [f EXCEPT !.df = None], f.df[1], rpath, Fuel),
       LAMBDA r :
  LET at == OrElse(r.at, Append(rpath, r.x.n)) IN
  Bind(MapR(LAMBDA e : IF e.df = None THEN Ok(e) ELSE ResEvs(d, [e EXCEPT !.df = None], e.df[1], at, Fuel), r.x.evs),
       LAMBDA es : Ok(Insts([r.x EXCEPT !.evs = es]))))
ExpReg(d, r, path) ==
  Bind(IF r.df = None THEN Ok([x |-> r, at |-> None]) ELSE ResReg(d, [r EXCEPT !.df = None], r.df[1], path, Fuel),
       LAMBDA q :
  LET at == OrElse(q.at, Append(path, q.x.n)) IN
  IF q.x.fs = None THEN Ok(Insts(q.x))
  ELSE Bind(ConcatR(LAMBDA f : ExpField(d, f, at), q.x.fs[1]),
            LAMBDA fs : Ok(Insts([q.x EXCEPT !.fs = Some(fs)]))))
\* a cluster becomes its registers
OutOf(c) == [i \in 1..Len(c.ch) |-> [c.ch[i] EXCEPT !.n = c.n \o "_" \o c.ch[i].n, !.off = c.ch[i].off + c.off]]
RECURSIVE ExpKid(_, _, _)
ExpKid(d, x, path) ==
  IF IsReg(x) THEN ExpReg(d, x, path)
  ELSE Bind(IF x.df = None THEN Ok([x |-> x, at |-> None]) ELSE ResClu(d, [x EXCEPT !.df = None], x.df[1], path, Fuel),
            LAMBDA q :
       LET at == OrElse(q.at, Append(path, q.x.n)) IN
       Bind(ConcatR(LAMBDA y : ExpKid(d, y, at), q.x.ch),
            LAMBDA ch : LET is == Insts([q.x EXCEPT !.ch = ch])
                        IN Ok(Flat([i \in 1..Len(is) |-> OutOf(is[i])]))))
\* a peripheral of device d, written out
ExpPer(d, p) ==
  Bind(IF p.df = None THEN Ok([x |-> p, at |-> None]) ELSE ResPer(d, [p EXCEPT !.df = None], p.df[1], Fuel),
       LAMBDA q :
  LET at == OrElse(q.at, <<q.x.n>>) IN
  IF q.x.regs = None THEN Ok(InstPers(q.x))
  ELSE Bind(ConcatR(LAMBDA y : ExpKid(d, y, at), q.x.regs[1]),
            LAMBDA regs : Ok(InstPers([q.x EXCEPT !.regs = Some(regs)]))))
ExpDev(d) == Bind(ConcatR(LAMBDA p : ExpPer(d, p), d.pers), LAMBDA ps : Ok([d EXCEPT !.pers = ps]))

(* Size, access, protection and reset values where only an outer block has them *)
RECURSIVE PropKid(_, _)
PropKid(x, def) ==
  IF x.df # None THEN x
  ELSE IF IsReg(x) THEN [x EXCEPT !.p = FillProps(x.p, def)]
  ELSE LET def2 == FillProps(x.p, def) IN [x EXCEPT !.ch = [i \in 1..Len(x.ch) |-> PropKid(x.ch[i], def2)]]
PropPer(p, def) ==
  IF p.df # None \/ p.regs = None THEN p
  ELSE LET def2 == FillProps(p.p, def) IN
       [p EXCEPT !.regs = Some([i \in 1..Len(p.regs[1]) |-> PropKid(p.regs[1][i], def2)])]
PropDev(d) == [d EXCEPT !.pers = [i \in 1..Len(d.pers) |-> PropPer(d.pers[i], d.p)]]
\* nothing known of enumerated values and write constraints
RECURSIVE NoEnumKid(_)
NoEnumField(f) == [f EXCEPT !.evs = <<>>, !.wc = None]
NoEnumKid(x) ==
  IF IsReg(x)
  THEN [x EXCEPT !.fs = IF x.fs = None THEN None
                        ELSE Some([i \in 1..Len(x.fs[1]) |-> NoEnumField(x.fs[1][i])])]
  ELSE [x EXCEPT !.ch = [i \in 1..Len(x.ch) |-> NoEnumKid(x.ch[i])]]
NoEnumDev(d) ==
  [d EXCEPT !.pers = [i \in 1..Len(d.pers) |->
     IF d.pers[i].regs = None THEN d.pers[i]
     ELSE [d.pers[i] EXCEPT !.regs = Some([k \in 1..Len(d.pers[i].regs[1]) |-> NoEnumKid(d.pers[i].regs[1][k])])]]]
=============================================================================
