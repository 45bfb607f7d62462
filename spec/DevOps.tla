-------------------------------- MODULE DevOps ------------------------------
(***************************************************************************)
(* Effect of the device level sections of a patch.                          *)
(***************************************************************************)
EXTENDS BlockOps

DevKeywords == {"_svd", "_include", "_path", "_delete", "_copy", "_modify", "_clear_fields", "_add",
                "_derive", "_rebase"}

PersAt(d, spec) == {i \in 1..Len(d.pers) : Matches(d.pers[i].n, spec)}
PerNamed(d, n) == {i \in 1..Len(d.pers) : d.pers[i].n = n}
MapPers(d, S, F(_)) ==
  FoldR(LAMBDA e, i : IF i \in S THEN Bind(F(e.pers[i]), LAMBDA p : Ok([e EXCEPT !.pers[i] = p])) ELSE Ok(e),
        d, [i \in 1..Len(d.pers) |-> i])

DeletePer(d, spec) == [d EXCEPT !.pers = SelectSeq(d.pers, LAMBDA p : ~Matches(p.n, spec))]

\* the peripheral at position i of `pers` with what it takes from those it is derived from
RECURSIVE TakeOver(_, _, _, _)
TakeOver(pers, x, ref, seen) ==
  LET S == {i \in 1..Len(pers) : pers[i].n = ref} IN
  IF ref \in seen \/ S = {} THEN x
  ELSE LET y == pers[MinOf(S)] z == FillPer(x, y) IN
       IF y.df = None THEN z ELSE TakeOver(pers, z, y.df[1], seen \cup {ref})
Whole(pers, i) == IF pers[i].df = None THEN pers[i] ELSE TakeOver(pers, pers[i], pers[i].df[1], {pers[i].n})

\* files: sequence of [n |-> file name, pers |-> peripherals]
CopyPer(d, name, h, files) ==
  LET from == OptStr(h, "from")
      parts == Split(from.v[1], ":")
      F == {i \in 1..Len(files) : files[i].n = parts[1]}
      local == Len(parts) = 1
      src == IF local THEN d.pers ELSE files[MinOf(F)].pers
      S == {i \in 1..Len(src) : src[i].n = parts[Len(parts)]}
      T == PerNamed(d, name)
  IN IF ~IsOk(from) THEN from
     ELSE IF from.v = None THEN Err("no-from")
     ELSE IF Len(parts) > 2 THEN Err("copy-syntax")
     ELSE IF ~local /\ F = {} THEN Err("no-file")
     ELSE IF S = {} THEN Err("no-peripheral")
     ELSE LET p == Whole(src, MinOf(S))
              q == [p EXCEPT !.n = name, !.df = None, !.ints = IF local THEN <<>> ELSE p.ints]
          IN IF T = {} THEN Ok([d EXCEPT !.pers = Append(d.pers, q)])
             ELSE LET t == MinOf(T) IN
                  Ok([d EXCEPT !.pers[t] = [q EXCEPT !.base = d.pers[t].base, !.ints = d.pers[t].ints]])

ModifyPers(d, spec, h) ==
  LET S == PersAt(d, spec)
      names == {d.pers[i].n : i \in S}
      nm == OptStr(h, "name")
      ints(p) == \* each named interrupt, first one of that name
        Bind(OptMap(h, "interrupts"), LAMBDA o :
          IF o = None THEN Ok(p)
          ELSE FoldR(LAMBDA q, kv : Bind(AsMap(kv[2]), LAMBDA m : Bind(IntB(m), LAMBDA ib :
                 LET I == {i \in 1..Len(q.ints) : q.ints[i].n = kv[1]} IN
                 Ok(IF I = {} THEN q ELSE [q EXCEPT !.ints[MinOf(I)] = IntMod(q.ints[MinOf(I)], ib)]))),
               p, o[1]))
      blocks(p) ==
        LET a == ABNode(h) IN
        IF a[1] = "no" THEN Ok(p)
        ELSE IF a[1] = "bad" THEN Err(a[2])
        ELSE IF a[1] = "many" THEN Bind(NewABs(a[2]), LAMBDA v : Ok([p EXCEPT !.ab = Some(v)]))
        ELSE Bind(ABB(a[2]), LAMBDA b :
               IF p.ab # None /\ Len(p.ab[1]) = 1 THEN Ok([p EXCEPT !.ab = Some(<<ABMod(p.ab[1][1], b)>>)])
               ELSE Bind(ABBuild(b), LAMBDA v : Ok([p EXCEPT !.ab = Some(<<v>>)])))
      each(pb, db) == MapPers(d, S, LAMBDA p :
        Bind(DimMod(p.dim, db), LAMBDA dim :
        Bind(PerMod([p EXCEPT !.dim = dim], pb), LAMBDA q : Bind(ints(q), blocks))))
  IN Bind(IF S = {} THEN Ok(d)
          ELSE Bind(PerB(h, TRUE), LAMBDA pb : Bind(DimOf(h), LAMBDA db : each(pb, db))),
     LAMBDA e : IF ~IsOk(nm) THEN nm
       ELSE IF nm.v = None THEN Ok(e)
       ELSE Ok([e EXCEPT !.pers = [i \in 1..Len(e.pers) |->
                  IF e.pers[i].df # None /\ e.pers[i].df[1] \in names
                  THEN [e.pers[i] EXCEPT !.df = nm.v] ELSE e.pers[i]]]))

ModifyCpu(d, h) ==
  Bind(CpuB(h), LAMBDA b :
    IF d.cpu # None THEN Ok([d EXCEPT !.cpu = Some(CpuMod(d.cpu[1], b))])
    ELSE Bind(CpuBuild(b), LAMBDA c : Ok([d EXCEPT !.cpu = Some(c)])))

ModifyDev(d, key, y) ==
  CASE key = "cpu" -> Bind(AsMap(y), LAMBDA h : ModifyCpu(d, h))
    [] key = "_peripherals" -> Bind(AsMap(y), LAMBDA m :
         FoldR(LAMBDA e, kv : Bind(AsMap(kv[2]), LAMBDA h : In(kv[1], ModifyPers(e, kv[1], h))), d, m))
    [] key = "vendor" -> Bind(AsStr(y), LAMBDA s : Ok([d EXCEPT !.ven = Some(s)]))
    [] key = "vendorID" -> Bind(AsStr(y), LAMBDA s : Ok([d EXCEPT !.vid = Some(s)]))
    [] key = "name" -> Bind(AsStr(y), LAMBDA s : Ok([d EXCEPT !.n = s]))
    [] key = "series" -> Bind(AsStr(y), LAMBDA s : Ok([d EXCEPT !.ser = Some(s)]))
    [] key = "version" -> Bind(AsStr(y), LAMBDA s : Ok([d EXCEPT !.ver = s]))
    [] key = "description" -> Bind(AsStr(y), LAMBDA s : Ok([d EXCEPT !.d = s]))
    [] key = "licenseText" -> Bind(AsStr(y), LAMBDA s : Ok([d EXCEPT !.lic = Some(s)]))
    [] key = "headerSystemFilename" -> Bind(AsStr(y), LAMBDA s : Ok([d EXCEPT !.hsf = Some(s)]))
    [] key = "headerDefinitionsPrefix" -> Bind(AsStr(y), LAMBDA s : Ok([d EXCEPT !.hdp = Some(s)]))
    [] key = "addressUnitBits" -> Bind(AsU32(y), LAMBDA v : Ok([d EXCEPT !.aub = v]))
    [] key = "width" -> Bind(AsU32(y), LAMBDA v : Ok([d EXCEPT !.w = v]))
    [] key = "size" -> Bind(AsU32(y), LAMBDA v : Ok([d EXCEPT !.p.sz = Some(v)]))
    [] key = "access" -> Bind(Word(<<<<key, y>>>>, key, Accesses), LAMBDA o : Ok([d EXCEPT !.p.ac = o]))
    [] key = "resetValue" -> Bind(AsInt(y), LAMBDA v : Ok([d EXCEPT !.p.rv = Some(v)]))
    [] key = "resetMask" -> Bind(AsInt(y), LAMBDA v : Ok([d EXCEPT !.p.rm = Some(v)]))
    [] key = "protection" -> Bind(Word(<<<<key, y>>>>, key, Protections), LAMBDA o : Ok([d EXCEPT !.p.pr = o]))
    [] OTHER -> Bind(AsMap(y), LAMBDA h : In(key, ModifyPers(d, key, h)))

ClearPers(d, spec) ==
  [d EXCEPT !.pers = [i \in 1..Len(d.pers) |->
     IF i \in PersAt(d, spec) /\ d.pers[i].df = None /\ d.pers[i].regs # None
     THEN [d.pers[i] EXCEPT !.regs = Some(ClearKids(d.pers[i].regs[1], "*"))] ELSE d.pers[i]]]

NewPer(h, n) ==
  Bind(PerB(h, FALSE), LAMBDA b : Bind(PerBuild(b, n, None), LAMBDA p :
    Bind(DimOf(h), LAMBDA db : Bind(DimNew(db), LAMBDA dim : Ok([p EXCEPT !.dim = dim])))))
AddPer(d, name, h) ==
  IF PerNamed(d, name) # {} THEN Err("peripheral-exists")
  ELSE Bind(NewPer(h, name), LAMBDA p :
         Ok([d EXCEPT !.pers = InsertAt(d.pers, AddPos([i \in 1..Len(d.pers) |-> d.pers[i].base], WLe, p.base), p)]))

NoPerB == [n |-> None, dn |-> None, ver |-> None, d |-> None, df |-> None, gn |-> None, base |-> None,
           ints |-> None, p |-> NoProps, ab |-> None, regs |-> None]
\* retarget references from `old` to `new` and move the peripheral at position `at` before
\* everything that refers to it
Retarget(d, old, new) ==
  [d EXCEPT !.pers = [i \in 1..Len(d.pers) |->
     IF d.pers[i].df = Some(old) THEN [d.pers[i] EXCEPT !.df = Some(new)] ELSE d.pers[i]]]
FirstRef(d, old, at) == MinOf({at} \cup {i \in 1..Len(d.pers) : d.pers[i].df = Some(old)})
\* a name and everything it is derived from, directly or over several steps
RECURSIVE SourcesOfPer(_, _, _)
SourcesOfPer(d, n, seen) ==
  LET S == PerNamed(d, n) IN
  IF n \in seen THEN seen
  ELSE IF S = {} \/ d.pers[MinOf(S)].df = None THEN seen \cup {n}
  ELSE SourcesOfPer(d, d.pers[MinOf(S)].df[1], seen \cup {n})
DerivePer(d, name, y) ==
  LET from == IF y.t = "m" THEN OptStr(y.m, "_from") ELSE Ok(None)
      src == IF y.t = "s" THEN Ok(<<y.s, NoPerB>>)
             ELSE IF y.t # "m" THEN Err("derive-syntax")
             ELSE IF ~IsOk(from) THEN from
             ELSE IF from.v = None THEN Err("no-from")
             ELSE Bind(PerB(y.m, TRUE), LAMBDA b : Ok(<<from.v[1], b>>))
  IN Bind(src, LAMBDA t :
       LET b == [t[2] EXCEPT !.df = Some(t[1])]
           dotted == HasSub(t[1], ".")
           S == PerNamed(d, t[1])
           T == PerNamed(d, name)
           put == IF T # {}
                  THEN Bind(PerMod(d.pers[MinOf(T)], b), LAMBDA p : Ok([d EXCEPT !.pers[MinOf(T)] = p]))
                  ELSE Bind(PerBuild(b, name, None), LAMBDA p :
                         Ok([d EXCEPT !.pers = Append(d.pers, [p EXCEPT !.regs = None, !.ab = None, !.p = NoProps])]))
       IN IF name \in SourcesOfPer(d, t[1], {}) THEN Err("derived-from-itself")
          ELSE IF ~dotted /\ S = {} THEN Err("no-peripheral")
          ELSE Bind(put, LAMBDA e :
            LET pos == FirstRef(e, name, IF T # {} THEN MinOf(T) ELSE Len(d.pers) + 1)
                r == Retarget(e, name, t[1])
            IN Ok(IF ~dotted /\ MinOf(S) > pos THEN [r EXCEPT !.pers = MoveTo(r.pers, MinOf(S), pos)] ELSE r)))

RebasePer(d, new, old) ==
  LET O == PerNamed(d, old) N == PerNamed(d, new) IN
  IF O = {} \/ N = {} THEN Err("no-peripheral")
  ELSE IF new \in SourcesOfPer(d, old, {}) THEN Err("derived-from-itself")
  ELSE LET o == MinOf(O) n == MinOf(N)
           po == d.pers[o] pn == d.pers[n]
           heir == [po EXCEPT !.n = pn.n, !.base = pn.base, !.ints = pn.ints]
           stub == [n |-> old, dim |-> None, dn |-> None, ver |-> None, d |-> None, ap |-> None, gn |-> None,
                    ptn |-> None, atn |-> None, hsn |-> None, base |-> po.base, p |-> NoProps, ab |-> None,
                    ints |-> po.ints, regs |-> None, df |-> Some(new)]
           e == [d EXCEPT !.pers[o] = stub, !.pers[n] = heir]
           pos == FirstRef(e, old, o)
           r == Retarget(e, old, new)
       IN Ok(IF n > pos THEN [r EXCEPT !.pers = MoveTo(r.pers, n, pos)] ELSE r)

-----------------------------------------------------------------------------
(* A section of a peripheral rule applied to one peripheral.  Derived       *)
(* peripherals only let their interrupts be touched.                        *)
MapUnder(h, k) == LET y == Get(h, k) IN IF y = None \/ y[1].t # "m" THEN <<>> ELSE y[1].m
DerivedPhase(b, h, ph) ==
  CASE ph = "_delete" -> Bind(StrVec(MapUnder(h, ph), "_interrupts"), LAMBDA ss : Ok(FoldLeft(DelInt, b, ss)))
    [] ph = "_modify" -> FoldR(LAMBDA q, kv : IF kv[1] = "_interrupts" THEN SubMaps(q, kv[2], ModInts) ELSE Ok(q),
                               b, MapUnder(h, ph))
    [] ph = "_add" -> FoldR(LAMBDA q, kv : IF kv[1] = "_interrupts" THEN SubMaps(q, kv[2], AddInt) ELSE Ok(q),
                            b, MapUnder(h, ph))
    [] OTHER -> Ok(b)
PerPhase(d, i, h, ed, ph) ==
  LET p == d.pers[i]
      b == [ch |-> p.regs, ints |-> p.ints]
      r == IF p.df # None THEN DerivedPhase(b, h, ph) ELSE BlockPhase(b, h, BPath(p.n), ed, ph)
  IN Bind(r, LAMBDA q : Ok([d EXCEPT !.pers[i] = [p EXCEPT !.regs = q.ch, !.ints = q.ints]]))
=============================================================================
