------------------------------ MODULE SvdData ------------------------------
(***************************************************************************)
(* The device description manipulated by svdtools, and the typed building  *)
(* and modification of its parts from YAML maps.                           *)
(* Optional values are sequences of length 0 or 1.                         *)
(***************************************************************************)
EXTENDS Yaml

NoProps == [sz |-> None, ac |-> None, pr |-> None, rv |-> None, rm |-> None]

Accesses == {"read-only", "write-only", "read-write", "writeOnce", "read-writeOnce"}
MWVs == {"oneToClear", "oneToSet", "oneToToggle", "zeroToClear", "zeroToSet", "zeroToToggle",
         "clear", "set", "modify"}
RActs == {"clear", "set", "modify", "modifyExternal"}
ABUsages == {"registers", "buffer", "reserved"}
Endians == {"little", "big", "selectable", "other"}
Protections == {"s", "n", "p"}
\* the value of a key that takes one of the words S; the empty word says nothing
Word(h, k, S) == Bind(OptStr(h, k), LAMBDA o : IF o = None \/ o = Some("") THEN Ok(None)
                                             ELSE IF o[1] \in S THEN Ok(o) ELSE Err("unknown-word"))

IsArr(x) == x.dim # None
IsReg(c) == c.k = "r"
IsClu(c) == c.k = "c"

-----------------------------------------------------------------------------
(* Paths used for `peripheral`, `block_path`, `register`, `register_path`   *)
BPath(p)        == [p |-> p, c |-> <<>>]
BClu(b, n)      == [p |-> b.p, c |-> Append(b.c, n)]
BStr(b)         == Join(<<b.p>> \o b.c, ".")
BParent(b)      == [p |-> b.p, c |-> SubSeq(b.c, 1, Len(b.c) - 1)]
InterpB(b, s) ==
  SubstAll(SubstAll(s, "`peripheral`", b.p), "`block_path`", BStr(b))
InterpR(b, r, s) ==
  SubstAll(SubstAll(InterpB(b, s), "`register`", r), "`register_path`", BStr(b) \o "." \o r)
\* path argument: <<>> (no interpolation), <<block>> or <<block, register name>>
Interp(path, s) ==
  IF Len(path) = 0 THEN s
  ELSE IF Len(path) = 1 THEN InterpB(path[1], s) ELSE InterpR(path[1], path[2], s)
InterpO(path, o) == IF o = None THEN None ELSE Some(Interp(path, o[1]))

-----------------------------------------------------------------------------
(* Register properties                                                      *)
PropsOf(h) ==
  LET sz == OptU32(h, "size") ac == Word(h, "access", Accesses) pr == Word(h, "protection", Protections)
      rv == OptInt(h, "resetValue") rm == OptInt(h, "resetMask")
  IN Need(<<sz, ac, pr, rv, rm>>,
          [sz |-> sz.v, ac |-> ac.v, pr |-> pr.v, rv |-> rv.v, rm |-> rm.v])
CheckProps(p) ==
  IF p.sz # None /\ p.rv # None /\ WBits(p.rv[1]) > p.sz[1] THEN Err("reset-too-large") ELSE Ok(p)
ModProps(p, b) ==
  CheckProps([sz |-> Upd(p.sz, b.sz), ac |-> Upd(p.ac, b.ac), pr |-> Upd(p.pr, b.pr),
              rv |-> Upd(p.rv, b.rv), rm |-> Upd(p.rm, b.rm)])

-----------------------------------------------------------------------------
(* Write constraints                                                        *)
WcRange(a, b) == [k |-> "range", min |-> a, max |-> b]
WcEnum == [k |-> "enum", min |-> W0, max |-> W0]
WcOfNode(y) ==
  IF y.t = "s" /\ y.s = "none" THEN Ok(None)
  ELSE IF y.t = "s" /\ y.s = "enum" THEN Ok(Some(WcEnum))
  ELSE IF y.t = "a"
       THEN (IF Len(y.a) < 2 THEN Err("bad-write-constraint")
             ELSE LET a == AsInt(y.a[1]) b == AsInt(y.a[2])
                  IN Need(<<a, b>>, Some(WcRange(a.v, b.v))))
  ELSE Err("bad-write-constraint")
WcNode(h) == IF Has(h, "_write_constraint") THEN Get(h, "_write_constraint")
             ELSE Get(h, "writeConstraint")
WcOf(h) == LET y == WcNode(h) IN IF y = None THEN Ok(None) ELSE WcOfNode(y[1])

-----------------------------------------------------------------------------
(* Arrays: dim, dimIncrement, dimIndex, dimName, dimArrayIndex              *)
RangeStr(a, b) == [i \in 1..(b - a + 1) |-> NatStr(a + i - 1)]
ParseIndexes(text) ==
  IF HasSub(text, "-")
  THEN LET i == MinOf(Occurrences(text, "-"))
           a == Take(text, i - 1)
           b == Drop(text, i)
           r == IF IsNat(a) /\ IsNat(b)
                THEN (IF StrNat(a) <= StrNat(b) THEN RangeStr(StrNat(a), StrNat(b)) ELSE <<>>)
                ELSE IF Len(a) = 1 /\ Len(b) = 1 /\ (({a, b} \subseteq Lower) \/ ({a, b} \subseteq Upper))
                     THEN (IF Ord(a) <= Ord(b)
                           THEN [k \in 1..(Ord(b) - Ord(a) + 1) |-> ChOf(Ord(a) + k - 1)] ELSE <<>>)
                     ELSE <<>>
       IN IF r = <<>> THEN Err("dim-index") ELSE Ok(r)
  ELSE Ok(Split(text, ","))
DimIndexOf(h) ==
  LET y == Get(h, "dimIndex") IN
  IF y = None THEN Ok(None)
  ELSE IF y[1].t = "s" THEN Bind(ParseIndexes(y[1].s), LAMBDA v : Ok(Some(v)))
  ELSE IF y[1].t = "a"
       THEN Bind(MapR(AsStr, y[1].a), LAMBDA v : Ok(Some(v)))
  ELSE Err("dim-index")
\* dimArrayIndex: { headerEnumName: H, NAME: [value, description], ... }
DimArrayIndexOf(h) ==
  LET vals == FoldR(LAMBDA acc, kv :
                IF kv[2].t # "a" THEN Ok(acc)
                ELSE IF Len(kv[2].a) < 2 THEN Err("dai-short")
                ELSE LET v == AsInt(kv[2].a[1]) d == AsStr(kv[2].a[2])
                     IN Need(<<v, d>>, Append(acc, [n |-> kv[1], d |-> E2N(Some(d.v)),
                                                    v |-> Some(v.v), def |-> None])),
              <<>>, h)
      hn == OptStr(h, "headerEnumName")
  IN Need(<<vals, hn>>, [h |-> hn.v, vals |-> vals.v])
\* builder: all parts optional
NoDim == [n |-> None, inc |-> None, ix |-> None, nm |-> None, ai |-> None]
DimOf(h) ==
  LET ix == DimIndexOf(h)
      nm == OptStr(h, "dimName")
      aim == OptMap(h, "dimArrayIndex")
      ai == IF ~IsOk(aim) THEN aim
            ELSE IF aim.v = None THEN Ok(None)
            ELSE Bind(DimArrayIndexOf(aim.v[1]), LAMBDA v : Ok(Some(v)))
      n == OptU32(h, "dim")
      inc == OptU32(h, "dimIncrement")
  IN Need(<<ix, nm, aim, ai, n, inc>>,
          [n |-> n.v, inc |-> inc.v, ix |-> ix.v, nm |-> nm.v, ai |-> ai.v])
\* a list of indexes that does not fit the number of elements has no encoding: the
\* behaviour of the tool (a panic of the encoder) is outside of this model
DimFits(d) == IF d.ix # None /\ Len(d.ix[1]) # d.n THEN Err("MODEL-RANGE") ELSE Ok(Some(d))
DimBuild(b) ==
  IF b.n = None \/ b.inc = None THEN Err("dim-incomplete")
  ELSE DimFits([n |-> b.n[1], inc |-> b.inc[1],
                ix |-> IF b.ix = <<(<<>>)>> THEN None ELSE b.ix, nm |-> E2N(b.nm), ai |-> b.ai])
\* dimension of a freshly made element: none unless some part is given
DimNew(b) == IF b = NoDim THEN Ok(None) ELSE DimBuild(b)
DimMod(dim, b) ==
  IF b = NoDim THEN Ok(dim)
  ELSE IF dim = None THEN DimBuild(b)
  ELSE DimFits([n |-> OrElse(b.n, dim[1].n), inc |-> OrElse(b.inc, dim[1].inc),
                ix |-> IF b.ix = None THEN dim[1].ix ELSE IF b.ix[1] = <<>> THEN None ELSE b.ix,
                nm |-> IF b.nm = None THEN dim[1].nm ELSE E2N(b.nm),
                ai |-> Upd(dim[1].ai, b.ai)])
\* index texts of an array
Indexes(dim) == IF dim.ix # None THEN dim.ix[1] ELSE [i \in 1..dim.n |-> NatStr(i - 1)]

-----------------------------------------------------------------------------
(* Fields                                                                   *)
FieldB(h, path) == \* builder
  LET d == OptStr(h, "description") df == OptStr(h, "derivedFrom")
      ac == Word(h, "access", Accesses) mwv == Word(h, "modifiedWriteValues", MWVs)
      ra == Word(h, "readAction", RActs) wc == WcOf(h) n == OptStr(h, "name")
      msb == OptU32(h, "msb") lsb == OptU32(h, "lsb") br == OptStr(h, "bitRange")
      bo == OptU32(h, "bitOffset") bw == OptU32(h, "bitWidth")
      brp == IF br.v = None THEN None
             ELSE LET t == br.v[1] parts == Split(SubSeq(t, 2, Len(t) - 1), ":") IN
                  IF ~(StartsWith(t, "[") /\ EndsWith(t, "]") /\ Len(t) > 2) THEN None
                  ELSE IF Len(parts) # 2 \/ ~IsNat(parts[1]) \/ ~IsNat(parts[2]) THEN None
                  ELSE Some(<<StrNat(parts[1]), StrNat(parts[2])>>)
      ml == IF msb.v # None /\ lsb.v # None THEN Some(<<msb.v[1], lsb.v[1]>>)
            ELSE brp
      base == <<d, df, ac, mwv, ra, wc, n, msb>>
      common == [n |-> n.v, d |-> InterpO(path, d.v), df |-> InterpO(path, df.v),
                 ac |-> ac.v, mwv |-> mwv.v,
                 ra |-> ra.v, wc |-> wc.v, br |-> None, bo |-> None, bw |-> None]
  IN \* later keys are not even looked at once an earlier notation applies
     IF \E i \in 1..Len(base) : ~IsOk(base[i]) THEN Need(base, <<>>)
     ELSE IF msb.v # None /\ ~IsOk(lsb) THEN lsb
     ELSE IF msb.v # None /\ lsb.v # None
          THEN (IF ml[1][1] < ml[1][2] THEN Err("msb-below-lsb")
                ELSE Ok([common EXCEPT !.br = Some([off |-> ml[1][2], w |-> ml[1][1] - ml[1][2] + 1])]))
     ELSE IF ~IsOk(lsb) THEN lsb
     ELSE IF ~IsOk(br) THEN br
     ELSE IF br.v # None /\ br.v # Some("")
          THEN (IF brp = None \/ (brp # None /\ ml[1][1] < ml[1][2]) THEN Err("unknown-word")
                ELSE Ok([common EXCEPT !.br = Some([off |-> ml[1][2], w |-> ml[1][1] - ml[1][2] + 1])]))
     ELSE Need(<<bo, bw>>,
               IF bo.v # None /\ bw.v # None
               THEN [common EXCEPT !.br = Some([off |-> bo.v[1], w |-> bw.v[1]])]
               ELSE [common EXCEPT !.bo = bo.v, !.bw = bw.v])
CheckField(f) ==
  IF f.w = 0 THEN Err("zero-width")
  ELSE IF f.w < 64 /\ \E i \in 1..Len(f.evs) : \E j \in 1..Len(f.evs[i].vals) :
            f.evs[i].vals[j].v # None /\ WBits(f.evs[i].vals[j].v[1]) > f.w
       THEN Err("enum-out-of-range")
  ELSE IF f.w < 64 /\ f.wc # None /\ f.wc[1].k = "range"
          /\ (WLt(f.wc[1].max, f.wc[1].min) \/ WBits(f.wc[1].min) > f.w \/ WBits(f.wc[1].max) > f.w)
       THEN Err("constraint-out-of-range")
  ELSE Ok(f)
\* a new field named n
FieldBuild(b, n, dim) ==
  IF b.br = None THEN Err("no-bit-range")
  ELSE CheckField([n |-> n, dim |-> dim, d |-> E2N(b.d), off |-> b.br[1].off, w |-> b.br[1].w,
                   ac |-> b.ac, mwv |-> b.mwv, wc |-> b.wc, ra |-> b.ra, evs |-> <<>>, df |-> b.df])
FieldMod(f, b) ==
  LET f1 == [f EXCEPT !.n = OrElse(b.n, f.n),
                      !.d = IF b.d = None THEN f.d ELSE E2N(b.d),
                      !.off = IF b.br # None THEN b.br[1].off ELSE OrElse(b.bo, f.off),
                      !.w = IF b.br # None THEN b.br[1].w ELSE OrElse(b.bw, f.w),
                      !.ac = Upd(f.ac, b.ac)]
      f2 == IF b.df # None
            THEN [f1 EXCEPT !.df = b.df, !.mwv = None, !.wc = None, !.evs = <<>>]
            ELSE [f1 EXCEPT !.mwv = Upd(f.mwv, b.mwv), !.wc = Upd(f.wc, b.wc), !.ra = Upd(f.ra, b.ra)]
  IN CheckField(f2)
NewField(h, n, path) ==
  Bind(FieldB(h, path), LAMBDA b :
    Bind(DimOf(h), LAMBDA db : Bind(DimNew(db), LAMBDA dim : FieldBuild(b, n, dim))))

-----------------------------------------------------------------------------
(* Registers                                                                *)
RegB(h, path) ==
  LET dn == OptStr(h, "displayName") d == OptStr(h, "description") df == OptStr(h, "derivedFrom")
      ag == OptStr(h, "alternateGroup") ar == OptStr(h, "alternateRegister")
      p == PropsOf(h) wc == WcOf(h) fm == OptMap(h, "fields") n == OptStr(h, "name")
      off == OptU32(h, "addressOffset")
      fs == IF ~IsOk(fm) THEN fm
            ELSE IF fm.v = None THEN Ok(None)
            ELSE Bind(MapR(LAMBDA kv : Bind(AsMap(kv[2]), LAMBDA fh : NewField(fh, kv[1], <<>>)), fm.v[1]),
                      LAMBDA s : Ok(Some(s)))
  IN Need(<<dn, d, df, ag, ar, p, wc, fm, fs, n, off>>,
          [n |-> n.v, dn |-> dn.v, d |-> InterpO(path, d.v), df |-> InterpO(path, df.v),
           ag |-> ag.v, ar |-> ar.v, off |-> off.v, p |-> p.v, wc |-> wc.v, fs |-> fs.v])
RegBuild(b, n, dim) ==
  IF b.off = None THEN Err("no-address-offset")
  ELSE Bind(CheckProps(b.p), LAMBDA p :
    Ok([k |-> "r", n |-> n, dim |-> dim, dn |-> b.dn, d |-> b.d, ag |-> b.ag, ar |-> b.ar,
        off |-> b.off[1], p |-> p, dt |-> None, mwv |-> None, wc |-> b.wc, ra |-> None,
        fs |-> b.fs, df |-> b.df]))
RegMod(r, b) ==
  LET r1 == [r EXCEPT !.n = OrElse(b.n, r.n),
               !.dn = IF b.dn = None THEN r.dn ELSE E2N(b.dn),
               !.d = IF b.d = None THEN r.d ELSE E2N(b.d),
               !.ag = IF b.ag = None THEN r.ag ELSE E2N(b.ag),
               !.ar = IF b.ar = None THEN r.ar ELSE E2N(b.ar),
               !.off = OrElse(b.off, r.off)]
  IN IF b.df # None
     THEN Ok([r1 EXCEPT !.df = b.df, !.fs = None, !.p = NoProps, !.dt = None, !.mwv = None, !.wc = None])
     ELSE Bind(ModProps(r.p, b.p), LAMBDA p :
            Ok([r1 EXCEPT !.p = p, !.wc = Upd(r.wc, b.wc),
                          !.fs = IF b.fs = None THEN r.fs ELSE IF b.fs[1] = <<>> THEN None ELSE b.fs]))
NewReg(h, n, path) ==
  Bind(RegB(h, path), LAMBDA b :
    Bind(RegBuild(b, n, None), LAMBDA r :
      Bind(DimOf(h), LAMBDA db : Bind(DimNew(db), LAMBDA dim : Ok([r EXCEPT !.dim = dim])))))
NewRegs(h) == \* the map under `registers`
  MapR(LAMBDA kv : Bind(AsMap(kv[2]), LAMBDA rh : NewReg(rh, kv[1], <<>>)), h)

-----------------------------------------------------------------------------
(* Clusters                                                                 *)
CluB(h, path) ==
  LET d == OptStr(h, "description") df == OptStr(h, "derivedFrom") p == PropsOf(h)
      rm == OptMap(h, "registers") n == OptStr(h, "name") off == OptU32(h, "addressOffset")
      ch == IF ~IsOk(rm) THEN rm ELSE IF rm.v = None THEN Ok(None)
            ELSE Bind(NewRegs(rm.v[1]), LAMBDA s : Ok(Some(s)))
  IN Need(<<d, df, p, rm, ch, n, off>>,
          [n |-> n.v, d |-> InterpO(path, d.v), df |-> InterpO(path, df.v), p |-> p.v,
           ch |-> ch.v, off |-> off.v])
CluBuild(b, n, dim) ==
  IF b.off = None THEN Err("no-address-offset")
  ELSE IF b.ch = None THEN Err("no-children")
  ELSE Bind(CheckProps(b.p), LAMBDA p :
    Ok([k |-> "c", n |-> n, dim |-> dim, d |-> E2N(b.d), ac |-> None, hs |-> None,
        off |-> b.off[1], p |-> p, ch |-> b.ch[1], df |-> b.df]))
CluMod(c, b) ==
  LET c1 == [c EXCEPT !.n = OrElse(b.n, c.n), !.d = IF b.d = None THEN c.d ELSE E2N(b.d),
                      !.off = OrElse(b.off, c.off)]
  IN IF b.df # None
     THEN Ok([c1 EXCEPT !.df = b.df, !.ch = <<>>, !.p = NoProps])
     ELSE Bind(ModProps(c.p, b.p), LAMBDA p : Ok([c1 EXCEPT !.p = p, !.ch = OrElse(b.ch, c.ch)]))
NewClu(h, n, path) ==
  Bind(CluB(h, path), LAMBDA b :
    Bind(CluBuild(b, n, None), LAMBDA c :
      Bind(DimOf(h), LAMBDA db : Bind(DimNew(db), LAMBDA dim : Ok([c EXCEPT !.dim = dim])))))

-----------------------------------------------------------------------------
(* Interrupts, address blocks, cpu, peripherals                             *)
IntB(h) ==
  LET d == OptStr(h, "description") n == OptStr(h, "name") v == OptU32(h, "value")
  IN Need(<<d, n, v>>, [n |-> n.v, d |-> d.v, v |-> v.v])
IntBuild(b, n) == IF b.v = None THEN Err("no-int-value") ELSE Ok([n |-> n, d |-> b.d, v |-> b.v[1]])
IntMod(i, b) == [n |-> OrElse(b.n, i.n), d |-> Upd(i.d, b.d), v |-> OrElse(b.v, i.v)]
NewInt(h, n) == Bind(IntB(h), LAMBDA b : IntBuild(b, n))

ABB(h) ==
  LET off == OptU32(h, "offset") sz == OptU32(h, "size") us == Word(h, "usage", ABUsages)
  IN Need(<<off, sz, us>>, [off |-> off.v, sz |-> sz.v, us |-> us.v])
ABBuild(b) == IF b.off = None \/ b.sz = None \/ b.us = None THEN Err("address-block")
              ELSE Ok([off |-> b.off[1], sz |-> b.sz[1], us |-> b.us[1], pr |-> None])
ABMod(a, b) == [off |-> OrElse(b.off, a.off), sz |-> OrElse(b.sz, a.sz), us |-> OrElse(b.us, a.us), pr |-> a.pr]
NewAB(h) == Bind(ABB(h), ABBuild)
NewABs(a) == MapR(LAMBDA y : Bind(AsMap(y), NewAB), a)
\* `addressBlock` (a map) or else `addressBlocks` (a list)
ABNode(h) ==
  LET a == Get(h, "addressBlock") b == Get(h, "addressBlocks") IN
  IF a # None THEN (IF a[1].t = "m" THEN <<"one", a[1].m>> ELSE <<"bad", "not-map">>)
  ELSE IF b # None THEN (IF b[1].t = "a" THEN <<"many", b[1].a>> ELSE <<"bad", "not-list">>)
  ELSE <<"no">>

CpuB(h) ==
  LET n == OptStr(h, "name") rev == OptStr(h, "revision") en == Word(h, "endian", Endians)
      mpu == OptBool(h, "mpuPresent") fpu == OptBool(h, "fpuPresent") fdp == OptBool(h, "fpuDP")
      dsp == OptBool(h, "dspPresent") ic == OptBool(h, "icachePresent") dc == OptBool(h, "dcachePresent")
      it == OptBool(h, "itcmPresent") dt == OptBool(h, "dtcmPresent") vtor == OptBool(h, "vtorPresent")
      prio == OptU32(h, "nvicPrioBits") vst == OptBool(h, "vendorSystickConfig")
      ni == OptU32(h, "deviceNumInterrupts") sau == OptU32(h, "sauNumRegions")
  IN Need(<<n, rev, en, mpu, fpu, fdp, dsp, ic, dc, it, dt, vtor, prio, vst, ni, sau>>,
       [n |-> n.v, rev |-> rev.v, en |-> en.v, mpu |-> mpu.v, fpu |-> fpu.v,
        fdp |-> fdp.v, dsp |-> dsp.v, ic |-> ic.v, dc |-> dc.v, it |-> it.v, dt |-> dt.v,
        vtor |-> vtor.v, prio |-> prio.v, vst |-> vst.v, ni |-> ni.v, sau |-> sau.v])
CpuBuild(b) ==
  IF b.n = None \/ b.rev = None \/ b.en = None \/ b.mpu = None \/ b.fpu = None \/ b.prio = None \/ b.vst = None
  THEN Err("cpu-incomplete")
  ELSE Ok([n |-> b.n[1], rev |-> b.rev[1], en |-> b.en[1], mpu |-> b.mpu[1], fpu |-> b.fpu[1],
           fdp |-> b.fdp, dsp |-> b.dsp, ic |-> b.ic, dc |-> b.dc, it |-> b.it, dt |-> b.dt,
           vtor |-> b.vtor, prio |-> b.prio[1], vst |-> b.vst[1], ni |-> b.ni, sau |-> b.sau])
CpuMod(c, b) ==
  [n |-> OrElse(b.n, c.n), rev |-> OrElse(b.rev, c.rev), en |-> OrElse(b.en, c.en),
   mpu |-> OrElse(b.mpu, c.mpu), fpu |-> OrElse(b.fpu, c.fpu), fdp |-> Upd(c.fdp, b.fdp),
   dsp |-> Upd(c.dsp, b.dsp), ic |-> Upd(c.ic, b.ic), dc |-> Upd(c.dc, b.dc), it |-> Upd(c.it, b.it),
   dt |-> Upd(c.dt, b.dt), vtor |-> Upd(c.vtor, b.vtor), prio |-> OrElse(b.prio, c.prio),
   vst |-> OrElse(b.vst, c.vst), ni |-> Upd(c.ni, b.ni), sau |-> Upd(c.sau, b.sau)]

PerB(h, modify) ==
  LET dn == OptStr(h, "displayName") ver == OptStr(h, "version") d == OptStr(h, "description")
      df == OptStr(h, "derivedFrom") gn == OptStr(h, "groupName") n == OptStr(h, "name")
      base == OptInt(h, "baseAddress")
      im == IF modify THEN Ok(None) ELSE OptMap(h, "interrupts")
      ints == IF ~IsOk(im) THEN im ELSE IF im.v = None THEN Ok(None)
              ELSE Bind(MapR(LAMBDA kv : Bind(AsMap(kv[2]), LAMBDA ih : NewInt(ih, kv[1])), im.v[1]),
                        LAMBDA s : Ok(Some(s)))
      p == PropsOf(h)
      abn == ABNode(h)
      ab == IF modify \/ abn[1] = "no" THEN Ok(None)
            ELSE IF abn[1] = "bad" THEN Err(abn[2])
            ELSE IF abn[1] = "one" THEN Bind(NewAB(abn[2]), LAMBDA a : Ok(Some(<<a>>)))
            ELSE Bind(NewABs(abn[2]), LAMBDA a : Ok(Some(a)))
      rm == OptMap(h, "registers")
      regs == IF ~IsOk(rm) THEN rm ELSE IF rm.v = None THEN Ok(None)
              ELSE Bind(NewRegs(rm.v[1]), LAMBDA s : Ok(Some(s)))
      common == <<dn, ver, d, df, gn, im, ints, n, base>>
      b0 == [n |-> n.v, dn |-> dn.v, ver |-> ver.v, d |-> d.v, df |-> df.v, gn |-> gn.v,
             base |-> base.v, ints |-> ints.v, p |-> NoProps, ab |-> None, regs |-> None]
  IN IF \E i \in 1..Len(common) : ~IsOk(common[i]) THEN Need(common, <<>>)
     ELSE IF df.v # None THEN Ok(b0)
     ELSE Need(<<p, ab, rm, regs>>, [b0 EXCEPT !.p = p.v, !.ab = ab.v, !.regs = regs.v])
PerBuild(b, n, dim) ==
  IF b.base = None THEN Err("no-base-address")
  ELSE Bind(CheckProps(b.p), LAMBDA p :
    Ok([n |-> n, dim |-> dim, dn |-> E2N(b.dn), ver |-> E2N(b.ver), d |-> E2N(b.d), ap |-> None,
        gn |-> E2N(b.gn), ptn |-> None, atn |-> None, hsn |-> None, base |-> b.base[1], p |-> p,
        ab |-> b.ab, ints |-> OrElse(b.ints, <<>>), regs |-> b.regs, df |-> b.df]))
PerMod(q, b) ==
  LET q1 == [q EXCEPT !.n = OrElse(b.n, q.n), !.dn = IF b.dn = None THEN q.dn ELSE E2N(b.dn),
               !.ver = IF b.ver = None THEN q.ver ELSE E2N(b.ver),
               !.d = IF b.d = None THEN q.d ELSE E2N(b.d),
               !.gn = IF b.gn = None THEN q.gn ELSE E2N(b.gn),
               !.base = OrElse(b.base, q.base), !.ints = OrElse(b.ints, q.ints)]
  IN IF b.df # None
     THEN Ok([q1 EXCEPT !.df = b.df, !.regs = None, !.ab = None, !.p = NoProps])
     ELSE Bind(ModProps(q.p, b.p), LAMBDA p :
            Ok([q1 EXCEPT !.p = p, !.ab = Upd(q.ab, b.ab),
                  !.regs = IF b.regs = None THEN q.regs ELSE IF b.regs[1] = <<>> THEN None ELSE b.regs]))

-----------------------------------------------------------------------------
(* Positions                                                                *)
RemoveAt2(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
MoveTo(s, from, to) == InsertAt(RemoveAt2(s, from), to, s[from])
\* index (1-based) where a new element with key `a` is inserted: right after the last of the
\* elements having the greatest key not above it; first when there is none
AddPos(keys, Le(_, _), a) ==
  LET C == {i \in 1..Len(keys) : Le(keys[i], a)} IN
  IF C = {} THEN 1
  ELSE MaxOf({i \in C : \A j \in C : Le(keys[j], keys[i])}) + 1

(* What the serialized form cannot tell apart                               *)
RECURSIVE NormKid(_)
NormKid(c) == IF IsReg(c) THEN [c EXCEPT !.fs = IF c.fs = <<(<<>>)>> THEN None ELSE c.fs]
              ELSE [c EXCEPT !.ch = [i \in 1..Len(c.ch) |-> NormKid(c.ch[i])]]
NormPer(p) == [p EXCEPT !.ab = IF p.ab = <<<<>>>> THEN None ELSE p.ab,
                        !.regs = IF p.regs = None THEN None
                                 ELSE Some([i \in 1..Len(p.regs[1]) |-> NormKid(p.regs[1][i])])]
NormDev(d) == [d EXCEPT !.pers = [i \in 1..Len(d.pers) |-> NormPer(d.pers[i])]]
-----------------------------------------------------------------------------
(* What a peripheral takes from the one it is derived from                  *)
FillProps(a, b) == [sz |-> Upd(b.sz, a.sz), ac |-> Upd(b.ac, a.ac), pr |-> Upd(b.pr, a.pr),
                    rv |-> Upd(b.rv, a.rv), rm |-> Upd(b.rm, a.rm)]
FillDim(x, y) ==
  IF x.dim = None
  THEN (IF y.dim # None /\ HasSub(x.n, "%s") THEN Some([y.dim[1] EXCEPT !.nm = None]) ELSE None)
  ELSE IF y.dim = None THEN x.dim
  ELSE LET a == x.dim[1] b == y.dim[1] IN
       Some([a EXCEPT !.nm = Upd(b.nm, a.nm),
                      !.ix = IF a.n = b.n THEN Upd(b.ix, a.ix) ELSE a.ix,
                      !.ai = IF a.n = b.n THEN Upd(b.ai, a.ai) ELSE a.ai])
FillPer(x, y) ==
  [x EXCEPT !.dim = FillDim(x, y), !.ver = Upd(y.ver, x.ver), !.d = Upd(y.d, x.d), !.gn = Upd(y.gn, x.gn),
            !.ptn = Upd(y.ptn, x.ptn), !.atn = Upd(y.atn, x.atn), !.hsn = Upd(y.hsn, x.hsn),
            !.p = FillProps(x.p, y.p), !.regs = Upd(y.regs, x.regs), !.ab = Upd(y.ab, x.ab),
            !.ints = IF x.ints = <<>> THEN y.ints ELSE x.ints]
=============================================================================
