-------------------------------- MODULE Encode ------------------------------
(***************************************************************************)
(* Writing a device as an SVD document under a format configuration.        *)
(* A document is a sequence of texts: "<tag" and ">tag" for an element with *)
(* children, "@derivedFrom=..." right after its start, "tag=text" for an    *)
(* element holding a text.                                                  *)
(* A configuration is a sequence of <<option, value>>, each at most once.   *)
(***************************************************************************)
EXTENDS Views

-----------------------------------------------------------------------------
(* Numbers                                                                  *)
NumberFormats == {"UpperHex", "UpperHex8", "UpperHex16", "LowerHex", "LowerHex8", "LowerHex16", "Dec", "Bin"}
\* every option has a value of its kind; what is no option, and what says nothing about an order, is ignored
NumberOptions == {"peripheral_base_address", "address_block_offset", "address_block_size", "cluster_address_offset",
                  "register_address_offset", "register_size", "register_reset_value", "register_reset_mask",
                  "enumerated_value_value", "dim_dim", "dim_increment"}
CaseOptions == {"peripheral_name", "interrupt_name", "cluster_name", "register_name", "field_name", "enumerated_values_name",
                "enumerated_value_name", "dim_array_index_header_enum_name"}
ConfigFine(cfg) ==
  \A i \in 1..Len(cfg) :
     IF cfg[i][1] \in NumberOptions THEN cfg[i][2] \in NumberFormats
     ELSE IF cfg[i][1] \in CaseOptions THEN cfg[i][2] \in {"Camel", "Pascal", "Snake", "Constant"}
     ELSE cfg[i][1] = "field_bit_range" => cfg[i][2] \in {"BitRange", "OffsetWidth", "MsbLsb"}
HexDigits(v, f) == IF StartsWith(f, "Lower") THEN ToLower(WHex(v)) ELSE WHex(v)
RECURSIVE BinDigits(_, _)
BinDigits(v, n) == IF n = 0 THEN "" ELSE NatStr(WBit(v, n - 1)) \o BinDigits(v, n - 1)
Number(v, f) ==
  CASE f = "Dec" -> WDec(v)
    [] f = "Bin" -> "0b" \o (IF v = W0 THEN "0" ELSE BinDigits(v, WBits(v)))
    [] f \in {"UpperHex", "LowerHex"} -> "0x" \o HexDigits(v, f)
    [] f \in {"UpperHex8", "LowerHex8"} -> "0x" \o Pad(HexDigits(v, f), 8)
    [] f \in {"UpperHex16", "LowerHex16"} -> "0x" \o Pad(HexDigits(v, f), IF v[1] = 0 /\ v[2] = 0 THEN 8 ELSE 16)
\* the value a number text stands for, or <<>>
ReadNumber(t) ==
  IF StartsWith(t, "0x") \/ StartsWith(t, "0X") THEN WParseU(Drop(t, 2), 16)
  ELSE IF StartsWith(t, "0b") THEN WParseU(Drop(t, 2), 2)
  ELSE IF StartsWith(t, "#") THEN WParseU(Drop(t, 1), 2)
  ELSE WParseU(t, 10)

-----------------------------------------------------------------------------
(* Letter case of identifiers                                               *)
Delims == {"_", "-", " "}
\* does a word begin at position i (the character stays)?
Begins(s, i) ==
  /\ i > 1
  /\ LET a == Ch(s, i - 1) b == Ch(s, i) IN
     (a \in Lower /\ b \in Upper) \/ (a \in Upper /\ b \in Lower)
       \/ (a \in Upper /\ b \in Upper /\ i < Len(s) /\ Ch(s, i + 1) \in Lower)
IdWords(s) ==
  LET r == FoldLeft(LAMBDA a, i :
              IF Ch(s, i) \in Delims THEN [ws |-> Append(a.ws, a.w), w |-> ""]
              ELSE IF Begins(s, i) THEN [ws |-> Append(a.ws, a.w), w |-> Ch(s, i)]
              ELSE [a EXCEPT !.w = a.w \o Ch(s, i)],
            [ws |-> <<>>, w |-> ""], [i \in 1..Len(s) |-> i])
  IN SelectSeq(Append(r.ws, r.w), LAMBDA w : w # "")
Capital(w) == ToUpper(Take(w, 1)) \o ToLower(Drop(w, 1))
Cased(s, f) ==
  LET ws == IdWords(s) IN
  IF f = "" THEN s
  ELSE SubstAll(CASE f = "Snake" -> Join([i \in 1..Len(ws) |-> ToLower(ws[i])], "_")
                  [] f = "Constant" -> Join([i \in 1..Len(ws) |-> ToUpper(ws[i])], "_")
                  [] f = "Pascal" -> Concat([i \in 1..Len(ws) |-> Capital(ws[i])])
                  [] f = "Camel" -> Concat([i \in 1..Len(ws) |-> IF i = 1 THEN ToLower(ws[i]) ELSE Capital(ws[i])]),
                "%S", "%s")

-----------------------------------------------------------------------------
(* Configuration                                                            *)
Defaults == <<
  <<"peripheral_base_address", "UpperHex8">>, <<"address_block_offset", "UpperHex">>, <<"address_block_size", "UpperHex">>,
  <<"cluster_address_offset", "UpperHex">>, <<"register_address_offset", "UpperHex">>, <<"register_size", "LowerHex">>,
  <<"register_reset_value", "UpperHex16">>, <<"register_reset_mask", "UpperHex16">>, <<"enumerated_value_value", "Dec">>,
  <<"dim_dim", "Dec">>, <<"dim_increment", "UpperHex">> >>
Setting(cfg, k) == \* "" when there is none
  LET C == {i \in 1..Len(cfg) : cfg[i][1] = k} D == {i \in 1..Len(Defaults) : Defaults[i][1] = k} IN
  IF C # {} THEN cfg[MinOf(C)][2] ELSE IF D # {} THEN Defaults[MinOf(D)][2] ELSE ""
Parts(cfg, k) == ToSet(Split(Setting(cfg, k), ","))

(* Order of elements.  Key of an offset: two numbers compared one after the other *)
Low(w) == <<IF w[3] >= 32768 THEN w[3] - 65536 ELSE w[3], w[4]>>
KeyLt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
\* positions of xs in the order of Lt, equal ones as they were
StableSort(xs, Lt(_, _)) ==
  LET o == SetToSortSeq(1..Len(xs), LAMBDA i, j : Lt(xs[i], xs[j]) \/ (~Lt(xs[j], xs[i]) /\ i < j))
  IN [k \in 1..Len(xs) |-> xs[o[k]]]
SortBy(xs, parts, OffLt(_, _), LowOf(_)) ==
  IF "Offset" \in parts THEN StableSort(xs, OffLt)
  ELSE IF "OffsetReversed" \in parts THEN StableSort(xs, LAMBDA a, b : KeyLt(LowOf(b), LowOf(a)))
  ELSE IF "Name" \in parts THEN StableSort(xs, LAMBDA a, b : StrLess(a.n, b.n))
  ELSE xs
Derivable(xs, parts, OffLt(_, _), LowOf(_), IsDer(_)) ==
  IF "DerivedLast" \in parts
  THEN SortBy(SelectSeq(xs, LAMBDA x : ~IsDer(x)), parts, OffLt, LowOf) \o SortBy(SelectSeq(xs, IsDer), parts, OffLt, LowOf)
  ELSE SortBy(xs, parts, OffLt, LowOf)
HasDf(x) == x.df # None
OrderPers(ps, cfg) ==
  Derivable(ps, Parts(cfg, "peripheral_sorting"), LAMBDA a, b : WLt(a.base, b.base), LAMBDA p : Low(p.base), HasDf)
OrderKids(xs, cfg) ==
  LET parts == Parts(cfg, "register_cluster_sorting")
      one(l) == Derivable(l, parts, LAMBDA a, b : a.off < b.off, LAMBDA x : <<x.off, 0>>, HasDf)
      rs == one(SelectSeq(xs, IsReg)) cs == one(SelectSeq(xs, IsClu))
  IN IF "RegistersFirst" \in parts THEN rs \o cs
     ELSE IF "ClustersFirst" \in parts THEN cs \o rs
     ELSE one(xs)
OrderFields(fs, cfg) ==
  Derivable(fs, Parts(cfg, "field_sorting"), LAMBDA a, b : a.off < b.off, LAMBDA x : <<x.off, 0>>,
            LAMBDA f : f.df # None \/ \E i \in 1..Len(f.evs) : f.evs[i].df # None)

-----------------------------------------------------------------------------
(* Elements                                                                 *)
Leaf(t, s) == <<t \o "=" \o s>>
LeafO(t, o) == IF o = None THEN <<>> ELSE Leaf(t, o[1])
Node(t, kids) == <<"<" \o t>> \o kids \o <<">" \o t>>
FromAttr(o, f) == IF o = None THEN <<>> ELSE <<"@derivedFrom=" \o Cased(o[1], f)>>
LeafW(t, o, f) == IF o = None THEN <<>> ELSE Leaf(t, Number(o[1], f))
Bool(b) == IF b THEN "true" ELSE "false"
LeafB(t, o) == IF o = None THEN <<>> ELSE Leaf(t, Bool(o[1]))
LeafN(t, o) == IF o = None THEN <<>> ELSE Leaf(t, NatStr(o[1]))
Cat(F(_), xs) == Flat([i \in 1..Len(xs) |-> F(xs[i])])

EncProps(p, cfg) ==
  (IF p.sz = None THEN <<>> ELSE Leaf("size", Number(WOf(p.sz[1]), Setting(cfg, "register_size"))))
    \o LeafO("access", p.ac) \o LeafO("protection", p.pr)
    \o LeafW("resetValue", p.rv, Setting(cfg, "register_reset_value"))
    \o LeafW("resetMask", p.rm, Setting(cfg, "register_reset_mask"))
EncValue(v, cfg) ==
  Node("enumeratedValue",
    Leaf("name", Cased(v.n, Setting(cfg, "enumerated_value_name"))) \o LeafO("description", v.d)
      \o LeafW("value", v.v, Setting(cfg, "enumerated_value_value")) \o LeafB("isDefault", v.def))
EncValues(e, cfg) ==
  LET f == Setting(cfg, "enumerated_values_name") IN
  Node("enumeratedValues",
    FromAttr(e.df, f) \o (IF e.n = None THEN <<>> ELSE Leaf("name", Cased(e.n[1], f))) \o LeafO("usage", e.us)
      \o Cat(LAMBDA v : EncValue(v, cfg), e.vals))
\* indexes counting up one by one are written as a range
Counting(d) ==
  LET ix == Indexes(d) IN
  /\ Len(ix) > 0
  /\ \A i \in 1..Len(ix) : IsNat(ix[i]) /\ NatStr(StrNat(ix[i])) = ix[i]
  /\ \A i \in 1..Len(ix) : StrNat(ix[i]) = StrNat(ix[1]) + i - 1
EncDim(o, cfg) ==
  IF o = None THEN <<>>
  ELSE LET d == o[1] ix == Indexes(d) IN
       Leaf("dim", Number(WOf(d.n), Setting(cfg, "dim_dim")))
         \o Leaf("dimIncrement", Number(WOf(d.inc), Setting(cfg, "dim_increment")))
         \o (IF d.ix = None THEN <<>>
             ELSE Leaf("dimIndex", IF Counting(d) THEN ix[1] \o "-" \o ix[Len(ix)] ELSE Join(ix, ",")))
         \o LeafO("dimName", d.nm)
         \o (IF d.ai = None THEN <<>>
             ELSE Node("dimArrayIndex",
                    (IF d.ai[1].h = None THEN <<>>
                     ELSE Leaf("headerEnumName", Cased(d.ai[1].h[1], Setting(cfg, "dim_array_index_header_enum_name"))))
                      \o Cat(LAMBDA v : EncValue(v, cfg), d.ai[1].vals)))
EncConstraint(o) ==
  IF o = None THEN <<>>
  ELSE Node("writeConstraint",
    CASE o[1].k = "range" -> Node("range", Leaf("minimum", WDec(o[1].min)) \o Leaf("maximum", WDec(o[1].max)))
      [] o[1].k = "enum" -> Leaf("useEnumeratedValues", "true")
      [] OTHER -> Leaf("writeAsRead", "true"))
\* nota: how bit ranges are written when the configuration does not say it
EncBits(f, nota) ==
  CASE nota = "BitRange" -> Leaf("bitRange", "[" \o NatStr(f.off + f.w - 1) \o ":" \o NatStr(f.off) \o "]")
    [] nota = "MsbLsb" -> Leaf("lsb", NatStr(f.off)) \o Leaf("msb", NatStr(f.off + f.w - 1))
    [] OTHER -> Leaf("bitOffset", NatStr(f.off)) \o Leaf("bitWidth", NatStr(f.w))
EncField(f, cfg, nota) ==
  LET nf == Setting(cfg, "field_name") br == Setting(cfg, "field_bit_range") IN
  Node("field",
    FromAttr(f.df, nf) \o EncDim(f.dim, cfg) \o Leaf("name", Cased(f.n, nf)) \o LeafO("description", f.d)
      \o EncBits(f, IF br = "" THEN nota ELSE br) \o LeafO("access", f.ac) \o LeafO("modifiedWriteValues", f.mwv)
      \o EncConstraint(f.wc) \o LeafO("readAction", f.ra) \o Cat(LAMBDA e : EncValues(e, cfg), f.evs))
EncReg(r, cfg, nota) ==
  LET nf == Setting(cfg, "register_name") IN
  Node("register",
    FromAttr(r.df, nf) \o EncDim(r.dim, cfg) \o Leaf("name", Cased(r.n, nf)) \o LeafO("displayName", r.dn)
      \o LeafO("description", r.d) \o LeafO("alternateGroup", r.ag)
      \o (IF r.ar = None THEN <<>> ELSE Leaf("alternateRegister", Cased(r.ar[1], nf)))
      \o Leaf("addressOffset", Number(WOf(r.off), Setting(cfg, "register_address_offset")))
      \o EncProps(r.p, cfg) \o LeafO("dataType", r.dt) \o LeafO("modifiedWriteValues", r.mwv) \o EncConstraint(r.wc)
      \o LeafO("readAction", r.ra)
      \o (IF r.fs = None THEN <<>> ELSE IF r.fs[1] = <<>> THEN <<>>
          ELSE Node("fields", Cat(LAMBDA f : EncField(f, cfg, nota), OrderFields(r.fs[1], cfg)))))
RECURSIVE EncKid(_, _, _)
EncKid(x, cfg, nota) ==
  IF IsReg(x) THEN EncReg(x, cfg, nota)
  ELSE LET nf == Setting(cfg, "cluster_name") IN
  Node("cluster",
    FromAttr(x.df, nf) \o EncDim(x.dim, cfg) \o Leaf("name", Cased(x.n, nf)) \o LeafO("description", x.d)
      \o (IF x.ac = None THEN <<>> ELSE Leaf("alternateCluster", Cased(x.ac[1], nf))) \o LeafO("headerStructName", x.hs)
      \o Leaf("addressOffset", Number(WOf(x.off), Setting(cfg, "cluster_address_offset")))
      \o EncProps(x.p, cfg) \o Cat(LAMBDA y : EncKid(y, cfg, nota), x.ch))
EncPer(p, cfg, nota) ==
  LET nf == Setting(cfg, "peripheral_name") id(t, o) == IF o = None THEN <<>> ELSE Leaf(t, Cased(o[1], nf)) IN
  Node("peripheral",
    FromAttr(p.df, nf) \o EncDim(p.dim, cfg) \o Leaf("name", Cased(p.n, nf)) \o LeafO("displayName", p.dn)
      \o LeafO("version", p.ver) \o LeafO("description", p.d) \o id("alternatePeripheral", p.ap)
      \o LeafO("groupName", p.gn) \o id("prependToName", p.ptn) \o id("appendToName", p.atn) \o id("headerStructName", p.hsn)
      \o Leaf("baseAddress", Number(p.base, Setting(cfg, "peripheral_base_address")))
      \o EncProps(p.p, cfg)
      \o (IF p.ab = None THEN <<>>
          ELSE Cat(LAMBDA a : Node("addressBlock",
                      Leaf("offset", Number(WOf(a.off), Setting(cfg, "address_block_offset")))
                        \o Leaf("size", Number(WOf(a.sz), Setting(cfg, "address_block_size")))
                        \o Leaf("usage", a.us) \o LeafO("protection", a.pr)), p.ab[1]))
      \o Cat(LAMBDA i : Node("interrupt", Leaf("name", Cased(i.n, Setting(cfg, "interrupt_name"))) \o LeafO("description", i.d)
                                            \o Leaf("value", NatStr(i.v))), p.ints)
      \o (IF p.regs = None THEN <<>>
          ELSE Node("registers", Cat(LAMBDA y : EncKid(y, cfg, nota), OrderKids(p.regs[1], cfg)))))
EncCpu(o) ==
  IF o = None THEN <<>>
  ELSE LET c == o[1] IN
  Node("cpu",
    Leaf("name", c.n) \o Leaf("revision", c.rev) \o Leaf("endian", c.en) \o Leaf("mpuPresent", Bool(c.mpu))
      \o Leaf("fpuPresent", Bool(c.fpu)) \o LeafB("fpuDP", c.fdp) \o LeafB("dspPresent", c.dsp) \o LeafB("icachePresent", c.ic)
      \o LeafB("dcachePresent", c.dc) \o LeafB("itcmPresent", c.it) \o LeafB("dtcmPresent", c.dt) \o LeafB("vtorPresent", c.vtor)
      \o Leaf("nvicPrioBits", NatStr(c.prio)) \o Leaf("vendorSystickConfig", Bool(c.vst))
      \o LeafN("deviceNumInterrupts", c.ni) \o LeafN("sauNumRegions", c.sau))
\* everything before and around the peripherals
EncHead(d, cfg) ==
  LeafO("vendor", d.ven) \o LeafO("vendorID", d.vid) \o Leaf("name", d.n) \o LeafO("series", d.ser)
    \o Leaf("version", d.ver) \o Leaf("description", d.d) \o LeafO("licenseText", d.lic) \o EncCpu(d.cpu)
    \o LeafO("headerSystemFilename", d.hsf) \o LeafO("headerDefinitionsPrefix", d.hdp)
    \o Leaf("addressUnitBits", NatStr(d.aub)) \o Leaf("width", NatStr(d.w)) \o EncProps(d.p, cfg)
EncDev(d, cfg, nota) ==
  <<"<device">> \o EncHead(d, cfg)
    \o Node("peripherals", Cat(LAMBDA p : EncPer(p, cfg, nota), OrderPers(d.pers, cfg))) \o <<">device">>
=============================================================================
