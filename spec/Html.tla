-------------------------------- MODULE Html --------------------------------
(***************************************************************************)
(* The page `svdtools html` makes of a device.                              *)
(***************************************************************************)
EXTENDS ExpandOps

Sq(s) == Squeeze(Some(s))
LHex(w) == "0x" \o ToLower(WHex(w))
\* share in thousandths of a percent
Percent(n, m) == IF m = 0 THEN 100000 ELSE (100000 * n) \div m
\* sequence in the order of a key: number first, then text without case
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ StrLess(a[2], b[2]))
InOrder(s, Key(_)) ==
  LET key == [i \in 1..Len(s) |-> Key(s[i])]
      o == SetToSortSeq(1..Len(s), LAMBDA i, j : Before(key[i], key[j]) \/ (key[i] = key[j] /\ i < j))
  IN [i \in 1..Len(s) |-> s[o[i]]]
FromLowBit(fs) == InOrder(fs, LAMBDA f : <<f.off, "">>)

-----------------------------------------------------------------------------
(* Elements of arrays show their index in brackets                          *)
Bracketed(x, k) ==
  IF x.dim = None THEN x
  ELSE LET i == Indexes(x.dim[1])[k] IN
       [x EXCEPT !.n = Subst(x.n, "[" \o i \o "]"), !.d = IF x.d = None THEN None ELSE Some(Subst(x.d[1], i)),
                 !.dim = None, !.off = x.off + (k - 1) * IncOf(x)]
Elements(x) == [k \in 1..Len(IF x.dim = None THEN <<1>> ELSE Indexes(x.dim[1])) |-> Bracketed(x, k)]

ShortAccess(a) == CASE a = "read-write" -> "rw" [] a = "read-only" -> "r" [] a = "write-only" -> "w" [] OTHER -> "N/A"
ShortWrite == [oneToClear |-> "w1c", oneToSet |-> "w1s", oneToToggle |-> "w1t", zeroToClear |-> "w0c", zeroToSet |-> "w0s",
               zeroToToggle |-> "w0t", clear |-> "wc", set |-> "ws", modify |-> "w"]
ShortRead(ra) == IF ra = None THEN "r"
                 ELSE CASE ra[1] = "clear" -> "rc" [] ra[1] = "set" -> "rs" [] ra[1] = "modify" -> "rm" [] OTHER -> "re"
AccessOf(f, racc) == OrElse(f.ac, racc)
CellAccess(f, racc) ==
  LET a == AccessOf(f, racc) w == OrElse(f.mwv, "modify") IN
  IF ShortAccess(a) = "N/A" \/ (w = "modify" /\ f.ra = None) THEN ShortAccess(a)
  ELSE CASE a = "read-only" -> ShortRead(f.ra)
         [] a = "write-only" -> ShortWrite[w]
         [] OTHER -> ShortRead(f.ra) \o "/" \o ShortWrite[w]

-----------------------------------------------------------------------------
(* Allowed values                                                           *)
\* the smallest number without a name, if the field has room for it
Hole(vals, w) ==
  LET named == {vals[i].v[1] : i \in {j \in 1..Len(vals) : vals[j].v # None}}
      n == MinOf({k \in 0..Cardinality(named) : WOf(k) \notin named})
  IN IF w > 20 \/ n < 2 ^ w THEN Some(n) ELSE None
ValueText(vals, v, w) ==
  IF v.v # None THEN Ok(WDec(v.v[1]))
  ELSE IF v.def # Some(TRUE) \/ Hole(vals, w) = None THEN Err("no-value")
  ELSE Ok(NatStr(Hole(vals, w)[1]) \o " (+)")
EvsText(vals, w) ==
  Bind(MapR(LAMBDA v : Bind(ValueText(vals, v, w), LAMBDA t : Ok(t \o ": " \o v.n \o ": " \o OrElse(v.d, "") \o "\n")), vals),
       LAMBDA l : Ok(Sq("Allowed values:\n" \o Concat(l))))
\* a field whose values are known: named, limited, or only ever read
Documented(f, racc) == f.evs # <<>> \/ f.wc # None \/ AccessOf(f, racc) = "read-only"
FieldDoc(d, f, path) ==
  IF f.evs # <<>>
  THEN LET e == f.evs[1] IN
       Bind(IF e.df = None THEN Ok(e) ELSE ResEvs(d, [e EXCEPT !.df = None], e.df[1], path, Fuel),
            LAMBDA r : EvsText(r.vals, f.w))
  ELSE IF f.wc # None /\ f.wc[1].k = "range"
  THEN Ok("Allowed values: " \o LHex(f.wc[1].min) \o "-" \o LHex(f.wc[1].max))
  ELSE Ok("")

-----------------------------------------------------------------------------
(* One register.  `path` is the place its fields are looked up at.          *)
HtmlField(d, f, path) ==
  Bind(IF f.df = None THEN Ok([x |-> f, at |-> None]) ELSE ResField(d, [f EXCEPT !.df = None], f.df[1], path, Fuel),
       LAMBDA r : LET es == Elements(r.x) at == OrElse(r.at, Append(path, f.n)) IN
                  Ok([i \in 1..Len(es) |-> [f |-> es[i], at |-> at]]))
\* the field shown at each bit, from bit 31 to bit 0
Owner(fs, b) == LET S == {i \in 1..Len(fs) : b >= fs[i].f.off /\ b < fs[i].f.off + fs[i].f.w} IN IF S = {} THEN 0 ELSE MinOf(S)
\* a field on both lines of the table
Cut(f) == f.off < 16 /\ f.off + f.w > 16
Cells(fs, top, racc) == \* of the sixteen bits below top
  LET own == [i \in 1..16 |-> Owner(fs, top - i)]
      name(i) == IF own[i] = 0 THEN "" ELSE fs[own[i]].f.n
      starts == {i \in 1..16 : IF i = 1 THEN TRUE ELSE name(i) # name(i - 1)}
      o == SetToSortSeq(starts, LAMBDA a, b : a < b)
  IN [k \in 1..Len(o) |->
        LET i == o[k] IN
        [n |-> name(i), w |-> (IF k = Len(o) THEN 17 ELSE o[k + 1]) - i,
         ac |-> IF own[i] = 0 THEN "" ELSE CellAccess(fs[own[i]].f, racc),
         cut |-> own[i] # 0 /\ Cut(fs[own[i]].f),
         doc |-> own[i] # 0 /\ (fs[own[i]].f.evs # <<>> \/ fs[own[i]].f.wc # None)]]
\* bit by bit, whether the cell is of such a field
Marks(cells) == FoldLeft(LAMBDA a, x : a \o [i \in 1..x.w |-> x.cut], <<>>, cells)
HtmlReg(d, r, path) ==
  Bind(ConcatR(LAMBDA f : HtmlField(d, f, path), FieldsOf(r)), LAMBDA raw :
  LET fs == InOrder(raw, LAMBDA x : <<x.f.off, "">>)
      size == OrElse(r.p.sz, 32)
      racc == OrElse(r.p.ac, "Unspecified")
      total == Len(fs)
      known == Cardinality({i \in 1..total : Documented(fs[i].f, racc)})
      upper == \E i \in 1..total : fs[i].f.off + fs[i].f.w > 16
      shown(b) == LET o == Owner(fs, b) IN IF o = 0 THEN "" ELSE fs[o].f.n
  IN IF \E i \in 1..total : fs[i].f.off + fs[i].f.w > size THEN Err("outside-register")
     ELSE Bind(MapR(LAMBDA x : FieldDoc(d, x.f, x.at), fs), LAMBDA docs :
       Ok([n |-> r.n, off |-> r.off, size |-> size, d |-> Squeeze(r.d), ac |-> racc,
           rst |-> "0x" \o Pad(WHex(OrElse(r.p.rv, W0)), 8),
           wc |-> IF r.wc # None /\ r.wc[1].k = "range" THEN WDec(r.wc[1].min) \o "-" \o WDec(r.wc[1].max) ELSE "",
           doc |-> known, tot |-> total, pct |-> Percent(known, total),
           bits |-> [i \in 1..32 |-> IF (i <= 16 /\ ~upper) \/ total = 0 THEN "" ELSE shown(32 - i)],
           cut |-> (IF upper THEN Marks(Cells(fs, 32, racc)) ELSE [i \in 1..16 |-> FALSE])
                   \o (IF total > 0 THEN Marks(Cells(fs, 16, racc)) ELSE [i \in 1..16 |-> FALSE]),
           rows |-> (IF upper THEN <<[top |-> 31, cells |-> Cells(fs, 32, racc)]>> ELSE <<>>)
                    \o (IF total > 0 THEN <<[top |-> 15, cells |-> Cells(fs, 16, racc)]>> ELSE <<>>),
           fs |-> [i \in 1..total |-> LET f == fs[i].f IN
                     [n |-> f.n, lo |-> f.off, hi |-> f.off + f.w - 1, d |-> Squeeze(f.d) \o ".", doc |-> docs[i]]]])))

HtmlRegs(d, r, extra, base, path) ==
  \* the elements of a register; extra: what its name has behind it
  LET x == [r EXCEPT !.n = r.n \o extra, !.off = r.off + base] IN
  Bind(IF r.df = None THEN Ok([x |-> x, at |-> None]) ELSE ResReg(d, [x EXCEPT !.df = None], r.df[1], path, Fuel),
       LAMBDA q :
  LET at == OrElse(q.at, Append(path, r.n)) es == Elements(q.x)
  IN MapR(LAMBDA e : HtmlReg(d, e, at), es))
RECURSIVE HtmlClu(_, _, _, _, _)
\* the registers in a cluster, also those of clusters inside: base and extra are the offset and the indexes of what is around
HtmlClu(d, c, path, base, extra) ==
  Bind(IF c.df = None THEN Ok([x |-> c, at |-> None]) ELSE ResClu(d, [c EXCEPT !.df = None], c.df[1], path, Fuel),
       LAMBDA q :
  LET at == OrElse(q.at, Append(path, c.n))
      ix == IF q.x.dim = None THEN <<"0">> ELSE Indexes(q.x.dim[1])
      behind(k) == extra \o " [" \o ix[k] \o "]"
      start(k) == base + q.x.off + (k - 1) * IncOf(q.x)
      one(k, y) == IF IsReg(y) THEN HtmlRegs(d, y, behind(k), start(k), at) ELSE HtmlClu(d, y, at, start(k), behind(k))
  IN ConcatR(LAMBDA k : ConcatR(LAMBDA y : one(k, y), q.x.ch), [k \in 1..Len(ix) |-> k]))
Sum(s, F(_)) == FoldLeft(LAMBDA a, x : a + F(x), 0, s)
\* the entries of a peripheral: as many as it has elements
HtmlPer(d, p) ==
  Bind(IF p.df = None THEN Ok([x |-> p, at |-> None]) ELSE ResPer(d, [p EXCEPT !.df = None], p.df[1], Fuel),
       LAMBDA q :
  LET at == OrElse(q.at, <<p.n>>)
      kids == KidsOfPer(q.x)
      clus == SelectSeq(kids, LAMBDA y : ~IsReg(y))
      regs == SelectSeq(kids, LAMBDA y : IsReg(y))
  IN Bind(ConcatR(LAMBDA c : HtmlClu(d, c, at, 0, ""), clus), LAMBDA a :
     Bind(ConcatR(LAMBDA r : HtmlRegs(d, r, "", 0, at), regs), LAMBDA b :
       LET all == InOrder(a \o b, LAMBDA r : <<r.off, ToLower(r.n)>>)
           doc == Sum(all, LAMBDA r : r.doc)
           tot == Sum(all, LAMBDA r : r.tot)
       IN Ok([k \in 1..CountOf(q.x) |->
                LET x == InstPer(q.x, k) IN
                [n |-> x.n, base |-> "0x" \o Pad(ToLower(WHex(x.base)), 8), d |-> Squeeze(x.d),
                 doc |-> doc, tot |-> tot, pct |-> Percent(doc, tot), regs |-> all]]))))
\* the device as the page shows it: what its blocks say about sizes and access reaches the registers
Shown(d) == PropDev(d)
PersInOrder(d) == InOrder(d.pers, LAMBDA p : <<0, ToLower(p.n)>>)
=============================================================================
