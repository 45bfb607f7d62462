------------------------------- MODULE BlockOps -----------------------------
(***************************************************************************)
(* Effect of rules on the contents of a register block: a peripheral or a  *)
(* cluster.  A block is [ch |-> optional sequence of registers and         *)
(* clusters, ints |-> sequence of interrupts] at a path bp (see BPath).     *)
(***************************************************************************)
EXTENDS RegOps

BlockKeywords == {"_include", "_path", "_delete", "_copy", "_strip", "_strip_end", "_prefix", "_suffix",
                  "_modify", "_clear_fields", "_add", "_derive", "_expand_array", "_expand_cluster",
                  "_array", "_cluster", "_clusters"}
PerKeywords == BlockKeywords \cup {"_interrupts"}

Ch0(b) == OrElse(b.ch, <<>>)
WithCh(b, s) == IF b.ch = None /\ s = <<>> THEN b ELSE [b EXCEPT !.ch = Some(s)]
RegsAt(s, spec) == {i \in 1..Len(s) : IsReg(s[i]) /\ Matches(s[i].n, spec)}
ClusAt(s, spec) == {i \in 1..Len(s) : IsClu(s[i]) /\ Matches(s[i].n, spec)}
RegNamed(s, n) == {i \in 1..Len(s) : IsReg(s[i]) /\ s[i].n = n}
Without(s, S) == LET keep == SelectSeq([i \in 1..Len(s) |-> <<i, s[i]>>], LAMBDA x : x[1] \notin S)
                 IN [i \in 1..Len(keep) |-> keep[i][2]]
At(s, S) == LET o == SetToSortSeq(S, LAMBDA a, b : a < b) IN [i \in 1..Len(o) |-> s[o[i]]]
\* apply F to the children at positions S, in order
MapAt(b, S, F(_)) ==
  Bind(FoldR(LAMBDA s, i : IF i \in S THEN Bind(F(s[i]), LAMBDA c : Ok([s EXCEPT ![i] = c])) ELSE Ok(s),
             Ch0(b), [i \in 1..Len(Ch0(b)) |-> i]),
       LAMBDA s : Ok(WithCh(b, s)))

-----------------------------------------------------------------------------
(* Interrupts                                                               *)
DelInt(b, spec) == [b EXCEPT !.ints = SelectSeq(b.ints, LAMBDA i : ~Matches(i.n, spec))]
ModInts(b, spec, h) ==
  LET S == {i \in 1..Len(b.ints) : Matches(b.ints[i].n, spec)} IN
  IF S = {} THEN Ok(b)
  ELSE Bind(IntB(h), LAMBDA ib :
         Ok([b EXCEPT !.ints = [i \in 1..Len(b.ints) |->
                                  IF i \in S THEN IntMod(b.ints[i], ib) ELSE b.ints[i]]]))
AddInt(b, name, h) ==
  IF \E i \in 1..Len(b.ints) : b.ints[i].n = name THEN Err("interrupt-exists")
  ELSE Bind(NewInt(h, name), LAMBDA i : Ok([b EXCEPT !.ints = Append(b.ints, i)]))
\* entries of the map node y, each a map
SubMaps(b, y, F(_, _, _)) ==
  Bind(AsMap(y), LAMBDA m :
    FoldR(LAMBDA q, kv : Bind(AsMap(kv[2]), LAMBDA h : In(kv[1], F(q, kv[1], h))), b, m))

-----------------------------------------------------------------------------
(* _delete                                                                  *)
DelChild(b, spec) ==
  IF b.ch = None THEN Err("no-children")
  ELSE Ok([b EXCEPT !.ch = Some(SelectSeq(b.ch[1], LAMBDA c : ~Matches(c.n, spec)))])
DelRegs(b, spec) ==
  IF b.ch = None THEN Err("no-children")
  ELSE Ok([b EXCEPT !.ch = Some(Without(b.ch[1], RegsAt(b.ch[1], spec)))])
DelClus(b, spec0) ==
  IF b.ch = None THEN Err("no-children")
  ELSE IF ClusAt(b.ch[1], SpecOf(spec0)) = {} /\ ~IsOptional(spec0) THEN Err("no-cluster")
  ELSE Ok([b EXCEPT !.ch = Some(Without(b.ch[1], ClusAt(b.ch[1], SpecOf(spec0))))])
BlkDelete(b, y) ==
  IF y.t = "s" THEN In(y.s, DelChild(b, y.s))
  ELSE IF y.t = "a" THEN FoldR(LAMBDA q, x : Bind(AsStr(x), LAMBDA s : In(s, DelChild(q, s))), b, y.a)
  ELSE IF y.t = "m"
  THEN LET r == StrVec(y.m, "_registers") c == StrVec(y.m, "_clusters") i == StrVec(y.m, "_interrupts") IN
       Bind(IF ~IsOk(r) THEN r ELSE FoldR(LAMBDA q, s : In(s, DelRegs(q, s)), b, r.v), LAMBDA b1 :
       Bind(IF ~IsOk(c) THEN c ELSE FoldR(LAMBDA q, s : In(s, DelClus(q, s)), b1, c.v), LAMBDA b2 :
       Bind(IF ~IsOk(i) THEN i ELSE Ok(FoldLeft(DelInt, b2, i.v)), LAMBDA b3 :
         IF Keys(y.m) \subseteq {"_registers", "_clusters", "_interrupts"} THEN Ok(b3)
         ELSE Err("delete-syntax"))))
  ELSE Err("delete-syntax")

-----------------------------------------------------------------------------
(* _copy                                                                    *)
CopyReg(b, name, h, bp) ==
  LET from == OptStr(h, "_from") IN
  IF ~IsOk(from) THEN from
  ELSE IF from.v = None THEN Err("no-from")
  ELSE LET s == Ch0(b)
           S == RegNamed(s, from.v[1])
           T == RegNamed(s, name)
       IN IF S = {} THEN Err("no-register")
          ELSE Bind(RegB(h, <<bp>>), LAMBDA rb :
               Bind(RegMod(s[MinOf(S)], [rb EXCEPT !.n = Some(name), !.dn = <<"">>]), LAMBDA r :
                 Ok(IF T # {} THEN [b EXCEPT !.ch = Some([s EXCEPT ![MinOf(T)] = [r EXCEPT !.off = s[MinOf(T)].off]])]
                    ELSE [b EXCEPT !.ch = Some(Append(s, r))])))
BlkCopy(b, kv, bp) ==
  IF kv[1] = "_registers" THEN SubMaps(b, kv[2], LAMBDA q, n, h : CopyReg(q, n, h, bp))
  ELSE IF kv[1] = "_clusters" THEN SubMaps(b, kv[2], LAMBDA q, n, h : Err("unsupported"))
  ELSE Bind(AsMap(kv[2]), LAMBDA h : In(kv[1], CopyReg(b, kv[1], h, bp)))

-----------------------------------------------------------------------------
(* Names                                                                    *)
OptF(o, F(_)) == IF o = None THEN None ELSE Some(F(o[1]))
StripKids(b, F(_)) ==
  IF b.ch = None THEN b
  ELSE [b EXCEPT !.ch = Some(MapSeq(LAMBDA c :
         IF IsReg(c) THEN [c EXCEPT !.n = F(c.n), !.dn = OptF(c.dn, F), !.ar = OptF(c.ar, F)]
         ELSE [c EXCEPT !.n = F(c.n), !.hs = OptF(c.hs, F), !.ac = OptF(c.ac, F)], b.ch[1]))]
NameRegs(b, F(_)) ==
  IF b.ch = None THEN b
  ELSE [b EXCEPT !.ch = Some(MapSeq(LAMBDA c :
         IF IsReg(c) THEN [c EXCEPT !.n = F(c.n), !.dn = OptF(c.dn, F), !.ar = OptF(c.ar, F)] ELSE c, b.ch[1]))]

-----------------------------------------------------------------------------
(* _modify                                                                  *)
ModRegsAt(b, S, h, bp) ==
  Bind(RegB(h, <<bp>>), LAMBDA rb : Bind(DimOf(h), LAMBDA db :
    MapAt(b, S, LAMBDA r :
      Bind(DimMod(r.dim, db), LAMBDA dim :
      Bind(RegMod([r EXCEPT !.dim = dim], rb), LAMBDA q :
        Ok(IF Get(h, "access") = <<YStr("")>> THEN [q EXCEPT !.p.ac = None] ELSE q))))))
ModClusAt(b, S, h, bp) ==
  Bind(CluB(h, <<bp>>), LAMBDA cb : Bind(DimOf(h), LAMBDA db :
    MapAt(b, S, LAMBDA c :
      Bind(DimMod(c.dim, db), LAMBDA dim : CluMod([c EXCEPT !.dim = dim], cb)))))
ModRegs(b, spec0, h, bp) ==
  LET S == RegsAt(Ch0(b), SpecOf(spec0)) IN
  IF S = {} /\ ~IsOptional(spec0) THEN Err("no-register") ELSE ModRegsAt(b, S, h, bp)
ModClus(b, spec0, h, bp) ==
  LET S == ClusAt(Ch0(b), SpecOf(spec0)) IN
  IF S = {} /\ ~IsOptional(spec0) THEN Err("no-cluster") ELSE ModClusAt(b, S, h, bp)
ModChild(b, spec0, h, bp) ==
  LET R == RegsAt(Ch0(b), SpecOf(spec0)) C == ClusAt(Ch0(b), SpecOf(spec0)) IN
  IF R # {} THEN ModRegsAt(b, R, h, bp)
  ELSE IF C # {} THEN ModClusAt(b, C, h, bp)
  ELSE IF IsOptional(spec0) THEN Ok(b) ELSE Err("no-child")
BlkModify(b, kv, bp) ==
  IF kv[2].t # "m" THEN Err("not-map")
  ELSE IF kv[1] = "_registers" THEN SubMaps(b, kv[2], LAMBDA q, s, h : ModRegs(q, s, h, bp))
  ELSE IF kv[1] = "_clusters" THEN SubMaps(b, kv[2], LAMBDA q, s, h : ModClus(q, s, h, bp))
  ELSE IF kv[1] = "_interrupts" /\ bp.c = <<>> THEN SubMaps(b, kv[2], ModInts)
  ELSE In(kv[1], ModChild(b, kv[1], kv[2].m, bp))

-----------------------------------------------------------------------------
(* _clear_fields: all registers below                                       *)
RECURSIVE ClearKids(_, _)
ClearKids(s, spec) ==
  [i \in 1..Len(s) |->
     IF IsClu(s[i]) THEN [s[i] EXCEPT !.ch = ClearKids(s[i].ch, spec)]
     ELSE IF s[i].df = None /\ Matches(s[i].n, spec) THEN ClearField(s[i], "*") ELSE s[i]]
ClearB(b, spec) == IF b.ch = None THEN b ELSE [b EXCEPT !.ch = Some(ClearKids(b.ch[1], spec))]

-----------------------------------------------------------------------------
(* _add                                                                     *)
LeNat(a, b) == a <= b
Insert(b, c) ==
  LET s == Ch0(b) IN
  [b EXCEPT !.ch = Some(InsertAt(s, AddPos([i \in 1..Len(s) |-> s[i].off], LeNat, c.off), c))]
AddReg(b, name, h, bp) ==
  IF RegNamed(Ch0(b), name) # {} THEN Err("register-exists")
  ELSE Bind(NewReg(h, name, <<bp>>), LAMBDA r : Ok(Insert(b, r)))
AddClu(b, name, h, bp) ==
  IF \E i \in 1..Len(Ch0(b)) : IsClu(Ch0(b)[i]) /\ Ch0(b)[i].n = name THEN Err("cluster-exists")
  ELSE Bind(NewClu(h, name, <<bp>>), LAMBDA c : Ok(Insert(b, c)))
BlkAdd(b, kv, bp) ==
  IF kv[2].t # "m" THEN Err("not-map")
  ELSE IF kv[1] = "_registers" THEN SubMaps(b, kv[2], LAMBDA q, n, h : AddReg(q, n, h, bp))
  ELSE IF kv[1] = "_clusters" THEN SubMaps(b, kv[2], LAMBDA q, n, h : AddClu(q, n, h, bp))
  ELSE IF kv[1] = "_interrupts" /\ bp.c = <<>> THEN SubMaps(b, kv[2], AddInt)
  ELSE In(kv[1], AddReg(b, kv[1], kv[2].m, bp))

-----------------------------------------------------------------------------
(* _derive                                                                  *)
RegPathOf(d, bp) ==
  LET parts == Split(d, ".") IN
  IF Len(parts) = 2 /\ bp.c # <<>> THEN BStr(BClu(BParent(bp), parts[1])) \o "." \o parts[2] ELSE d
NoRegB == [n |-> None, dn |-> None, d |-> None, df |-> None, ag |-> None, ar |-> None, off |-> None,
           p |-> NoProps, wc |-> None, fs |-> None]
\* a name and the registers it is derived from, directly or over several steps
RECURSIVE SourcesOf(_, _, _)
SourcesOf(s, n, seen) ==
  LET S == RegNamed(s, n) IN
  IF n \in seen THEN seen
  ELSE IF S = {} \/ s[MinOf(S)].df = None THEN seen \cup {n}
  ELSE SourcesOf(s, s[MinOf(S)].df[1], seen \cup {n})
DeriveReg(b, spec0, y, bp) ==
  LET spec == SpecOf(spec0)
      from == IF y.t = "m" THEN OptStr(y.m, "_from") ELSE Ok(None)
      src == IF y.t = "s" THEN Ok(<<y.s, NoDim, NoRegB>>)
             ELSE IF y.t # "m" THEN Err("derive-syntax")
             ELSE IF ~IsOk(from) THEN from
             ELSE IF from.v = None THEN Err("no-from")
             ELSE Bind(DimOf(y.m), LAMBDA db : Bind(RegB(y.m, <<bp>>), LAMBDA rb : Ok(<<from.v[1], db, rb>>)))
  IN Bind(src, LAMBDA t :
       LET target == RegPathOf(t[1], bp)
           rb == [t[3] EXCEPT !.df = Some(target)]
           s == Ch0(b)
           S == RegsAt(s, spec)
           names == {s[i].n : i \in S}
           retarget(q) == [q EXCEPT !.ch = Some(MapSeq(LAMBDA c :
                 IF IsReg(c) /\ c.df # None /\ c.df[1] \in names THEN [c EXCEPT !.df = Some(target)] ELSE c,
                 q.ch[1]))]
       IN IF ~HasSub(t[1], ".") /\ RegNamed(s, t[1]) = {} THEN Err("no-register")
          ELSE IF names \cap SourcesOf(s, t[1], {}) # {} THEN Err("derived-from-itself")
          ELSE IF S # {}
          THEN Bind(MapAt(b, S, LAMBDA r :
                      Bind(DimMod(r.dim, t[2]), LAMBDA dim : RegMod([r EXCEPT !.dim = dim], rb))),
                    LAMBDA q : Ok(retarget(q)))
          ELSE IF IsOptional(spec0) THEN Ok(b)
          ELSE IF ~DimableName(spec) THEN Err("bad-name")
          ELSE Bind(RegBuild(rb, spec, None), LAMBDA r : Bind(DimNew(t[2]), LAMBDA dim :
                 Ok([b EXCEPT !.ch = Some(Append(s, [r EXCEPT !.dim = dim]))]))))
BlkDerive(b, kv, bp) ==
  IF kv[1] = "_registers"
  THEN Bind(AsMap(kv[2]), LAMBDA m : FoldR(LAMBDA q, x : In(x[1], DeriveReg(q, x[1], x[2], bp)), b, m))
  ELSE IF kv[1] = "_clusters"
  THEN Bind(AsMap(kv[2]), LAMBDA m : IF m = <<>> THEN Ok(b) ELSE In(m[1][1], Err("unsupported")))
  ELSE In(kv[1], DeriveReg(b, kv[1], kv[2], bp))

-----------------------------------------------------------------------------
(* _expand_array                                                            *)
DaiOf(dim, idx) == \* the named index with that value, if any
  IF dim.ai = None THEN None
  ELSE LET V == dim.ai[1].vals
           S == {i \in 1..Len(V) : V[i].v # None /\ WDec(V[i].v[1]) = idx}
       IN IF S = {} THEN None ELSE Some(V[MinOf(S)])
PutIndex(s, idx) == SubstAll(SubstAll(s, "[%s]", idx), "%s", idx)
ExpandReg(r) ==
  LET d == r.dim[1] ix == Indexes(d) IN
  [i \in 1..d.n |->
     LET e == DaiOf(d, ix[i]) IN
     [r EXCEPT !.dim = None,
               !.n = IF e # None THEN e[1].n ELSE PutIndex(r.n, ix[i]),
               !.d = IF e # None /\ e[1].d # None THEN e[1].d
                     ELSE OptF(r.d, LAMBDA s : PutIndex(s, ix[i])),
               !.dn = OptF(r.dn, LAMBDA s : PutIndex(s, ix[i])),
               !.off = r.off + (i - 1) * d.inc]]
ExpandArray(b, spec) ==
  LET s == Ch0(b)
      S == {i \in RegsAt(s, spec) : IsArr(s[i])}
  IN IF b.ch = None THEN Err("no-children")
     ELSE IF S = {} THEN (IF IsOptional(spec) THEN Ok(b) ELSE Err("no-register"))
     ELSE IF \E i \in S : Len(Indexes(s[i].dim[1])) < s[i].dim[1].n THEN Err("index-count")
     ELSE Ok([b EXCEPT !.ch = Some(FoldLeft(LAMBDA a, i : a \o (IF i \in S THEN ExpandReg(s[i]) ELSE <<s[i]>>),
                                            <<>>, [i \in 1..Len(s) |-> i]))])

-----------------------------------------------------------------------------
(* _array                                                                   *)
\* the bits of a register covered by its fields
FieldBits(f) ==
  LET one == f.off..(f.off + f.w - 1) IN
  IF f.dim = None THEN one ELSE {x + i * f.dim[1].inc : x \in one, i \in 0..(f.dim[1].n - 1)}
BitMask(r) == UNION {FieldBits(Fields(r)[i]) : i \in 1..Len(Fields(r))}
ByOffset(s, S) == \* stable
  LET o == SetToSortSeq(S, LAMBDA a, b : s[a].off < s[b].off \/ (s[a].off = s[b].off /\ a < b))
  IN [i \in 1..Len(o) |-> s[o[i]]]
CollectRegs(b, spec0, h, bp, ed) ==
  LET spec == SpecOf(spec0)
      s == Ch0(b)
      S == {i \in RegsAt(s, spec) : ~IsArr(s[i])}
      col == ByOffset(s, S)
      n == Len(col)
      ind == SpecInd(spec)
      ix == IF Has(h, "_start_from_zero") THEN [i \in 1..n |-> NatStr(i - 1)]
            ELSE [i \in 1..n |-> IndexOf(col[i].n, ind)]
      dinc == OptU32(h, "dimIncrement")
      inc == IF n > 1 THEN col[2].off - col[1].off
             ELSE OrElse(dinc.v, IF col[1].p.sz = None THEN 0 ELSE col[1].p.sz[1] \div 8)
      nm == OptStr(h, "name")
      desc == CollectedText(h, "description", col[1].d, [i \in 1..n |-> col[i].d], ix)
      dn == CollectedText(h, "displayName", col[1].dn, [i \in 1..n |-> col[i].dn], ix)
  IN IF b.ch = None THEN Err("no-children")
     ELSE IF S = {} THEN (IF IsOptional(spec0) THEN Ok(b) ELSE Err("no-register"))
     ELSE IF ind = <<>> THEN Err("no-token")
     ELSE IF ~Has(h, "_start_from_zero") /\ IndexBad(col, ind) THEN Err("no-index")
     ELSE IF n = 1 /\ ~IsOk(dinc) THEN dinc
     ELSE IF inc = 0 THEN Err("no-increment")
     ELSE IF ~Even([i \in 1..n |-> col[i].off], inc) THEN Err("uneven")
     ELSE IF \E i \in 1..n : BitMask(col[i]) # BitMask(col[1]) THEN Err("bitmask")
     ELSE IF ~IsOk(nm) THEN nm
     ELSE IF ~IsOk(desc) THEN desc
     ELSE IF ~IsOk(dn) THEN dn
     ELSE Bind(In(OrElse(nm.v, ArrayName(spec, ind)),
                  RegProcess([col[1] EXCEPT !.n = OrElse(nm.v, ArrayName(spec, ind)), !.d = desc.v, !.dn = dn.v,
                                            !.dim = MkDim(n, inc, ix)], h, bp, ed)),
               LAMBDA r : Ok([b EXCEPT !.ch = Some(InsertAt(Without(s, S), MinOf(S), r))]))

-----------------------------------------------------------------------------
(* Rules that reach into clusters                                           *)
RECURSIVE CluProcess(_, _, _, _), CluPre(_, _, _), CluPost(_, _, _, _)

ProcChild(b, spec0, h, bp, ed) ==
  LET R == RegsAt(Ch0(b), SpecOf(spec0)) C == ClusAt(Ch0(b), SpecOf(spec0)) IN
  IF R # {} THEN MapAt(b, R, LAMBDA r : In(r.n, RegProcess(r, h, bp, ed)))
  ELSE IF C # {} THEN MapAt(b, C, LAMBDA c : In(c.n, CluProcess(c, h, bp, ed)))
  ELSE IF IsOptional(spec0) THEN Ok(b) ELSE Err("no-child")
ProcCluster(b, spec0, h, bp, ed) ==
  LET C == ClusAt(Ch0(b), SpecOf(spec0)) IN
  IF C = {} /\ ~IsOptional(spec0) THEN Err("no-cluster")
  ELSE MapAt(b, C, LAMBDA c : In(c.n, CluProcess(c, h, bp, ed)))

\* the registers collected by one rule of a `_cluster` entry
NoGroups == [ch |-> <<>>, gs |-> <<>>, place |-> 0, first |-> <<>>]
CollectGroup(st, spec0, y, cname, single, dinc) ==
  \* st: remaining children with their original position, groups so far
  LET spec == SpecOf(spec0)
      T == {i \in 1..Len(st.ch) : IsReg(st.ch[i][2]) /\ Matches(st.ch[i][2].n, spec)}
      found == LET o == SetToSortSeq(T, LAMBDA a, b : st.ch[a][2].off < st.ch[b][2].off
                                                       \/ (st.ch[a][2].off = st.ch[b][2].off /\ a < b))
               IN [i \in 1..Len(o) |-> st.ch[o[i]][2]]
      rest == Without(st.ch, T)
      at == MinOf({st.ch[i][1] : i \in T})
      subs == [i \in 1..Len(found) |-> MatchSub(found[i].n, spec)]
      inds == [i \in 1..Len(found) |-> SpecInd(subs[i])]
      ix == [i \in 1..Len(found) |-> IndexOf(found[i].n, inds[i])]
      first == IF st.first # <<>> THEN st.first[1]
               ELSE [n |-> Len(found), ix |-> ix,
                     inc |-> IF Len(found) > 1 THEN found[2].off - found[1].off ELSE dinc]
      next == [ch |-> rest, place |-> IF st.place = 0 \/ at < st.place THEN at ELSE st.place,
               first |-> IF single THEN <<>> ELSE <<first>>,
               gs |-> Append(st.gs, [spec |-> spec, y |-> y, regs |-> found])]
  IN IF T = {} THEN (IF IsOptional(spec0) THEN Ok(st) ELSE Err("no-register"))
     ELSE IF single THEN (IF Len(found) > 1 THEN Err("cluster-many") ELSE Ok(next))
     ELSE IF \E i \in 1..Len(found) : found[i].dim # found[1].dim THEN Err("cluster-dims")
     ELSE IF \E i \in 1..Len(found) : inds[i] = <<>> THEN Err("no-token")
     ELSE IF \E i \in 1..Len(found) : Len(found[i].n) < inds[i][1] + inds[i][2] THEN Err("no-index")
     ELSE IF Len(found) # first.n THEN Err("cluster-count")
     ELSE IF ix # first.ix THEN Err("cluster-indexes")
     ELSE IF ~Even([i \in 1..Len(found) |-> found[i].off], first.inc) THEN Err("uneven")
     ELSE IF \E i \in 1..Len(found) : BitMask(found[i]) # BitMask(found[1]) THEN Err("bitmask")
     ELSE Ok(next)
CollectCluster(b, cname, h, bp, ed) ==
  LET single == ~HasSub(cname, "%s")
      dinc == OptU32(h, "dimIncrement")
      desc == OptStr(h, "description")
      rules == NKeys(h, BlockKeywords \cup {"description", "dimIncrement"})
      s == Ch0(b)
      st0 == [NoGroups EXCEPT !.ch = [i \in 1..Len(s) |-> <<i, s[i]>>]]
      groups == FoldR(LAMBDA st, kv : CollectGroup(st, kv[1], kv[2], cname, single, OrElse(dinc.v, 0)),
                      st0, rules)
  IN IF b.ch = None THEN Err("no-children")
     ELSE IF ~IsOk(dinc) THEN dinc
     ELSE Bind(groups, LAMBDA g :
       IF g.gs = <<>> THEN Err("cluster-empty")
       ELSE IF ~IsOk(desc) THEN desc
       ELSE
       LET base == MinOf({g.gs[i].regs[1].off : i \in 1..Len(g.gs)})
           inc == IF single THEN 0 ELSE g.first[1].inc
           cp == BClu(bp, cname)
           one(x) ==
             Bind(AsMap(x.y), LAMBDA m : Bind(In(x.regs[1].n, RegProcess(x.regs[1], m, cp, ed)), LAMBDA r :
               LET nm == OptStr(m, "name") ds == OptStr(m, "description") ind == SpecInd(x.spec)
                   named == [r EXCEPT !.off = r.off - base,
                              !.n = IF nm.v # None THEN nm.v[1]
                                    ELSE IF single THEN r.n
                                    ELSE Take(x.spec, ind[1]) \o Drop(x.spec, Len(x.spec) - ind[2])]
               IN IF ~IsOk(nm) THEN nm
                  ELSE IF single THEN Ok(named)
                  ELSE IF nm.v = None /\ ind = <<>> THEN Err("no-token")
                  ELSE IF ~IsOk(ds) THEN ds
                  ELSE IF r.off - base >= inc THEN Err("out-of-cluster")
                  ELSE Ok([named EXCEPT !.d = Upd(r.d, ds.v)])))
       IN Bind(MapR(one, g.gs), LAMBDA kids :
          LET c0 == [k |-> "c", n |-> cname,
                     dim |-> IF single THEN None ELSE MkDim(g.first[1].n, inc, g.first[1].ix),
                     d |-> E2N(IF desc.v # None THEN desc.v
                               ELSE Some("Cluster " \o cname \o ", containing "
                                         \o Join([i \in 1..Len(g.gs) |-> g.gs[i].spec], ", "))),
                     ac |-> None, hs |-> None, off |-> base, p |-> NoProps, ch |-> kids, df |-> None]
          IN Bind(CluPre(c0, h, bp), LAMBDA c1 : Bind(CluPost(c1, h, bp, ed), LAMBDA c2 :
               LET rest == [i \in 1..Len(g.ch) |-> g.ch[i][2]] IN
               Ok([b EXCEPT !.ch = Some(InsertAt(rest, g.place, c2))])))))

-----------------------------------------------------------------------------
(* _expand_cluster                                                          *)
CluPrefix(c, i, o) == \* name prefix for index i (0-based) of cluster array c, options o
  LET d == c.dim[1] br == HasSub(c.n, "[%s]") pc == HasSub(c.n, "%s") IN
  IF d.n > 1 \/ o.zero
  THEN IF o.nopre THEN Err("noprefix")
       ELSE IF d.ix # None
       THEN (IF br THEN Err("expand-index")
             ELSE IF Len(d.ix[1]) # d.n THEN Err("expand-index-count")
             ELSE Ok(SubstAll(c.n, "%s", o.pre \o d.ix[1][i + 1]) \o o.post))
       ELSE IF br THEN Ok(SubstAll(c.n, "[%s]", o.pre \o NatStr(i)) \o o.post)
       ELSE IF pc THEN Ok(SubstAll(c.n, "%s", o.pre \o NatStr(i)) \o o.post)
       ELSE Ok(c.n \o o.pre \o NatStr(i) \o o.post)
  ELSE IF o.nopre THEN Ok("")
  ELSE Ok((IF br THEN SubstAll(c.n, "[%s]", "") ELSE SubstAll(c.n, "%s", "")) \o o.post)
ExpandClu(c, o) ==
  LET kids == SelectSeq(c.ch, IsReg) \o SelectSeq(c.ch, IsClu) IN
  IF c.dim[1].n = 0 THEN Err("no-registers")
  ELSE Bind(FoldR(LAMBDA a, i :
        Bind(CluPrefix(c, i, o), LAMBDA pre :
          Ok(a \o [k \in 1..Len(kids) |-> [kids[k] EXCEPT !.n = pre \o kids[k].n,
                                              !.p = IF kids[k].df = None THEN FillProps(@, c.p) ELSE @,
                                              !.off = kids[k].off + c.off + i * c.dim[1].inc]])),
        <<>>, [i \in 1..c.dim[1].n |-> i - 1]),
      LAMBDA a : IF a = <<>> THEN Err("no-registers") ELSE Ok(a))
ExpandCluster(b, spec0, o) ==
  LET s == Ch0(b)
      S == {i \in ClusAt(s, SpecOf(spec0)) : IsArr(s[i])}
  IN IF S = {} THEN (IF IsOptional(spec0) THEN (IF b.ch = None THEN Err("no-children") ELSE Ok(b))
                     ELSE Err("no-cluster"))
     ELSE Bind(FoldR(LAMBDA a, c : Bind(ExpandClu(c, o), LAMBDA x : Ok(a \o x)), <<>>, At(s, S)),
               LAMBDA new : Ok([b EXCEPT !.ch = Some(Without(s, S) \o new)]))
ExpandDefaults == [pre |-> "_", post |-> "_", zero |-> FALSE, nopre |-> FALSE]
ExpandOpts(y) ==
  IF y.t # "m" THEN Ok(ExpandDefaults)
  ELSE FoldR(LAMBDA o, kv :
         CASE kv[1] = "_preindex" -> Bind(AsStr(kv[2]), LAMBDA s : Ok([o EXCEPT !.pre = s]))
           [] kv[1] = "_postindex" -> Bind(AsStr(kv[2]), LAMBDA s : Ok([o EXCEPT !.post = s]))
           [] kv[1] = "_zeroindex" -> Bind(AsBool(kv[2]), LAMBDA s : Ok([o EXCEPT !.zero = s]))
           [] kv[1] = "_noprefix" -> Bind(AsBool(kv[2]), LAMBDA s : Ok([o EXCEPT !.nopre = s]))
           [] OTHER -> Err("expand-syntax"), ExpandDefaults, y.m)
BlkExpandCluster(b, y) ==
  IF y.t = "s" THEN In(y.s, ExpandCluster(b, y.s, ExpandDefaults))
  ELSE IF y.t = "a"
  THEN FoldR(LAMBDA q, x : Bind(AsStr(x), LAMBDA s : In(s, ExpandCluster(q, s, ExpandDefaults))), b, y.a)
  ELSE IF y.t = "m"
  THEN FoldR(LAMBDA q, kv : Bind(ExpandOpts(kv[2]), LAMBDA o : In(kv[1], ExpandCluster(q, kv[1], o))), b, y.m)
  ELSE Err("expand-syntax")

-----------------------------------------------------------------------------
(* One section of a block rule                                              *)
BlockPhase(b, h, bp, ed, ph) ==
  CASE ph = "_delete" -> IF Get(h, ph) = None THEN Ok(b) ELSE BlkDelete(b, Get(h, ph)[1])
    [] ph = "_copy" -> FoldS(LAMBDA q, kv : BlkCopy(q, kv, bp), b, Section(h, ph))
    [] ph = "_strip" -> Bind(StrVec(h, ph), LAMBDA ss :
         Ok(FoldLeft(LAMBDA q, s : StripKids(q, LAMBDA n : StripStart(n, s)), b, ss)))
    [] ph = "_strip_end" -> Bind(StrVec(h, ph), LAMBDA ss :
         Ok(FoldLeft(LAMBDA q, s : StripKids(q, LAMBDA n : StripEnd(n, s)), b, ss)))
    [] ph = "_prefix" -> Bind(OptStr(h, ph), LAMBDA s : Ok(NameRegs(b, LAMBDA n : OrElse(s, "") \o n)))
    [] ph = "_suffix" -> Bind(OptStr(h, ph), LAMBDA s : Ok(NameRegs(b, LAMBDA n : n \o OrElse(s, ""))))
    [] ph = "_modify" -> FoldS(LAMBDA q, kv : BlkModify(q, kv, bp), b, Section(h, ph))
    [] ph = "_clear_fields" -> Bind(StrVec(h, ph), LAMBDA ss : Ok(FoldLeft(ClearB, b, ss)))
    [] ph = "_add" -> FoldS(LAMBDA q, kv : BlkAdd(q, kv, bp), b, Section(h, ph))
    [] ph = "_derive" -> FoldS(LAMBDA q, kv : BlkDerive(q, kv, bp), b, Section(h, ph))
    [] ph = "children" -> FoldR(LAMBDA q, kv : Bind(AsMap(kv[2]), LAMBDA m : In(kv[1], ProcChild(q, kv[1], m, bp, ed))),
                                b, NKeys(h, IF bp.c = <<>> THEN PerKeywords ELSE BlockKeywords))
    [] ph = "_expand_array" -> FoldS(LAMBDA q, kv : Bind(AsMap(kv[2]), LAMBDA m : In(kv[1], ExpandArray(q, kv[1]))), b, Section(h, ph))
    [] ph = "_array" -> FoldS(LAMBDA q, kv : Bind(AsMap(kv[2]), LAMBDA m : In(kv[1], CollectRegs(q, kv[1], m, bp, ed))), b, Section(h, ph))
    [] ph = "_cluster" -> FoldS(LAMBDA q, kv : Bind(AsMap(kv[2]), LAMBDA m : In(kv[1], CollectCluster(q, kv[1], m, bp, ed))), b, Section(h, ph))
    [] ph = "_clusters" -> FoldS(LAMBDA q, kv : Bind(AsMap(kv[2]), LAMBDA m : In(kv[1], ProcCluster(q, kv[1], m, bp, ed))), b, Section(h, ph))
    [] ph = "_expand_cluster" -> IF Get(h, ph) = None THEN Ok(b) ELSE BlkExpandCluster(b, Get(h, ph)[1])

PrePhases == <<"_delete", "_copy", "_strip", "_strip_end", "_prefix", "_suffix", "_modify",
               "_clear_fields", "_add", "_derive">>
PerPhases == PrePhases \o <<"children", "_expand_array", "_array", "_cluster", "_clusters", "_expand_cluster">>
CluPhases == PrePhases \o <<"_clusters", "children", "_expand_array", "_array", "_cluster">>

CluBlock(c) == [ch |-> Some(c.ch), ints |-> <<>>]
RunPhases(c, h, bp, ed, phs) ==
  Bind(FoldR(LAMBDA q, ph : BlockPhase(q, h, BClu(bp, c.n), ed, ph), CluBlock(c), phs),
       LAMBDA q : Ok([c EXCEPT !.ch = q.ch[1]]))
CluPre(c, h, bp) == RunPhases(c, h, bp, "enum", PrePhases)
CluPost(c, h, bp, ed) == RunPhases(c, h, bp, ed, <<"_expand_array", "_array", "_cluster">>)
CluProcess(c, h, bp, ed) == RunPhases(c, h, bp, ed, CluPhases)
=============================================================================
