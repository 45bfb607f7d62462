------------------------------- MODULE RegOps ------------------------------
(***************************************************************************)
(* Effect of register rules: everything a patch can do to the fields of    *)
(* one register.  Every operator returns a result (see Yaml).              *)
(***************************************************************************)
EXTENDS SvdData

RegKeywords == {"_include", "_path", "_delete", "_derive", "_strip", "_strip_end", "_prefix",
                "_suffix", "_clear", "_modify", "_add", "_merge", "_split", "_array"}

Fields(r) == OrElse(r.fs, <<>>)
\* replace the field list, keeping "no field list" when nothing was there
WithFields(r, fs) == IF r.fs = None /\ fs = <<>> THEN r ELSE [r EXCEPT !.fs = Some(fs)]
MapSeq(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]
FMatch(fs, spec) == {i \in 1..Len(fs) : Matches(fs[i].n, spec)}

-----------------------------------------------------------------------------
(* Names: stripping removes the shortest prefix (suffix) the glob matches   *)
StripStart(name, glob) ==
  LET L == GlobPrefixLens(glob, name) IN IF L = {} THEN name ELSE Drop(name, MinOf(L))
StripEnd(name, glob) ==
  LET L == {k \in 0..Len(name) : GlobMatch(glob, Drop(name, Len(name) - k))}
  IN IF L = {} THEN name ELSE Take(name, Len(name) - MinOf(L))

-----------------------------------------------------------------------------
(* _delete, _clear, _modify, _add, _derive                                  *)
DeleteField(r, spec) ==
  IF r.fs = None THEN r ELSE [r EXCEPT !.fs = Some(SelectSeq(r.fs[1], LAMBDA f : ~Matches(f.n, spec)))]

ClearField(r, spec) ==
  IF r.fs = None THEN r
  ELSE [r EXCEPT !.fs = Some(MapSeq(LAMBDA f : IF Matches(f.n, spec) /\ f.df = None
                                               THEN [f EXCEPT !.evs = <<>>, !.wc = None] ELSE f, r.fs[1]))]

\* apply F to the fields at positions S, in order
MapFieldsAt(r, S, F(_)) ==
  Bind(FoldR(LAMBDA fs, i : IF i \in S THEN Bind(F(fs[i]), LAMBDA g : Ok([fs EXCEPT ![i] = g])) ELSE Ok(fs),
             Fields(r), [i \in 1..Len(Fields(r)) |-> i]),
       LAMBDA fs : Ok(WithFields(r, fs)))

ModifyField(r, spec0, h, path) ==
  LET spec == SpecOf(spec0)
      S == FMatch(Fields(r), spec)
  IN Bind(FieldB(h, path), LAMBDA b :
     Bind(DimOf(h), LAMBDA db :
       IF S = {} /\ ~IsOptional(spec0) THEN Err("no-field")
       ELSE LET wcn == WcNode(h)
                ac == OptStr(h, "access")
            IN MapFieldsAt(r, S, LAMBDA f :
                 Bind(DimMod(f.dim, db), LAMBDA dim :
                 Bind(IF wcn = None THEN Ok(f.wc) ELSE WcOfNode(wcn[1]), LAMBDA wc :
                 Bind(FieldMod([f EXCEPT !.dim = dim, !.wc = wc], b), LAMBDA g :
                   Ok(IF ac.v = <<"">> THEN [g EXCEPT !.ac = None] ELSE g)))))))

AddField(r, name, h, path) ==
  IF \E i \in 1..Len(Fields(r)) : Fields(r)[i].n = name THEN Err("field-exists")
  ELSE Bind(NewField(h, name, path), LAMBDA f : Ok([r EXCEPT !.fs = Some(Append(Fields(r), f))]))

\* path of the field a derivation refers to
FieldPathOf(dpath, bp) ==
  LET parts == Split(dpath, ".") IN
  IF Len(parts) = 3 /\ bp.c # <<>>
  THEN BStr(BClu(BParent(bp), parts[1])) \o "." \o parts[2] \o "." \o parts[3]
  ELSE IF Len(parts) = 2 THEN BStr(bp) \o "." \o parts[1] \o "." \o parts[2]
  ELSE dpath
NoFieldB == [n |-> None, d |-> None, df |-> None, ac |-> None, mwv |-> None, ra |-> None, wc |-> None,
             br |-> None, bo |-> None, bw |-> None]
DeriveField(r, spec0, y, bp, path) ==
  LET spec == SpecOf(spec0)
      from == IF y.t = "m" THEN OptStr(y.m, "_from") ELSE Ok(None)
      src == IF y.t = "s" THEN Ok(<<y.s, NoDim, NoFieldB>>)
             ELSE IF y.t # "m" THEN Err("derive-syntax")
             ELSE IF ~IsOk(from) THEN from
             ELSE IF from.v = None THEN Err("no-from")
             ELSE Bind(DimOf(y.m), LAMBDA db : Bind(FieldB(y.m, path), LAMBDA b : Ok(<<from.v[1], db, b>>)))
  IN Bind(src, LAMBDA t :
       LET b == [t[3] EXCEPT !.df = Some(FieldPathOf(t[1], bp))]
           S == FMatch(Fields(r), spec)
       IN IF S # {}
          THEN MapFieldsAt(r, S, LAMBDA f :
                 Bind(DimMod(f.dim, t[2]), LAMBDA dim : FieldMod([f EXCEPT !.dim = dim], b)))
          ELSE IF IsOptional(spec0) THEN Ok(r)
          ELSE IF ~DimableName(spec) THEN Err("bad-name")
          ELSE Bind(DimNew(t[2]), LAMBDA dim : Bind(FieldBuild(b, spec, dim), LAMBDA f :
                 Ok([r EXCEPT !.fs = Some(Append(Fields(r), f))]))))

-----------------------------------------------------------------------------
(* _merge and _split                                                        *)
SumOver(S, F(_)) == FoldLeft(LAMBDA a, i : a + F(i), 0, SetToSeq(S))
NamesAt(fs, S) == {fs[i].n : i \in S}
MergeFields(r, key0, val) == \* val: <<>> or <<node>>
  LET fs == Fields(r)
      key == SpecOf(key0)
      strs == IF val = None \/ val[1].t # "a" THEN Ok(<<>>) ELSE MapR(AsStr, val[1].a)
      S == IF val = None THEN FMatch(fs, key)
           ELSE IF val[1].t = "s" THEN FMatch(fs, val[1].s)
           ELSE UNION {FMatch(fs, strs.v[i]) : i \in 1..Len(strs.v)}
      name == IF val # None THEN key
              ELSE CommonPrefix([k \in 1..Cardinality(S) |-> fs[SetToSortSeq(S, LAMBDA a, b : a < b)[k]].n])
      T == {i \in 1..Len(fs) : fs[i].n \in NamesAt(fs, S)}
      first == MinOf(T)
  IN IF val # None /\ val[1].t \notin {"s", "a"} THEN Err("merge-usage")
     ELSE IF ~IsOk(strs) THEN strs
     ELSE IF S = {} THEN (IF IsOptional(key0) THEN Ok(r) ELSE Err("no-field"))
     ELSE IF \E i \in T : IsArr(fs[i]) THEN Err("merge-array")
     ELSE IF \E i \in T : ~(\A j \in T : fs[j].off + fs[j].w <= fs[i].off + fs[i].w)
                         /\ Cardinality({j \in T : fs[j].off = fs[i].off + fs[i].w}) # 1
          THEN Err("merge-gap")
     ELSE IF \E i, j \in T : i # j /\ fs[i].off <= fs[j].off /\ fs[j].off < fs[i].off + fs[i].w THEN Err("merge-gap")
     ELSE LET merged == [n |-> name, dim |-> None, d |-> E2N(fs[first].d),
                         off |-> MinOf({fs[i].off : i \in T}),
                         w |-> SumOver(T, LAMBDA i : fs[i].w),
                         ac |-> None, mwv |-> None, wc |-> None, ra |-> None,
                         evs |-> <<>>, df |-> None]
              rest(a, b) == SelectSeq(SubSeq(fs, a, b), LAMBDA f : f.n \notin NamesAt(fs, S))
          IN Ok([r EXCEPT !.fs = Some(rest(1, first - 1) \o <<merged>> \o rest(first, Len(fs)))])

SplitFields(r, spec0, h) ==
  LET spec == SpecOf(spec0)
      fs == Fields(r)
      S == FMatch(fs, spec)
      nm == OptStr(h, "name") ds == OptStr(h, "description")
  IN IF S = {} THEN (IF IsOptional(spec0) THEN Ok(r) ELSE Err("no-field"))
     ELSE IF Cardinality(S) > 1 THEN Err("split-many")
     ELSE IF IsArr(fs[MinOf(S)]) THEN Err("split-array")
     ELSE Need(<<nm, ds>>,
       LET f == fs[MinOf(S)]
           name == OrElse(nm.v, f.n \o "%s")
           desc == Upd(f.d, ds.v)
           part(i) == [n |-> SubstAll(name, "%s", NatStr(i)), dim |-> None,
                       d |-> IF desc = None THEN None ELSE E2N(Some(SubstAll(desc[1], "%s", NatStr(i)))),
                       off |-> f.off + i, w |-> 1, ac |-> None, mwv |-> None, wc |-> None,
                       ra |-> None, evs |-> <<>>, df |-> None]
       IN [r EXCEPT !.fs = Some(SelectSeq(fs, LAMBDA g : g.n # f.n) \o [i \in 1..f.w |-> part(i - 1)])])

\* _merge / _split accept a map, a list of specifications or one specification
RuleItems(h, k) == \* sequence of <<spec, opt node>>
  LET y == Get(h, k) IN
  IF y = None THEN Ok(<<>>)
  ELSE IF y[1].t = "m" THEN Ok([i \in 1..Len(y[1].m) |-> <<y[1].m[i][1], Some(y[1].m[i][2])>>])
  ELSE IF y[1].t = "a" THEN MapR(LAMBDA z : Bind(AsStr(z), LAMBDA s : Ok(<<s, None>>)), y[1].a)
  ELSE IF y[1].t = "s" THEN Ok(<<<<y[1].s, None>>>>)
  ELSE IF y[1].t = "n" THEN Ok(<<>>)
  ELSE Err("merge-syntax")

-----------------------------------------------------------------------------
(* Enumerated values                                                        *)
ReadKeys == [x \in {"_read", "_RM", "_RS", "_RC", "_RME"} |->
  CASE x = "_RM" -> "modify" [] x = "_RS" -> "set" [] x = "_RC" -> "clear"
    [] x = "_RME" -> "modifyExternal" [] OTHER -> ""]
WriteKeys == [x \in {"_write","_WM","_WS","_WC","_W1S","_W0C","_W1C","_W0S","_W1T","_W0T"} |->
  CASE x = "_WM" -> "modify" [] x = "_WS" -> "set" [] x = "_WC" -> "clear"
    [] x = "_W1S" -> "oneToSet" [] x = "_W0C" -> "zeroToClear" [] x = "_W1C" -> "oneToClear"
    [] x = "_W0S" -> "zeroToSet" [] x = "_W1T" -> "oneToToggle" [] x = "_W0T" -> "zeroToToggle"
    [] OTHER -> ""]
RW(ac) == ac \in {"read-write", "read-writeOnce"}
WO(ac) == ac \in {"write-only", "writeOnce"}
\* usage: "" (unspecified), "read", "write", "read-write"
CheckUsage(ac, us) ==
  IF RW(ac) THEN Ok(IF us = "" THEN "read-write" ELSE us)
  ELSE IF ac = "read-only" /\ us \in {"", "read"} THEN Ok("read")
  ELSE IF WO(ac) /\ us \in {"", "write"} THEN Ok("write")
  ELSE Err("usage-access")
MakeUsage(ac, us) ==
  IF (RW(ac) /\ us = "read-write") \/ (ac = "read-only" /\ us = "read") \/ (WO(ac) /\ us = "write")
  THEN None ELSE Some(us)
EvValues(h) == \* values sorted by number, default (-1) last
  LET m == SelectSeq(h, LAMBDA kv : ~StartsWith(kv[1], "_"))
      one(kv) ==
        IF Take(kv[1], 1) \in Digits THEN Err("ev-digit")
        ELSE IF kv[2].t # "a" THEN Err("ev-not-array")
        ELSE IF Len(kv[2].a) < 2 THEN Err("ev-short")
        ELSE LET v == AsInt(kv[2].a[1]) d == AsStr(kv[2].a[2]) IN
             Need(<<v, d>>, [key |-> v.v, n |-> kv[1], d |-> E2N(Some(d.v))])
  IN Bind(MapR(one, m), LAMBDA vs :
       IF \E i, j \in 1..Len(vs) : i < j /\ vs[i].key = vs[j].key THEN Err("ev-duplicate")
       ELSE IF vs = <<>> THEN Err("ev-empty")
       ELSE LET srt == SortSeq(vs, LAMBDA a, b : WLt(a.key, b.key))
            IN Ok([i \in 1..Len(srt) |->
                   [n |-> srt[i].n, d |-> srt[i].d,
                    v |-> IF srt[i].key = WOnes THEN None ELSE Some(srt[i].key),
                    def |-> IF srt[i].key = WOnes THEN Some(TRUE) ELSE None]]))
EvsDerived(n) == [n |-> None, us |-> None, df |-> Some(n), vals |-> <<>>]
\* put enumerated values `val` with usage `us` on the field
SetEnum(f, val, us, replace, ac) ==
  LET n == Len(f.evs)
      v == IF n >= 1 THEN f.evs[1] ELSE val
      busy == Err("ev-occupied")
  IN IF us = "read-write"
     THEN (IF n = 0 \/ replace THEN Ok([f EXCEPT !.evs = <<val>>]) ELSE busy)
     ELSE IF n = 0 THEN Ok([f EXCEPT !.evs = <<val>>])
     ELSE IF n = 1
     THEN IF v.us = Some(us) \/ v.us = Some("read-write")
          THEN (IF replace THEN Ok([f EXCEPT !.evs = <<val>>]) ELSE busy)
          ELSE IF v.us = None
          THEN IF RW(ac)
               THEN Ok([f EXCEPT !.evs = <<[v EXCEPT !.us = Some(IF us = "read" THEN "write" ELSE "read")],
                                           [val EXCEPT !.us = Some(us)]>>])
               ELSE (IF replace THEN Ok([f EXCEPT !.evs = <<val>>]) ELSE busy)
          ELSE Ok([f EXCEPT !.evs = Append(f.evs, val)])
     ELSE IF n = 2
     THEN (IF replace THEN Ok([f EXCEPT !.evs = [i \in 1..2 |-> IF f.evs[i].us = Some(us) THEN val ELSE f.evs[i]]])
           ELSE busy)
     ELSE Err("ev-many")
FAccess(r, f) == OrElse(f.ac, OrElse(r.p.ac, "read-write"))

FieldEnum(r, spec0, h0, us, ed) ==
  LET rp == OptMap(h0, "_replace_enum")
      h == IF IsOk(rp) /\ rp.v # None THEN rp.v[1] ELSE h0
      replace == rp.v # None
      df == OptStr(h, "_derivedFrom")
      spec == SpecOf(spec0)
      fs == Fields(r)
      S == FMatch(fs, spec)
      derived ==
        LET d == df.v[1]
            all == FoldLeft(LAMBDA a, f : a \o SelectSeq(f.evs, LAMBDA e : e.n = Some(d)), <<>>, fs)
        IN IF Len(all) # 1 THEN Err("ev-source")
           ELSE IF all[1].df # None THEN Err("ev-multilevel")
           ELSE IF S = {} /\ ~IsOptional(spec0) THEN Err("no-field")
           ELSE LET ou == OrElse(all[1].us, "read-write") IN
                MapFieldsAt(r, S, LAMBDA f :
                  Bind(CheckUsage(FAccess(r, f), us), LAMBDA cu :
                    IF cu # ou THEN Err("ev-usage")
                    ELSE IF f.n = d THEN Err("ev-self")
                    ELSE SetEnum(f, EvsDerived(d), ou, TRUE, FAccess(r, f))))
      mino == MinOf({fs[i].off : i \in S})
      mini == MinOf({i \in S : fs[i].off = mino})
      minp == MinOf(S)
      minus == Bind(CheckUsage(FAccess(r, fs[mini]), us), LAMBDA cu : Ok(MakeUsage(FAccess(r, fs[mini]), cu)))
      nm == OptStr(h, "_name")
      base == SubstAll(fs[mini].n, "%s", "")
      name == IF ~IsOk(nm) THEN nm
              ELSE IF nm.v # None THEN Ok(nm.v[1])
              ELSE IF Take(base, 1) \in Digits THEN Err("ev-digit")
              ELSE Ok(base \o (IF us = "read" THEN "R" ELSE IF us = "write" THEN "W" ELSE ""))
      given ==
        IF S = {} THEN (IF IsOptional(spec0) THEN Ok(r) ELSE Err("no-field"))
        ELSE IF Cardinality({fs[i].w : i \in S}) > 1 THEN Err("ev-width")
        ELSE IF ~IsOk(minus) THEN minus
        ELSE Bind(name, LAMBDA n :
             Bind(MapFieldsAt(r, S, LAMBDA f :
               LET ac == FAccess(r, f) IN
               Bind(CheckUsage(ac, us), LAMBDA cu :
                 IF ed = "none" \/ f.off = mino
                 THEN Bind(EvValues(h), LAMBDA vs :
                        SetEnum(f, [n |-> IF f.off = mino THEN E2N(Some(n)) ELSE None,
                                    us |-> MakeUsage(ac, cu), df |-> None, vals |-> vs],
                                cu, replace, ac))
                 \* the values of a read-only or write-only field have no usage: those derived from them need their own
                 ELSE LET own == IF minus.v = None THEN MakeUsage(ac, cu) ELSE None IN
                      IF ed = "field" /\ own = None
                      THEN FieldMod(f, [NoFieldB EXCEPT !.df = Some(fs[mini].n)])
                      ELSE SetEnum(f, [EvsDerived(n) EXCEPT !.us = own], cu, TRUE, ac))),
             LAMBDA r2 : Ok(IF mini = minp THEN r2
                            ELSE [r2 EXCEPT !.fs = Some(MoveTo(Fields(r2), mini, minp))])))
  IN IF ~IsOk(rp) THEN rp
     ELSE IF ~IsOk(df) THEN df
     ELSE IF df.v # None THEN derived ELSE given

\* one rule of a register for the fields matched by spec
FieldRule(r, spec0, y, ed) ==
  LET \* of two actions, or two sets of values, the specification does not say which comes first
      Several(ks, acts) == \/ Cardinality({k \in ks : acts[k] # ""}) > 1
                           \/ Cardinality({k \in ks : Get(y.m, k)[1] # [t |-> "m", m |-> <<>>]}) > 1
      setAll(q, F(_)) ==
        IF FMatch(Fields(q), SpecOf(spec0)) = {} /\ ~IsOptional(spec0) THEN Err("no-field")
        ELSE MapFieldsAt(q, FMatch(Fields(q), SpecOf(spec0)), LAMBDA f : Ok(F(f)))
      acts(q, keys, us, SetA(_, _)) == \* the read (write) actions present in the rule
        FoldR(LAMBDA q1, kv :
          IF kv[1] \notin DOMAIN keys THEN Ok(q1)
          ELSE IF kv[2].t # "m" THEN Err("action-not-map")
          ELSE Bind(IF kv[2].m = <<>> THEN Ok(q1) ELSE FieldEnum(q1, spec0, kv[2].m, us, ed),
                    LAMBDA q2 : IF keys[kv[1]] = "" THEN Ok(q2)
                                ELSE setAll(q2, LAMBDA f : SetA(f, keys[kv[1]]))),
          q, y.m)
  IN IF y.t = "m"
     THEN LET ks == Keys(y.m)
              rd == ks \cap DOMAIN ReadKeys
              wr == ks \cap DOMAIN WriteKeys
          IN IF rd = {} /\ wr = {} THEN FieldEnum(r, spec0, y.m, "", ed)
             ELSE IF Several(rd, ReadKeys) \/ Several(wr, WriteKeys) THEN Err("MODEL-RANGE")
             ELSE Bind(acts(r, ReadKeys, "read", LAMBDA f, a : [f EXCEPT !.ra = Some(a)]), LAMBDA q :
                    acts(q, WriteKeys, "write",
                         LAMBDA f, a : [f EXCEPT !.mwv = IF a = "modify" THEN None ELSE Some(a)]))
     ELSE IF y.t = "a" /\ Len(y.a) = 2
     THEN LET S == FMatch(Fields(r), SpecOf(spec0))
              a == AsInt(y.a[1]) b == AsInt(y.a[2])
          IN IF S = {} THEN (IF IsOptional(spec0) THEN Ok(r) ELSE Err("no-field"))
             ELSE Bind(Need(<<a, b>>, WcRange(a.v, b.v)), LAMBDA c :
                    MapFieldsAt(r, S, LAMBDA f : Ok([f EXCEPT !.wc = Some(c)])))
     ELSE IF y.t = "a" THEN Err("bad-range")
     ELSE Ok(r)

-----------------------------------------------------------------------------
(* Collecting into arrays                                                   *)
Even(offs, inc) == \A i \in 1..(Len(offs) - 1) : offs[i + 1] - offs[i] = inc
IndexOf(name, ind) == SubSeq(name, ind[1] + 1, Len(name) - ind[2])
ArrayName(spec, ind) == Take(spec, ind[1]) \o "%s" \o Drop(spec, Len(spec) - ind[2])
\* description shared by all elements, with the index replaced by %s where that helps:
\* Ok(opt) or an error when they differ otherwise
CommonDesc(descs, ix) ==
  LET d0 == descs[1]
      \* non overlapping occurrences of the first index, left to right
      RECURSIVE Occ(_, _)
      Occ(s, from) ==
        LET O == {i \in Occurrences(s, ix[1]) : i >= from} IN
        IF O = {} THEN <<>> ELSE <<MinOf(O)>> \o Occ(s, MinOf(O) + Len(ix[1]))
      cand(i) == Take(d0[1], i - 1) \o "%s" \o Drop(d0[1], i - 1 + Len(ix[1]))
      fits(i) == \A k \in 2..Len(descs) : descs[k] = Some(SubstFirst(cand(i), "%s", ix[k]))
      good == IF d0 = None \/ ix[1] = "" THEN <<>> ELSE SelectSeq(Occ(d0[1], 1), fits)
  IN IF d0 # None /\ ix[1] = "" THEN Err("MODEL-RANGE")
     ELSE IF good # <<>> THEN Ok(Some(cand(good[1])))
     ELSE IF \A k \in 2..Len(descs) : descs[k] = d0 THEN Ok(d0)
     ELSE Err("desc-differs")
IndexBad(elems, ind) == \E i \in 1..Len(elems) : Len(elems[i].n) < ind[1] + ind[2]
MkDim(n, inc, ix) == Some([n |-> n, inc |-> inc, ix |-> IF ix = <<>> THEN None ELSE Some(ix),
                           nm |-> None, ai |-> None])
\* `description` / `displayName` of the collected array
CollectedText(h, k, old, descs, ix) ==
  LET t == OptStr(h, k) IN
  IF ~IsOk(t) THEN t
  ELSE IF t.v # None THEN Ok(IF t.v[1] = "_original" THEN old ELSE t.v)
  ELSE CommonDesc(descs, ix)

CollectFields(r, spec0, h) ==
  LET spec == SpecOf(spec0)
      fs == Fields(r)
      S == {i \in FMatch(fs, spec) : ~IsArr(fs[i])}
      place == MinOf(S)
      rest == SelectSeq([i \in 1..Len(fs) |-> [i |-> i, f |-> fs[i]]], LAMBDA x : x.i \notin S)
      others == [i \in 1..Len(rest) |-> rest[i].f]
      col == LET s == SetToSortSeq(S, LAMBDA a, b : fs[a].off < fs[b].off \/ (fs[a].off = fs[b].off /\ a < b))
             IN [i \in 1..Len(s) |-> fs[s[i]]]
      ind == SpecInd(spec)
      n == Len(col)
      ix == IF Has(h, "_start_from_zero") THEN [i \in 1..n |-> NatStr(i - 1)]
            ELSE [i \in 1..n |-> IndexOf(col[i].n, ind)]
      offs == [i \in 1..n |-> col[i].off]
      inc == IF n > 1 THEN offs[2] - offs[1] ELSE 0
      nm == OptStr(h, "name")
      desc == CollectedText(h, "description", col[1].d, [i \in 1..n |-> col[i].d], ix)
  IN IF S = {} THEN (IF IsOptional(spec0) THEN Ok(r) ELSE Err("no-field"))
     ELSE IF ind = <<>> THEN Err("no-token")
     ELSE IF ~Has(h, "_start_from_zero") /\ IndexBad(col, ind) THEN Err("no-index")
     ELSE IF ~Even(offs, inc) THEN Err("uneven")
     ELSE IF \E i \in 1..n : col[i].w # col[1].w THEN Err("widths")
     ELSE Need(<<nm, desc>>,
            LET f == [col[1] EXCEPT !.n = OrElse(nm.v, ArrayName(spec, ind)), !.d = desc.v,
                                    !.dim = MkDim(n, inc, ix)]
            IN [r EXCEPT !.fs = Some(InsertAt(others, place, f))])

-----------------------------------------------------------------------------
(* A whole register rule, in the documented order of its sections.          *)
RegPhases == <<"_delete", "_strip", "_strip_end", "_prefix", "_suffix", "_clear", "_modify", "_add",
               "_derive", "_merge", "_split", "fields", "_array">>
RenameFields(r, F(_)) ==
  IF r.fs = None THEN r ELSE [r EXCEPT !.fs = Some(MapSeq(LAMBDA f : [f EXCEPT !.n = F(f.n)], r.fs[1]))]
RegPhase(r, h, bp, rn, ed, ph) ==
  LET path == <<bp, rn>> IN
  CASE ph = "_delete" -> Bind(StrVec(h, ph), LAMBDA ss : Ok(FoldLeft(DeleteField, r, ss)))
    [] ph = "_strip" -> Bind(StrVec(h, ph), LAMBDA ss :
         Ok(FoldLeft(LAMBDA q, s : RenameFields(q, LAMBDA n : StripStart(n, s)), r, ss)))
    [] ph = "_strip_end" -> Bind(StrVec(h, ph), LAMBDA ss :
         Ok(FoldLeft(LAMBDA q, s : RenameFields(q, LAMBDA n : StripEnd(n, s)), r, ss)))
    [] ph = "_prefix" -> Bind(OptStr(h, ph), LAMBDA s : Ok(RenameFields(r, LAMBDA n : OrElse(s, "") \o n)))
    [] ph = "_suffix" -> Bind(OptStr(h, ph), LAMBDA s : Ok(RenameFields(r, LAMBDA n : n \o OrElse(s, ""))))
    [] ph = "_clear" -> Bind(StrVec(h, ph), LAMBDA ss : Ok(FoldLeft(ClearField, r, ss)))
    [] ph = "_modify" -> FoldS(LAMBDA q, kv : Bind(AsMap(kv[2]), LAMBDA m : In(kv[1], ModifyField(q, kv[1], m, path))), r, Section(h, ph))
    [] ph = "_add" -> FoldS(LAMBDA q, kv : Bind(AsMap(kv[2]), LAMBDA m : In(kv[1], AddField(q, kv[1], m, path))), r, Section(h, ph))
    [] ph = "_derive" -> FoldS(LAMBDA q, kv : In(kv[1], DeriveField(q, kv[1], kv[2], bp, path)), r, Section(h, ph))
    [] ph = "_merge" -> Bind(RuleItems(h, ph), LAMBDA it :
                          FoldR(LAMBDA q, x : In(x[1], MergeFields(q, x[1], x[2])), r, it))
    [] ph = "_split" -> Bind(RuleItems(h, ph), LAMBDA it :
                          FoldR(LAMBDA q, x : IF x[2] = None THEN In(x[1], SplitFields(q, x[1], <<>>))
                                              ELSE Bind(AsMap(x[2][1]), LAMBDA m : In(x[1], SplitFields(q, x[1], m))), r, it))
    [] ph = "fields" -> FoldR(LAMBDA q, kv : In(kv[1], FieldRule(q, kv[1], kv[2], ed)), r, NKeys(h, RegKeywords))
    [] ph = "_array" -> FoldS(LAMBDA q, kv : Bind(AsMap(kv[2]), LAMBDA m : In(kv[1], CollectFields(q, kv[1], m))), r, Section(h, ph))
RegProcess(r, h, bp, ed) ==
  IF r.df # None THEN Ok(r)
  ELSE FoldR(LAMBDA q, ph : RegPhase(q, h, bp, r.n, ed, ph), r, RegPhases)
=============================================================================
