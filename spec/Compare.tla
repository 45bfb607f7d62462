------------------------------- MODULE Compare ------------------------------
(***************************************************************************)
(* The tables of `svdtools htmlcompare`: which device has which peripheral, *)
(* register and field.  One table after the other is compared with the      *)
(* page found.                                                              *)
(*   case == [id, devs, out, pages]                                         *)
(*   page == [file, title, heads, rows], row == [cells, link, has]          *)
(***************************************************************************)
EXTENDS ExpandOps, Valid, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, all, todo, seen, st
\* all: the devices written out; todo: tables to come; seen: those found right
vars == <<c, all, todo, seen, st>>
Case == Cases[c]
Init == c \in 1..Len(Cases) /\ all = <<>> /\ todo = <<>> /\ seen = {} /\ st = "start"

Read(d) == IF ~VDev(NoEnumDev(d), FALSE) THEN Err("invalid") ELSE ExpDev(NoEnumDev(d))
Addr(w, n) == "0x" \o Pad(WHex(w), n)
\* the keys at which the devices have something
PerKeys == UNION {{[n |-> p.n, base |-> p.base] : p \in ToSet(all[i].pers)} : i \in 1..Len(all)}
PersAt(i, q) == {p \in ToSet(all[i].pers) : p.n = q.n /\ p.base = q.base}
RegsAt(i, q) == UNION {ToSet(KidsOfPer(p)) : p \in PersAt(i, q)}
RegKeys(q) == UNION {{[n |-> r.n, off |-> r.off] : r \in RegsAt(i, q)} : i \in 1..Len(all)}
FieldsIn(i, q, r) == UNION {ToSet(FieldsOf(x)) : x \in {y \in RegsAt(i, q) : y.n = r.n /\ y.off = r.off}}
FieldKeys(q, r) == UNION {{[n |-> f.n, off |-> f.off, w |-> f.w] : f \in FieldsIn(i, q, r)} : i \in 1..Len(all)}
InOrder(S, Less(_, _)) == SetToSortSeq(S, Less)
PerLess(a, b) == StrLess(a.n, b.n) \/ (a.n = b.n /\ WLt(a.base, b.base))
RegLess(a, b) == a.off < b.off \/ (a.off = b.off /\ StrLess(a.n, b.n))
FieldLess(a, b) == a.off < b.off \/ (a.off = b.off /\ (a.w < b.w \/ (a.w = b.w /\ StrLess(a.n, b.n))))

PerFile(q) == q.n \o "_" \o Addr(q.base, 8)
RegFile(q, r) == PerFile(q) \o "_" \o r.n \o "_" \o Addr(WOf(r.off), 4)
Who == [i \in 1..Len(all) |-> all[i].n]
Table(file, title, first, keys, Cells(_), Link(_), Mark(_, _)) ==
  [file |-> file, title |-> title, heads |-> first \o Who,
   rows |-> [k \in 1..Len(keys) |-> [cells |-> Cells(keys[k]), link |-> Link(keys[k]), has |-> [i \in 1..Len(all) |-> Mark(i, keys[k])]]]]
IndexTable ==
  Table("index.html", "Compare peripherals", <<"Peripheral", "Address">>, InOrder(PerKeys, PerLess),
        LAMBDA q : <<q.n, Addr(q.base, 8)>>, LAMBDA q : PerFile(q) \o ".html", LAMBDA i, q : PersAt(i, q) # {})
PerTable(q) ==
  Table(PerFile(q) \o ".html", "Registers In " \o q.n \o " " \o Addr(q.base, 8), <<"Register", "Offset">>, InOrder(RegKeys(q), RegLess),
        LAMBDA r : <<r.n, Addr(WOf(r.off), 4)>>, LAMBDA r : RegFile(q, r) \o ".html",
        LAMBDA i, r : \E x \in RegsAt(i, q) : x.n = r.n /\ x.off = r.off)
RegTable(q, r) ==
  Table(RegFile(q, r) \o ".html",
        "Fields In " \o q.n \o "_" \o r.n \o " (" \o Addr(q.base, 8) \o ", " \o Addr(WOf(r.off), 4) \o ")",
        <<"Field", "Offset", "Width">>, InOrder(FieldKeys(q, r), FieldLess),
        LAMBDA f : <<f.n, NatStr(f.off), NatStr(f.w)>>, LAMBDA f : "",
        LAMBDA i, f : \E x \in FieldsIn(i, q, r) : x.n = f.n /\ x.off = f.off /\ x.w = f.w)

Verdict(v) == PrintT("DONE " \o ToJson([id |-> Case.id, st |-> v, tables |-> Cardinality(seen)]))
Bad(want, saw) ==
  /\ PrintT("MISMATCH " \o ToJson([id |-> Case.id, want |-> want, saw |-> saw]))
  /\ Verdict("bad") /\ st' = "bad" /\ UNCHANGED <<c, all, todo, seen>>
Start ==
  /\ st = "start"
  /\ LET r == MapR(LAMBDA d : Read(d), Case.devs) IN
     IF ~IsOk(r)
     THEN IF r.e = "MODEL-RANGE"
          THEN PrintT("RANGE " \o ToJson([id |-> Case.id])) /\ st' = "range" /\ UNCHANGED <<c, all, todo, seen>>
          ELSE IF Case.out # "err" \/ Case.pages # <<>> THEN Bad(r.e, Case.out)
          ELSE Verdict("err") /\ st' = "err" /\ UNCHANGED <<c, all, todo, seen>>
     ELSE IF Case.out # "ok" THEN Bad("ok", Case.out)
     ELSE all' = r.v /\ todo' = <<[k |-> "index"]>> /\ st' = "run" /\ UNCHANGED <<c, seen>>
Wanted(t) == CASE t.k = "index" -> IndexTable [] t.k = "per" -> PerTable(t.q) [] OTHER -> RegTable(t.q, t.r)
Below(t) == CASE t.k = "index" -> [i \in 1..Cardinality(PerKeys) |-> [k |-> "per", q |-> InOrder(PerKeys, PerLess)[i]]]
              [] t.k = "per" -> LET l == InOrder(RegKeys(t.q), RegLess) IN [i \in 1..Len(l) |-> [k |-> "reg", q |-> t.q, r |-> l[i]]]
              [] OTHER -> <<>>
Found(file) == SelectSeq(Case.pages, LAMBDA p : p.file = file)
One ==
  /\ st = "run" /\ todo # <<>>
  /\ LET t == Wanted(todo[1]) f == Found(t.file) IN
     IF f # <<t>> THEN Bad(t, f)
     ELSE seen' = seen \cup {t.file} /\ todo' = Tail(todo) \o Below(todo[1]) /\ UNCHANGED <<c, all, st>>
Finish ==
  /\ st = "run" /\ todo = <<>>
  /\ IF {Case.pages[i].file : i \in 1..Len(Case.pages)} # seen THEN Bad(seen, "more pages")
     ELSE Verdict("ok") /\ st' = "ok" /\ UNCHANGED <<c, all, todo, seen>>
Next == Start \/ One \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What a user relies on                                                    *)
Page(file) == Found(file)[1]
\* every row of a table is there because somebody has it, and every link leads to a page
NobodyHasNothing == \A f \in seen : \A k \in 1..Len(Page(f).rows) : \E i \in 1..Len(all) : Page(f).rows[k].has[i]
LinksLead ==
  st = "ok" => \A f \in seen : \A k \in 1..Len(Page(f).rows) : Page(f).rows[k].link = "" \/ Page(f).rows[k].link \in seen
\* the same device given twice has the same marks everywhere
TwinsAlike ==
  \A i, j \in 1..Len(all) : all[i].pers = all[j].pers =>
    \A f \in seen : \A k \in 1..Len(Page(f).rows) : Page(f).rows[k].has[i] = Page(f).rows[k].has[j]
\* a device has as many marks in the first table as it has different peripherals
MarksCounted ==
  "index.html" \in seen => \A i \in 1..Len(all) :
    Cardinality({k \in 1..Len(Page("index.html").rows) : Page("index.html").rows[k].has[i]})
      = Cardinality({<<p.n, p.base>> : p \in ToSet(all[i].pers)})
=============================================================================
