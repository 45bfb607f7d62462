-------------------------------- MODULE Steps -------------------------------
(***************************************************************************)
(* The rules of a patch in the order in which they apply, and the outcome   *)
(* of a whole patch.                                                        *)
(***************************************************************************)
EXTENDS DevOps

-----------------------------------------------------------------------------
(* Steps                                                                    *)
Step(k, s, y, ph, at) == [k |-> k, s |-> s, y |-> y, ph |-> ph, at |-> at]
NullY == [t |-> "n"]
\* device level items in processing order
Items(h) ==
  LET strs(k) == LET v == StrVec(h, k) IN
                 IF ~IsOk(v) THEN <<Step("fail", v.e, NullY, "", "")>>
                 ELSE [i \in 1..Len(v.v) |-> Step(k, v.v[i], NullY, "", "")]
      ents(k) == IF ~IsOk(Section(h, k)) THEN <<Step("fail", Section(h, k).e, NullY, "", "")>> ELSE
                 [i \in 1..Len(MapEntries(h, k)) |-> Step(k, MapEntries(h, k)[i][1], MapEntries(h, k)[i][2], "", "")]
      pers == NKeys(h, DevKeywords)
  IN strs("_delete") \o ents("_copy") \o ents("_modify") \o strs("_clear_fields") \o ents("_add")
     \o ents("_derive") \o ents("_rebase")
     \o [i \in 1..Len(pers) |-> Step("peripheral", pers[i][1], pers[i][2], "", "")]
ItemsOf(h) == LET s == Items(h) IN [i \in 1..Len(s) |-> [s[i] EXCEPT !.at = ToString(i)]]

\* the sections present in the body of a peripheral rule
PresentPhases(h) ==
  SelectSeq(PerPhases, LAMBDA ph : IF ph = "children" THEN NKeys(h, PerKeywords) # <<>> ELSE Has(h, ph))
\* all steps of a peripheral rule matched by peripherals at positions S
Sections(S, x) ==
  LET o == SetToSortSeq(S, LAMBDA a, b : a < b)
      phs == PresentPhases(x.y.m)
      one(i, last) ==
        [j \in 1..Len(phs) |->
           [Step("section", ToString(o[i]), x.y, phs[j],
                 IF last /\ j = Len(phs) THEN x.at ELSE IF Len(o) = 1 THEN x.at \o "/" \o phs[j] ELSE "")
            EXCEPT !.s = o[i]]]
      all == FoldLeft(LAMBDA a, i : a \o one(i, i = Len(o)), <<>>, [i \in 1..Len(o) |-> i])
  IN IF all = <<>> THEN <<Step("nothing", "", NullY, "", x.at)>> ELSE all

-----------------------------------------------------------------------------
(* One rule, and all of them                                                *)
\* files: sequence of [n |-> file name, pers |-> peripherals]; ed: how equal values are shared
RuleOn(d, x, files, ed) ==
  LET asMap(F(_)) == Bind(AsMap(x.y), LAMBDA h : In(x.s, F(h))) IN
  CASE x.k = "fail" -> Err(x.s)
    [] x.k = "_delete" -> Ok(DeletePer(d, x.s))
    [] x.k = "_copy" -> asMap(LAMBDA h : CopyPer(d, x.s, h, files))
    [] x.k = "_modify" -> ModifyDev(d, x.s, x.y)
    [] x.k = "_clear_fields" -> Ok(ClearPers(d, x.s))
    [] x.k = "_add" -> asMap(LAMBDA h : AddPer(d, x.s, h))
    [] x.k = "_derive" -> In(x.s, DerivePer(d, x.s, x.y))
    [] x.k = "_rebase" -> Bind(AsStr(x.y), LAMBDA o : In(o, In(x.s, RebasePer(d, x.s, o))))
    [] OTHER -> \* a peripheral rule
       LET S == PersAt(d, SpecOf(x.s)) IN
       IF x.y.t # "m" THEN Err("not-map")
       ELSE In(x.s, IF S = {} /\ ~IsOptional(x.s) THEN Err("no-peripheral")
       ELSE FoldR(LAMBDA e, z : IF z.k = "nothing" THEN Ok(e) ELSE In(e.pers[z.s].n, PerPhase(e, z.s, x.y.m, ed, z.ph)),
                  d, Sections(S, x)))
Patched(d, h, files, ed) == FoldR(LAMBDA e, x : In(e.n, RuleOn(e, x, files, ed)), d, ItemsOf(h))
=============================================================================
