------------------------------ MODULE PatchProps ----------------------------
(***************************************************************************)
(* What a user relies on, stated over the steps of PatchMachine without      *)
(* using the definitions of the steps.  TLC evaluates the formulas a check   *)
(* names on every step of every behaviour it validates.                     *)
(***************************************************************************)
EXTENDS PatchMachine

Success == st = "run" /\ st' = "run" /\ todo # <<>> /\ todo' = Tail(todo)
On(k) == Success /\ todo[1].k = k
OnSection(phs) == On("section") /\ todo[1].ph \in phs
Cur == dev.pers[todo[1].s]     \* the peripheral a section step works on
Now == dev'.pers[todo[1].s]
KidsOf(p) == IF p.regs = None THEN <<>> ELSE p.regs[1]
Rule == Get(todo[1].y.m, todo[1].ph)[1]

\* t is s with some elements left out
RECURSIVE SubSeqOf(_, _)
SubSeqOf(t, s) ==
  IF t = <<>> THEN TRUE
  ELSE IF s = <<>> THEN FALSE
  ELSE IF t[1] = s[1] THEN SubSeqOf(Tail(t), Tail(s)) ELSE SubSeqOf(t, Tail(s))

-----------------------------------------------------------------------------
(* Order of the sections                                                    *)
ItemRank == [k \in {"fail", "_delete", "_copy", "_modify", "_clear_fields", "_add", "_derive", "_rebase",
                    "peripheral", "section", "nothing"} |->
  CASE k = "_delete" -> 1 [] k = "_copy" -> 2 [] k = "_modify" -> 3 [] k = "_clear_fields" -> 4
    [] k = "_add" -> 5 [] k = "_derive" -> 6 [] k = "_rebase" -> 7 [] k = "fail" -> 0 [] OTHER -> 8]
PhRank(ph) == CHOOSE i \in 1..Len(PerPhases) : PerPhases[i] = ph
OrderedSteps ==
  \A i \in 1..(Len(todo) - 1) :
    /\ todo[i].k # "fail" /\ todo[i + 1].k # "fail" => ItemRank[todo[i].k] <= ItemRank[todo[i + 1].k]
    /\ (todo[i].k = "section" /\ todo[i + 1].k = "section" /\ todo[i].s = todo[i + 1].s)
       => PhRank(todo[i].ph) < PhRank(todo[i + 1].ph)
Order == []OrderedSteps

-----------------------------------------------------------------------------
(* Only what a rule names changes                                           *)
Frame == [][
  /\ On("section") => dev' = [dev EXCEPT !.pers[todo[1].s].regs = Now.regs, !.pers[todo[1].s].ints = Now.ints]
  /\ Success /\ todo[1].k \in {"_delete", "_copy", "_clear_fields", "_add", "_derive", "_rebase"}
       => dev' = [dev EXCEPT !.pers = dev'.pers]
  /\ On("nothing") => dev' = dev
  /\ OnSection({"_strip", "_strip_end", "_prefix", "_suffix", "_clear_fields", "children", "_expand_array",
                "_array", "_cluster", "_clusters", "_expand_cluster", "_copy", "_derive"})
       => Now.ints = Cur.ints ]_vars

\* a failed rule leaves nothing behind
FailKeepsNothing == [][st' # st => dev' = dev]_vars

-----------------------------------------------------------------------------
DerivedKept == [][On("section") /\ Cur.df # None => Now.regs = Cur.regs]_vars

-----------------------------------------------------------------------------
DeleteExact == [][
  /\ On("_delete") => /\ SubSeqOf(dev'.pers, dev.pers)
                      /\ \A i \in 1..Len(dev.pers) :
                           Matches(dev.pers[i].n, todo[1].s)
                             <=> \A j \in 1..Len(dev'.pers) : dev'.pers[j].n # dev.pers[i].n
  /\ OnSection({"_delete"}) => /\ SubSeqOf(KidsOf(Now), KidsOf(Cur))
                               /\ SubSeqOf(Now.ints, Cur.ints) ]_vars

-----------------------------------------------------------------------------
Sorted(s, Le(_, _)) == \A i \in 1..(Len(s) - 1) : Le(s[i], s[i + 1])
AddOne == [][
  /\ On("_add") =>
       /\ Len(dev'.pers) = Len(dev.pers) + 1
       /\ SubSeqOf(dev.pers, dev'.pers)
       /\ \A i \in 1..Len(dev.pers) : dev.pers[i].n # todo[1].s
       /\ \E i \in 1..Len(dev'.pers) : dev'.pers[i].n = todo[1].s
       /\ LET Le(a, b) == WLe(a.base, b.base) IN Sorted(dev.pers, Le) => Sorted(dev'.pers, Le)
  /\ OnSection({"_add"}) =>
       /\ SubSeqOf(KidsOf(Cur), KidsOf(Now))
       /\ SubSeqOf(Cur.ints, Now.ints)
       /\ LET Le(a, b) == a.off <= b.off IN Sorted(KidsOf(Cur), Le) => Sorted(KidsOf(Now), Le) ]_vars

-----------------------------------------------------------------------------
(* References between peripherals                                           *)
Names(d) == {d.pers[i].n : i \in 1..Len(d.pers)}
Refs(d) == {d.pers[i].df[1] : i \in {j \in 1..Len(d.pers) : d.pers[j].df # None}}
\* a base stands before everything derived from it
BaseFirst(d) == \A i, j \in 1..Len(d.pers) : d.pers[j].df = Some(d.pers[i].n) => i < j
UniqueNames(d) == \A i, j \in 1..Len(d.pers) : d.pers[i].n = d.pers[j].n => i = j
Plain(d) == Refs(d) \subseteq Names(d) /\ UniqueNames(d)
RefsKept == [][
  /\ On("_rebase") /\ Plain(dev) => Plain(dev')
  /\ On("_derive") /\ Plain(dev) /\ (IF todo[1].y.t = "s" THEN todo[1].y.s \in Names(dev) ELSE FALSE)
       => Plain(dev')
  /\ On("_rebase") => /\ Names(dev') = Names(dev)
                      /\ \A i \in 1..Len(dev.pers) : \E j \in 1..Len(dev'.pers) :
                           /\ dev'.pers[j].n = dev.pers[i].n
                           /\ dev'.pers[j].base = dev.pers[i].base
                           /\ dev'.pers[j].ints = dev.pers[i].ints
  /\ On("_rebase") /\ Plain(dev) /\ BaseFirst(dev) /\ todo[1].y.s \notin UNION {Refs([dev EXCEPT !.pers = <<dev.pers[i]>>]) : i \in PerNamed(dev, todo[1].s)}
       /\ (\A i \in PerNamed(dev, todo[1].s) \cup PerNamed(dev, todo[1].y.s) : dev.pers[i].df = None)
       => BaseFirst(dev') ]_vars

-----------------------------------------------------------------------------
(* Renaming keeps the layout                                                *)
Nameless(x) == IF x.k = "r" THEN [x EXCEPT !.n = "", !.dn = None, !.ar = None]
               ELSE [x EXCEPT !.n = "", !.hs = None, !.ac = None]
AffixLayout == [][
  OnSection({"_strip", "_strip_end", "_prefix", "_suffix"}) =>
    /\ Len(KidsOf(Now)) = Len(KidsOf(Cur))
    /\ \A i \in 1..Len(KidsOf(Cur)) : Nameless(KidsOf(Now)[i]) = Nameless(KidsOf(Cur)[i])
    /\ OnSection({"_prefix"}) => \A i \in 1..Len(KidsOf(Cur)) : EndsWith(KidsOf(Now)[i].n, KidsOf(Cur)[i].n)
    /\ OnSection({"_suffix"}) => \A i \in 1..Len(KidsOf(Cur)) : StartsWith(KidsOf(Now)[i].n, KidsOf(Cur)[i].n)
    /\ OnSection({"_strip"}) => \A i \in 1..Len(KidsOf(Cur)) : EndsWith(KidsOf(Cur)[i].n, KidsOf(Now)[i].n)
    /\ OnSection({"_strip_end"}) => \A i \in 1..Len(KidsOf(Cur)) : StartsWith(KidsOf(Cur)[i].n, KidsOf(Now)[i].n)
  ]_vars

-----------------------------------------------------------------------------
(* Collecting and expanding moves no register                                *)
Count(x) == IF x.dim = None THEN 1 ELSE x.dim[1].n
Inc(x) == IF x.dim = None THEN 0 ELSE x.dim[1].inc
\* absolute offsets of all register instances, as a sequence
RECURSIVE Offsets(_, _)
Offsets(kids, base) ==
  FoldLeft(LAMBDA a, x :
      a \o FoldLeft(LAMBDA q, i :
             q \o (IF x.k = "r" THEN <<base + x.off + i * Inc(x)>>
                   ELSE Offsets(x.ch, base + x.off + i * Inc(x))),
           <<>>, [i \in 1..Count(x) |-> i - 1]),
    <<>>, kids)
SameBag(s, t) == Len(s) = Len(t) /\ SortSeq(s, LAMBDA a, b : a < b) = SortSeq(t, LAMBDA a, b : a < b)
\* the rule does nothing but rename and describe
Quiet(m) == \A i \in 1..Len(m) : m[i][1] \notin {"_modify", "_delete", "_add", "_copy", "_derive"}
BodiesQuiet == \A i \in 1..Len(Rule.m) :
  Rule.m[i][2].t = "m" =>
    /\ Quiet(Rule.m[i][2].m)
    /\ \A j \in 1..Len(Rule.m[i][2].m) : Rule.m[i][2].m[j][2].t = "m" => Quiet(Rule.m[i][2].m[j][2].m)
NothingMoves == [][
  /\ OnSection({"_array", "_cluster"}) /\ Cur.df = None /\ (IF OnSection({"_array", "_cluster"}) THEN BodiesQuiet ELSE FALSE)
       => SameBag(Offsets(KidsOf(Cur), 0), Offsets(KidsOf(Now), 0))
  /\ OnSection({"_expand_array", "_expand_cluster"}) /\ Cur.df = None
       => SameBag(Offsets(KidsOf(Cur), 0), Offsets(KidsOf(Now), 0)) ]_vars
\* nothing else is lost when registers are collected: the elements not taken stay as they are, in order
CollectKeepsOthers == [][
  OnSection({"_array", "_expand_array"}) /\ Cur.df = None =>
    SelectSeq(KidsOf(Cur), LAMBDA x : x.k = "c") = SelectSeq(KidsOf(Now), LAMBDA x : x.k = "c") ]_vars

-----------------------------------------------------------------------------
(* Splitting and collecting fields keeps the bits of the registers            *)
BitsOfField(f) == UNION {{f.off + i * (IF f.dim = None THEN 0 ELSE f.dim[1].inc) + b : b \in 0..(f.w - 1)} :
                       i \in 0..((IF f.dim = None THEN 1 ELSE f.dim[1].n) - 1)}
BitsOf(x) == IF x.k = "c" \/ x.fs = None THEN {} ELSE UNION {BitsOfField(x.fs[1][i]) : i \in 1..Len(x.fs[1])}
OnlyKeys(m, ks) == \A i \in 1..Len(m) : m[i][2].t = "m" /\ \A j \in 1..Len(m[i][2].m) : m[i][2].m[j][1] \in ks
BitsKept == [][
  OnSection({"children"}) /\ Cur.df = None
  /\ (IF OnSection({"children"}) THEN OnlyKeys(NKeys(todo[1].y.m, PerKeywords), {"_split", "_merge", "_array", "_strip", "_strip_end", "_prefix", "_suffix", "_clear"}) ELSE FALSE)
    => \A i \in 1..Len(KidsOf(Cur)) : BitsOf(KidsOf(Now)[i]) = BitsOf(KidsOf(Cur)[i]) ]_vars

-----------------------------------------------------------------------------
(* Rules for the contents of registers move no register                      *)
FieldRule1(kv) == kv[2].t = "m" /\ \A j \in 1..Len(kv[2].m) :
  kv[2].m[j][1] \notin {"_cluster", "_array", "_expand_array", "_expand_cluster", "_clusters", "_delete", "_add", "_copy", "_derive", "_modify"}
ChildrenKept == [][
  OnSection({"children"}) /\ (\A i \in 1..Len(KidsOf(Cur)) : KidsOf(Cur)[i].k = "r") =>
    /\ Len(KidsOf(Now)) = Len(KidsOf(Cur))
    /\ \A i \in 1..Len(KidsOf(Cur)) : KidsOf(Now)[i] = [KidsOf(Cur)[i] EXCEPT !.fs = KidsOf(Now)[i].fs] ]_vars
\* registers no rule matches are untouched
UnmatchedKept == [][
  OnSection({"children"}) =>
    \A i \in 1..Len(KidsOf(Cur)) :
      (LET rules == NKeys(todo[1].y.m, PerKeywords) IN
       \A j \in 1..Len(rules) : ~Matches(KidsOf(Cur)[i].n, SpecOf(rules[j][1])))
        => KidsOf(Now)[i] = KidsOf(Cur)[i] ]_vars

-----------------------------------------------------------------------------
(* Clearing removes what it names and nothing else                           *)
Bare(f) == [f EXCEPT !.evs = <<>>, !.wc = None]
RECURSIVE BareKids(_)
BareKids(s) == [i \in 1..Len(s) |->
  IF s[i].k = "c" THEN [s[i] EXCEPT !.ch = BareKids(s[i].ch)]
  ELSE IF s[i].fs = None THEN s[i]
  ELSE [s[i] EXCEPT !.fs = Some([j \in 1..Len(s[i].fs[1]) |-> Bare(s[i].fs[1][j])])]]
ClearOnly == [][
  /\ OnSection({"_clear_fields"}) => BareKids(KidsOf(Now)) = BareKids(KidsOf(Cur))
  /\ On("_clear_fields") =>
       /\ Len(dev'.pers) = Len(dev.pers)
       /\ \A i \in 1..Len(dev.pers) : BareKids(KidsOf(dev'.pers[i])) = BareKids(KidsOf(dev.pers[i])) ]_vars

-----------------------------------------------------------------------------
(* Copying keeps the place of the target                                      *)
CopyKeeps == [][
  On("_copy") =>
    /\ \A i \in 1..Len(dev.pers) :
         IF i \in PerNamed(dev, todo[1].s) /\ i = MinOf(PerNamed(dev, todo[1].s))
         THEN dev'.pers[i].base = dev.pers[i].base /\ dev'.pers[i].ints = dev.pers[i].ints
              /\ dev'.pers[i].n = dev.pers[i].n /\ dev'.pers[i].df = None
         ELSE dev'.pers[i] = dev.pers[i]
    /\ Len(dev'.pers) = Len(dev.pers) + (IF PerNamed(dev, todo[1].s) = {} THEN 1 ELSE 0) ]_vars
=============================================================================
