-------------------------------- MODULE Mmap --------------------------------
(***************************************************************************)
(* `svdtools mmap`: one line for every peripheral, interrupt, cluster,      *)
(* register and field of a device, sorted.                                  *)
(*   case == [id, dev, out, lines]                                          *)
(***************************************************************************)
EXTENDS Views, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c,      \* case
          todo,   \* what is still to be listed: [k, x, base, suf]
          lines,  \* what has been listed
          st
vars == <<c, todo, lines, st>>
Dev == Cases[c].dev

Addr(w) == "0x" \o WHex(w)
Short == [a \in Accesses |->
  CASE a = "read-only" -> "ro" [] a = "read-write" -> "rw" [] a = "write-only" -> "wo"
    [] a = "writeOnce" -> "wonce" [] OTHER -> "rwonce"]
AccText(o) == IF o = None THEN "" ELSE " (" \o Short[o[1]] \o ")"
DerText(o) == IF o = None THEN "" ELSE " (=" \o o[1] \o ")"

-----------------------------------------------------------------------------
(* The registers shown for a peripheral: those of the first peripheral of    *)
(* its chain of fathers that is not derived                                  *)
RECURSIVE Source(_, _)
Source(p, n) ==
  IF p.df = None \/ n = 0 THEN <<p>>
  ELSE LET S == {i \in 1..Len(Dev.pers) : Dev.pers[i].n = p.df[1]}
       IN IF S = {} THEN <<>> ELSE Source(Dev.pers[MinOf(S)], n - 1)
Shown(p) == LET s == Source(p, Len(Dev.pers)) IN IF s = <<>> THEN <<>> ELSE KidsOfPer(s[1])

Item(x, base, suf) == [x |-> x, base |-> base, suf |-> suf]
Items(kids, base, suf) == [i \in 1..Len(kids) |-> Item(kids[i], base, suf)]

PerLines(p) ==
  <<Addr(p.base) \o " A PERIPHERAL " \o p.n>>
  \o [i \in 1..Len(p.ints) |->
        "INTERRUPT " \o Pad(NatStr(p.ints[i].v), 3) \o ": " \o p.ints[i].n \o " (" \o p.n \o "): " \o Squeeze(p.ints[i].d)]
FieldLines(r, addr) ==
  Flat([i \in 1..Len(FieldsOf(r)) |->
    LET f == FieldsOf(r)[i] IN
    [k \in 1..CountOf(f) |->
       LET g == Inst(f, k) IN
       addr \o " C   FIELD " \o Pad(NatStr(g.off), 2) \o "w" \o Pad(NatStr(g.w), 2) \o " " \o g.n
       \o DerText(f.df) \o AccText(f.ac) \o ": " \o Squeeze(g.d)]])
RegLines(r, base, suf) ==
  Flat([k \in 1..CountOf(r) |->
    LET g == Inst(r, k)
        a == Addr(WAdd(base, WOf(g.off)))
        name == IF r.dim = None THEN g.n \o suf ELSE g.n
    IN <<a \o " B  REGISTER " \o name \o DerText(r.df) \o AccText(r.p.ac) \o ": " \o Squeeze(g.d)>>
       \o FieldLines(r, a)])
CluLine(g, df, base) ==
  Addr(WAdd(base, WOf(g.off))) \o " B  CLUSTER " \o g.n \o DerText(df) \o ": " \o Squeeze(g.d)

-----------------------------------------------------------------------------
Init == /\ c \in 1..Len(Cases)
        /\ todo = [i \in 1..Len(Cases[c].dev.pers) |-> Item(Cases[c].dev.pers[i], W0, "")]
        /\ lines = <<>>
        /\ st = "run"
IsPer(x) == "base" \in DOMAIN x
Now == todo[1].x
Running == st = "run" /\ todo # <<>>
\* one instance after the other
ListPeripheral ==
  /\ Running /\ IsPer(Now)
  /\ LET ps == InstPers(Now) IN
     /\ lines' = lines \o Flat([k \in 1..Len(ps) |-> PerLines(ps[k])])
     /\ todo' = Flat([k \in 1..Len(ps) |-> Items(Shown(ps[k]), ps[k].base, "")]) \o Tail(todo)
  /\ UNCHANGED <<c, st>>
ListRegister ==
  /\ Running /\ ~IsPer(Now) /\ (IF IsPer(Now) THEN FALSE ELSE IsReg(Now))
  /\ lines' = lines \o RegLines(Now, todo[1].base, todo[1].suf)
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<c, st>>
ListCluster ==
  /\ Running /\ ~IsPer(Now) /\ (IF IsPer(Now) THEN FALSE ELSE IsClu(Now))
  /\ LET b == todo[1].base
         gs == Insts(Now)
     IN /\ lines' = lines \o [k \in 1..Len(gs) |-> CluLine(gs[k], Now.df, b)]
        /\ todo' = Flat([k \in 1..Len(gs) |->
                     Items(Now.ch, WAdd(b, WOf(gs[k].off)), IF Now.dim = None THEN "" ELSE Indexes(Now.dim[1])[k])])
                   \o Tail(todo)
  /\ UNCHANGED <<c, st>>

Want == IF lines = <<>> THEN <<"">> ELSE lines
Good == Cases[c].out = "ok" /\ SameElements(Cases[c].lines, Want) /\ SortedTexts(Cases[c].lines)
Diff == [missing |-> SelectSeq(Want, LAMBDA l : l \notin ToSet(Cases[c].lines)),
         extra |-> SelectSeq(Cases[c].lines, LAMBDA l : l \notin ToSet(Want))]
Done == /\ st = "run" /\ todo = <<>>
        /\ st' = "ok"
        /\ UNCHANGED <<c, todo, lines>>
        /\ IF Good THEN TRUE
           ELSE PrintT("MISMATCH " \o ToJson([id |-> Cases[c].id, saw |-> Cases[c].out, diff |-> Diff]))
        /\ PrintT("DONE " \o ToJson([id |-> Cases[c].id, st |-> "ok", lines |-> Len(lines)]))
Next == ListPeripheral \/ ListRegister \/ ListCluster \/ Done
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Nothing is left out and nothing invented: counted without the machine     *)
RECURSIVE Instances(_)
Instances(kids) ==
  FoldLeft(LAMBDA n, x :
      n + CountOf(x) * (1 + IF IsReg(x) THEN FoldLeft(LAMBDA m, f : m + CountOf(f), 0, FieldsOf(x)) ELSE Instances(x.ch)),
    0, kids)
Complete == st = "ok" =>
  Len(lines) = FoldLeft(LAMBDA n, p : n + CountOf(p) * (1 + Len(p.ints) + Instances(Shown(p))), 0, Dev.pers)
\* every line listed stays
Grows == [][Len(lines') >= Len(lines) /\ SubSeq(lines', 1, Len(lines)) = lines]_vars
=============================================================================
