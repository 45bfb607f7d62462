------------------------------- MODULE Includes -----------------------------
(***************************************************************************)
(* Loading a patch file with everything it includes (expand-patch), and the *)
(* list of files it depends on (makedeps).                                  *)
(*                                                                          *)
(* One frame per mapping being completed: the root file, an included file,  *)
(* or a peripheral rule with an `_include` of its own.  Files are included  *)
(* relative to the file that names them.                                    *)
(*   case == [id, files, links, dirs, root, expand, deps, obsdeps]          *)
(*   files: sequence of [p, y]: canonical path (sequence of names) and      *)
(*          contents ("e": nothing in it)                                   *)
(*   links: sequence of [p, to]   dirs: sequence of paths   root: path      *)
(*   again == [out, y]: what expand-patch said about what it had printed   *)
(*   said: the rules that the commands called ignored, for each of them      *)
(*   expand == [out, y]  deps == [out, l]: what the tool said               *)
(***************************************************************************)
EXTENDS Yaml, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, stack, deps, told, st
vars == <<c, stack, deps, told, st>>
Case == Cases[c]

-----------------------------------------------------------------------------
(* Paths are sequences of names below the scratch directory                 *)
LinkAt(p) == {i \in 1..Len(Case.links) : Case.links[i].p = p}
RECURSIVE Follow(_)
Follow(p) == IF LinkAt(p) = {} THEN p ELSE Follow(Case.links[MinOf(LinkAt(p))].to)
IsDir(p) == \E i \in 1..Len(Case.dirs) : Case.dirs[i] = p
FileAt(p) == {i \in 1..Len(Case.files) : Case.files[i].p = p}
Exists(p) == IsDir(p) \/ FileAt(p) # {}
\* canonical path of rel seen from directory d, or an error
ResolveFrom(d, rel) ==
  FoldR(LAMBDA p, x :
      IF ~IsDir(p) THEN Err("no-file")
      ELSE IF x = "" \/ x = "." THEN Ok(p)
      ELSE IF x = ".." THEN (IF p = <<>> THEN Err("MODEL-RANGE") ELSE Ok(SubSeq(p, 1, Len(p) - 1)))
      ELSE LET q == Follow(Append(p, x)) IN IF Exists(q) THEN Ok(q) ELSE Err("no-file"),
    d, Split(rel, "/"))
Dir(p) == SubSeq(p, 1, Len(p) - 1)
\* paths of the files as texts
RECURSIVE JoinPath(_)
JoinPath(p) == IF p = <<>> THEN "" ELSE "/" \o p[1] \o JoinPath(Tail(p))

-----------------------------------------------------------------------------
(* Merging: the including file wins, lists are joined                        *)
SetKey(m, k, v) == [i \in 1..Len(m) |-> IF m[i][1] = k THEN <<k, v>> ELSE m[i]]
DropKey(m, k) == SelectSeq(m, LAMBDA kv : kv[1] # k)
ToBack(m, k, v) == Append(DropKey(m, k), <<k, v>>)
Holds(a, y) == \E i \in 1..Len(a) : YEq(a[i], y)
RECURSIVE UpdateDict(_, _)
UpdateDict(parent, child) ==
  FoldR(LAMBDA m, kv :
      LET k == kv[1] v == kv[2] IN
      IF k \in {"_path", "_include"} THEN Ok(m)
      ELSE IF ~Has(m, k) THEN Ok(Append(m, kv))
      ELSE LET o == Get(m, k)[1] IN
           IF YEq(o, v) THEN Ok(m)
           ELSE IF o.t = "a" /\ v.t = "a" THEN Ok(SetKey(m, k, YArr(o.a \o v.a)))
           ELSE IF o.t = "a" /\ v.t = "s" THEN Ok(IF Holds(o.a, v) THEN m ELSE SetKey(m, k, YArr(Append(o.a, v))))
           ELSE IF o.t = "m" THEN (IF v.t # "m" THEN Err("not-map")
                                   ELSE Bind(UpdateDict(o.m, v.m), LAMBDA x : Ok(SetKey(m, k, YMap(x)))))
           ELSE IF o.t = "s" /\ v.t = "a" THEN Ok(ToBack(m, k, IF Holds(v.a, o) THEN v ELSE YArr(<<o>> \o v.a)))
           ELSE Ok(m),
    parent, child)

\* the rules of `child` that are ignored, as they are reported: the same again, or another text
Note(w, k, x) == [w |-> w, k |-> k, x |-> x]
RECURSIVE TextsOf(_)
TextsOf(y) == CASE y.t \in {"s", "r"} -> <<y.s>>
                [] y.t = "a" -> FoldLeft(LAMBDA l, v : l \o TextsOf(v), <<>>, y.a)
                [] y.t = "m" -> FoldLeft(LAMBDA l, kv : l \o <<kv[1]>> \o TextsOf(kv[2]), <<>>, y.m)
                [] OTHER -> <<>>
RECURSIVE Ignored(_, _)
Ignored(m, child) ==
  FoldLeft(LAMBDA l, kv :
      LET k == kv[1] v == kv[2] IN
      IF k \in {"_path", "_include"} \/ ~Has(m, k) THEN l
      ELSE LET o == Get(m, k)[1] IN
           IF YEq(o, v) THEN Append(l, Note("duplicate", k, TextsOf(v)))
           ELSE IF o.t = "a" /\ v.t = "s" THEN (IF Holds(o.a, v) THEN Append(l, Note("duplicate", k, <<v.s>>)) ELSE l)
           ELSE IF o.t = "m" /\ v.t = "m" THEN l \o Ignored(o.m, v.m)
           ELSE IF o.t = "s" /\ v.t = "a" THEN (IF Holds(v.a, o) THEN Append(l, Note("duplicate", k, <<o.s>>)) ELSE l)
           ELSE IF o.t = "a" /\ v.t = "a" THEN l
           ELSE Append(l, Note("conflicting", k, TextsOf(o) \o TextsOf(v))),
    <<>>, child)

-----------------------------------------------------------------------------
\* a frame: own path, mapping so far, files included so far, phase, position
Frame0(p, m, key, file) ==
  [p |-> p, m |-> ToBack(m, "_path", YStr(JoinPath(p))), inc |-> <<>>, ph |-> "kids", j |-> 1,
   l |-> <<>>, key |-> key, file |-> file]
RootY == Case.files[MinOf(FileAt(Case.root))].y

Init ==
  /\ c \in 1..Len(Cases)
  /\ deps = <<>> /\ told = <<>>
  /\ IF Cases[c].files[MinOf({i \in 1..Len(Cases[c].files) : Cases[c].files[i].p = Cases[c].root})].y.t = "m"
     THEN stack = <<Frame0(Cases[c].root, RootY.m, "", <<>>)>> /\ st = "run"
     ELSE stack = <<>> /\ st = "not-map"

Top == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)
Put(f) == stack' = Append(Below, f)
Running == st = "run" /\ stack # <<>>
FailWith(e) == st' = e /\ UNCHANGED <<c, stack, deps, told>>

\* a rule of the mapping that has an include list of its own
NextKid(f) == {j \in f.j..Len(f.m) : /\ ~StartsWith(f.m[j][1], "_")
                                     /\ f.m[j][2].t = "m"
                                     /\ Has(f.m[j][2].m, "_include")}
EnterKid ==
  /\ Running /\ Top.ph = "kids" /\ NextKid(Top) # {}
  /\ LET j == MinOf(NextKid(Top)) IN
     stack' = Append(Append(Below, [Top EXCEPT !.j = j + 1]), Frame0(Top.p, Top.m[j][2].m, Top.m[j][1], <<>>))
  /\ UNCHANGED <<c, deps, told, st>>
KidsDone ==
  /\ Running /\ Top.ph = "kids" /\ NextKid(Top) = {}
  /\ LET l == StrVec(Top.m, "_include") IN
     IF ~IsOk(l) THEN FailWith(l.e)
     ELSE Put([Top EXCEPT !.ph = "list", !.l = l.v]) /\ UNCHANGED <<c, deps, told, st>>

Target == ResolveFrom(Dir(Top.p), Top.l[1])
Rest == [Top EXCEPT !.l = Tail(Top.l)]
Listing == Running /\ Top.ph = "list" /\ Top.l # <<>>
Known(f, p) == \E i \in 1..Len(f.inc) : f.inc[i] = p
Cyclic(p) == \E i \in 1..Len(stack) : stack[i].p = p
Missing ==
  /\ Listing
  /\ ~IsOk(Target) \/ (IsOk(Target) /\ ~Known(Top, Target.v) /\ IsDir(Target.v))
  /\ FailWith(IF IsOk(Target) THEN "no-file" ELSE Target.e)
SkipKnown ==
  /\ Listing /\ IsOk(Target) /\ Known(Top, Target.v)
  /\ Put(Rest) /\ UNCHANGED <<c, deps, told, st>>
Fresh == Listing /\ IsOk(Target) /\ ~Known(Top, Target.v) /\ ~IsDir(Target.v)
Contents == Case.files[MinOf(FileAt(Target.v))].y
OpenEmpty ==
  /\ Fresh /\ Contents.t = "e"
  /\ Put([Rest EXCEPT !.inc = Append(@, Target.v)])
  /\ deps' = Append(deps, Target.v)
  /\ UNCHANGED <<c, told, st>>
OpenOther ==
  /\ Fresh /\ Contents.t \notin {"e", "m"}
  /\ FailWith("not-map")
OpenCycle ==
  /\ Fresh /\ Contents.t = "m" /\ Cyclic(Target.v)
  /\ FailWith("cycle")
OpenFile ==
  /\ Fresh /\ Contents.t = "m" /\ ~Cyclic(Target.v)
  /\ stack' = Append(Append(Below, [Rest EXCEPT !.inc = Append(@, Target.v)]),
                     Frame0(Target.v, Contents.m, "", <<Target.v>>))
  /\ deps' = Append(deps, Target.v)
  /\ UNCHANGED <<c, told, st>>

Finished == [Top EXCEPT !.m = DropKey(Top.m, "_include")]
Ready == Running /\ Top.ph = "list" /\ Top.l = <<>>
ReturnKid ==
  /\ Ready /\ Top.key # ""
  /\ LET up == Below[Len(Below)] IN
     stack' = Append(SubSeq(stack, 1, Len(stack) - 2),
                     [up EXCEPT !.m = SetKey(up.m, Top.key, YMap(Finished.m)), !.inc = @ \o Top.inc])
  /\ UNCHANGED <<c, deps, told, st>>
ReturnFile ==
  /\ Ready /\ Top.file # <<>>
  /\ LET up == Below[Len(Below)]
         r == UpdateDict(up.m, Finished.m) IN
     IF ~IsOk(r) THEN FailWith(r.e)
     ELSE /\ stack' = Append(SubSeq(stack, 1, Len(stack) - 2), [up EXCEPT !.m = r.v, !.inc = @ \o Top.inc])
          /\ told' = told \o Ignored(up.m, Finished.m)
          /\ UNCHANGED <<c, deps, st>>

-----------------------------------------------------------------------------
(* What the tool said                                                       *)
Agrees(o, e, good) == IF e = "" THEN o.out = "ok" /\ good ELSE o.out = "err"
Judge(e, m) ==
  IF e = "MODEL-RANGE" THEN PrintT("RANGE " \o ToJson([id |-> Case.id]))
  ELSE /\ IF Agrees(Case.expand, e, Case.expand.y = YMap(m)) THEN TRUE
          ELSE PrintT("MISMATCH " \o ToJson([id |-> Case.id, what |-> "expand-patch", spec |-> IF e = "" THEN "ok" ELSE e,
                      saw |-> Case.expand.out, want |-> YMap(m), got |-> Case.expand.y]))
       /\ LET x == YMap(ToBack(m, "_path", YStr(JoinPath(Append(Dir(Case.root), "expanded.yaml"))))) IN
          IF e # "" \/ Case.expand.out # "ok" \/ (Case.again.out = "ok" /\ Case.again.y = x) THEN TRUE
          ELSE PrintT("MISMATCH " \o ToJson([id |-> Case.id, what |-> "expand-patch again", spec |-> "ok",
                      saw |-> Case.again.out, want |-> x, got |-> Case.again.y]))
       /\ \A i \in 1..Len(Case.said) :
            IF e # "" \/ Case.said[i] = told THEN TRUE
            ELSE PrintT("MISMATCH " \o ToJson([id |-> Case.id, what |-> "ignored rules", spec |-> "ok", saw |-> "ok", want |-> told, got |-> Case.said[i]]))
       /\ IF Agrees(Case.deps, e, Case.deps.l = [i \in 1..Len(deps) |-> JoinPath(deps[i])]) THEN TRUE
          ELSE PrintT("MISMATCH " \o ToJson([id |-> Case.id, what |-> "makedeps", spec |-> IF e = "" THEN "ok" ELSE e,
                      saw |-> Case.deps.out, want |-> [i \in 1..Len(deps) |-> JoinPath(deps[i])], got |-> Case.deps.l]))
       /\ PrintT("DONE " \o ToJson([id |-> Case.id, st |-> IF e = "" THEN "ok" ELSE e, deps |-> Len(deps)]))
ReturnRoot ==
  /\ Ready /\ Len(stack) = 1
  /\ st' = "ok"
  /\ UNCHANGED <<c, stack, deps, told>>
  /\ Judge("", Finished.m)
Failed ==
  /\ st \notin {"run", "ok", "end"}
  /\ st' = "end" /\ UNCHANGED <<c, stack, deps, told>>
  /\ Judge(st, <<>>)

Next == \/ EnterKid \/ KidsDone \/ Missing \/ SkipKnown \/ OpenEmpty \/ OpenOther \/ OpenCycle \/ OpenFile
        \/ ReturnKid \/ ReturnFile \/ ReturnRoot \/ Failed
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What a user relies on, over the steps                                     *)
\* Including a file never takes anything away: every key stays, scalars and lists of the including file stay
RECURSIVE Covers(_, _)
Covers(new, old) ==
  \A i \in 1..Len(old) :
    LET k == old[i][1] o == old[i][2] IN
    k = "_include" \/ k = "_path" \/
    (/\ Has(new, k)
     /\ LET n == Get(new, k)[1] IN
        CASE o.t = "m" -> n.t = "m" /\ Covers(n.m, o.m)
          [] o.t = "a" -> n.t = "a" /\ Len(n.a) >= Len(o.a) /\ \A j \in 1..Len(o.a) : YEq(n.a[j], o.a[j])
          [] o.t = "s" -> (n.t = "s" /\ n.s = o.s) \/ (n.t = "a" /\ Holds(n.a, o))
          [] OTHER -> YEq(n, o))
NothingLost == [][
  (Len(stack') = Len(stack) - 1 /\ stack' # <<>>) => Covers(stack'[Len(stack')].m, stack[Len(stack')].m) ]_vars
\* and takes over every rule of the included file the including file does not have
AllTaken == [][
  (ENABLED ReturnFile /\ Len(stack') = Len(stack) - 1 /\ st' = "run") =>
     \A i \in 1..Len(Top.m) : Top.m[i][1] \in {"_include"} \/ Has(stack'[Len(stack')].m, Top.m[i][1]) ]_vars
\* every file being read is a dependency
AllDeps == \A i \in 1..Len(stack) : stack[i].p = Case.root \/ \E j \in 1..Len(deps) : deps[j] = stack[i].p
\* whatever is not taken over is told: a text of the included file is in the result or in what was told
ToldGrow == [][Len(told') >= Len(told) /\ SubSeq(told', 1, Len(told)) = told]_vars
AllTold == [][
  (ENABLED ReturnFile /\ Len(stack') = Len(stack) - 1 /\ st' = "run") =>
     \A i \in 1..Len(Top.m) :
       LET k == Top.m[i][1] v == Top.m[i][2] n == Get(stack'[Len(stack')].m, k) IN
       (k \notin {"_include", "_path"} /\ n # None /\ n[1].t # "m") =>
          \/ YEq(n[1], v) \/ (n[1].t = "a" /\ Holds(n[1].a, v))
          \/ v.t = "a" /\ n[1].t = "a" /\ \A x \in ToSet(v.a) : Holds(n[1].a, x)
          \/ \E j \in (Len(told) + 1)..Len(told') :
                told'[j].k = k /\ ToSet(TextsOf(v)) \subseteq ToSet(told'[j].x) ]_vars
DepsGrow == [][Len(deps') >= Len(deps) /\ SubSeq(deps', 1, Len(deps)) = deps]_vars
Terminates == Len(stack) <= 2 * (Len(Case.files) + 1)
=============================================================================
