-------------------------------- MODULE Renew -------------------------------
(***************************************************************************)
(* The pages of `svdtools html` over time: a page is made again when it is  *)
(* missing or older than its SVD file.                                      *)
(*                                                                          *)
(*   case == [id, vers, start, steps]                                       *)
(*   vers    the texts used: [n, doc, tot, ok]                              *)
(*   start   the files at the beginning                                     *)
(*   steps   [cmd, out, post]: what was done, and the files afterwards      *)
(*   files   [svd, page, index]: SVD files by path, pages by name, both     *)
(*           with the text they show (0: none of vers) and their time       *)
(* Times are counted in steps: what step k writes has time 1000 k.          *)
(***************************************************************************)
EXTENDS Views, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k, fs, done
vars == <<c, k, fs, done>>
Case == Cases[c]
Cmd == Case.steps[k].cmd
Out == Case.steps[k].out
Post == Case.steps[k].post
Now == 1000 * k

\* maps are written as sequences of [n, v, t]
Held(m, n) == LET S == {i \in 1..Len(m) : m[i].n = n} IN IF S = {} THEN None ELSE Some(m[MinOf(S)])
NamesIn(m) == {m[i].n : i \in 1..Len(m)}
Base(path) == LET p == {i \in 1..Len(path) : SubSeq(path, i, i) = "/"}
                  m == IF p = {} THEN 0 ELSE CHOOSE x \in p : \A y \in p : y <= x IN SubSeq(path, m + 1, Len(path))
Copied(path) == "h/" \o Base(path)
Same(a, b, S) == \* equal except for the keys in S
  \A n \in (NamesIn(a) \cup NamesIn(b)) \ S : Held(a, n) = Held(b, n)

\* the inputs which are there, with what they hold
There(f) == SelectSeq(Cmd.files, LAMBDA p : Held(f.svd, p) # None)
Text(f, p) == Case.vers[Held(f.svd, p)[1].v]
Sound(f) == \A i \in 1..Len(There(f)) : Text(f, There(f)[i]).ok
Stale(f, p) ==
  LET s == Held(f.svd, p)[1] g == Held(f.page, Text(f, p).n) IN g = None \/ g[1].t < s.t
Todo(f) == {p \in ToSet(There(f)) : Text(f, p).ok /\ Stale(f, p)}
NewPage(f, p) == [n |-> Text(f, p).n, v |-> Held(f.svd, p)[1].v, t |-> Now]
NewCopy(f, p) == [n |-> Copied(p), v |-> Held(f.svd, p)[1].v, t |-> Now]
Line(f, p) == [n |-> Text(f, p).n, doc |-> Text(f, p).doc, tot |-> Text(f, p).tot]
Lines(f) ==
  LET l == There(f)
      low(i) == ToLower(Text(f, l[i]).n)
      o == SetToSortSeq(1..Len(l), LAMBDA i, j : StrLess(low(i), low(j)) \/ (low(i) = low(j) /\ i < j))
  IN [i \in 1..Len(l) |-> Line(f, l[o[i]])]

\* a run that ends well: every page that has to be made is made, with a copy of its SVD file, and nothing else
Complete(f, g) ==
  /\ \A p \in Todo(f) : /\ Held(g.page, Text(f, p).n) = Some(NewPage(f, p))
                        /\ Copied(p) # p => Held(g.svd, Copied(p)) = Some(NewCopy(f, p))
  /\ Same(f.page, g.page, {Text(f, p).n : p \in Todo(f)})
  /\ Same(f.svd, g.svd, {Copied(p) : p \in {q \in Todo(f) : Copied(q) # q}})
  /\ g.index = Some(Lines(f))
\* a run that was broken off: every page is as before or made
Partly(f, g) ==
  /\ \A p \in Todo(f) : Held(g.page, Text(f, p).n) \in {Held(f.page, Text(f, p).n), Some(NewPage(f, p))}
  /\ Same(f.page, g.page, {Text(f, p).n : p \in Todo(f)})
  /\ Same(f.svd, g.svd, {Copied(p) : p \in {q \in Todo(f) : Copied(q) # q}})
  /\ \A p \in Todo(f) : Copied(p) # p =>
       \/ Held(g.svd, Copied(p)) \in {Held(f.svd, Copied(p)), Some(NewCopy(f, p))}
       \/ Cmd.cut /\ Held(g.svd, Copied(p)) # None /\ Held(g.page, Text(f, p).n) = Held(f.page, Text(f, p).n)
Allowed(f, g) ==
  CASE Cmd.k = "put" -> /\ Held(g.svd, Cmd.f) = Some([n |-> Cmd.f, v |-> Cmd.v, t |-> Cmd.t])
                        /\ Same(f.svd, g.svd, {Cmd.f}) /\ g.page = f.page /\ g.index = f.index
    [] Cmd.k = "age" -> Same(f.page, g.page, {Cmd.f}) /\ g.svd = f.svd /\ g.index = f.index
    [] Cmd.k = "html" ->
         IF Out = "ok" THEN Sound(f) /\ Complete(f, g)
         ELSE IF Cmd.cut THEN Out \in {"err", "cut"} /\ Partly(f, g)
         ELSE Out = "err" /\ ~Sound(f) /\ Partly(f, g) /\ g.index = f.index

Init == c \in 1..Len(Cases) /\ k = 1 /\ fs = Case.start /\ done = "run"
Verdict(v) == PrintT("DONE " \o ToJson([id |-> Case.id, st |-> v, steps |-> k]))
Step ==
  /\ done = "run" /\ k <= Len(Case.steps)
  /\ IF Allowed(fs, Post) THEN fs' = Post /\ k' = k + 1 /\ UNCHANGED <<c, done>>
     ELSE /\ PrintT("MISMATCH " \o ToJson([id |-> Case.id, at |-> k, cmd |-> Cmd, out |-> Out, before |-> fs, after |-> Post]))
          /\ Verdict("bad") /\ done' = "bad" /\ UNCHANGED <<c, k, fs>>
End == done = "run" /\ k > Len(Case.steps) /\ Verdict("ok") /\ done' = "ok" /\ UNCHANGED <<c, k, fs>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What a user relies on                                                    *)
\* making pages never changes what they are made of
InputsKept == [][(k' # k /\ Cmd.k = "html") =>
                   \A i \in 1..Len(Cmd.files) : Held(fs'.svd, Cmd.files[i]) = Held(fs.svd, Cmd.files[i])]_vars
\* afterwards no page is older than its SVD file unless that one is from the future, and what was made shows it as it is
Current == [][(k' # k /\ Cmd.k = "html" /\ Out = "ok") =>
                \A p \in ToSet(There(fs)) :
                  LET s == Held(fs.svd, p)[1] g == Held(fs'.page, Text(fs, p).n) IN
                  /\ g # None /\ (g[1].t >= s.t \/ s.t > Now)
                  /\ (g[1].t = Now => g[1].v = s.v \/ Held(fs.page, Text(fs, p).n) = g)]_vars
\* only pages of the inputs change, and a page is never left in an unfinished state
PagesWhole == [][(k' # k /\ Cmd.k = "html") => \A n \in NamesIn(fs'.page) : Held(fs'.page, n)[1].v # 0 \/ Held(fs'.page, n) = Held(fs.page, n)]_vars
\* doing it again changes nothing but the index
Settled == [][(k' # k /\ k > 1 /\ Cmd.k = "html" /\ Out = "ok" /\ Case.steps[k - 1].out = "ok" /\ Case.steps[k - 1].cmd = Cmd
               /\ \A p \in ToSet(There(fs)) : Held(fs.svd, p)[1].t <= Now - 1000) => fs' = fs]_vars
=============================================================================
