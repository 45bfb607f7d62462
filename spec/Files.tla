-------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* The commands of svdtools over the files they read and write.             *)
(*                                                                          *)
(* A history is a sequence of commands run one after the other in a         *)
(* directory.  fs maps the name of each file to what it holds:              *)
(*   [k |-> "dev", fmt, dev]  a device as "svd", "json" or "yaml"           *)
(*   [k |-> "patch", m]       a patch (mapping without its `_path` keys)    *)
(*   [k |-> "cfg", fmt, m]    a format configuration                        *)
(*   [k |-> "deps", l]        a list of dependencies                        *)
(*   [k |-> "junk"]           anything none of the commands can read        *)
(*   [k |-> "dir"]            a directory                                   *)
(* case == [id, fs: sequence of [n, v], cmds]                               *)
(* cmd  == arguments and `saw` == [out, say, changed]: how the command      *)
(*         ended, what it printed, and the files it left changed            *)
(***************************************************************************)
EXTENDS Steps, ExpandOps, Valid, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, i, fs, st
vars == <<c, i, fs, st>>

-----------------------------------------------------------------------------
(* Names of files: texts with "/" between the directories                   *)
Comps(n) == Split(n, "/")
DirOf(n) == Front(Comps(n))
JoinC(p) == Join(p, "/")
\* the name `rel` has seen from the directory of file n
Seen(n, rel) ==
  JoinC(FoldLeft(LAMBDA p, x : IF x = "" \/ x = "." THEN p ELSE IF x = ".." THEN (IF p = <<>> THEN <<"..">> ELSE Front(p))
                               ELSE Append(p, x), DirOf(n), Split(rel, "/")))
\* extension of the last part of the name, "" when it has none
ExtOf(n) == LET l == Split(Last(Comps(n)), ".") IN IF Len(l) < 2 \/ (Len(l) = 2 /\ l[1] = "") THEN "" ELSE Last(l)
WithExt(n, e) == (IF ExtOf(n) = "" THEN n ELSE Take(n, Len(n) - Len(ExtOf(n)) - 1)) \o "." \o e
Holds(f, n) == n \in DOMAIN f
IsDirectory(f, n) == n = "" \/ (Holds(f, n) /\ f[n].k = "dir")
\* can a file be written under this name?
Writable(f, n) == n # "/dev/full" /\ ~IsDirectory(f, n) /\ IsDirectory(f, JoinC(DirOf(n)))
Put(f, n, v) == IF Writable(f, n) THEN Ok([x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]) ELSE Err("not-writable")

-----------------------------------------------------------------------------
(* Formats                                                                  *)
FormatNamed(s) ==
  CASE s \in {"svd", "SVD", "xml", "XML"} -> Ok("svd")
    [] s \in {"yml", "yaml", "YAML"} -> Ok("yaml")
    [] s \in {"json", "JSON"} -> Ok("json")
    [] OTHER -> Err("unknown-format")
FormatFor(opt, n) == IF opt # None THEN FormatNamed(opt[1]) ELSE FormatNamed(ExtOf(n))
\* JSON is YAML as well
Readable(fmt, as) == fmt = as \/ (fmt = "json" /\ as = "yaml")
\* `sloppy`: values are not looked at
ReadDev(f, n, fmt, sloppy) ==
  IF ~Holds(f, n) THEN Err("no-file")
  ELSE IF f[n].k # "dev" THEN Err("no-device")
  ELSE IF ~Readable(f[n].fmt, fmt) THEN Err("no-device")
  ELSE IF fmt = "svd" /\ ~sloppy /\ ~VDev(f[n].dev, FALSE) THEN Err("invalid")
  ELSE Ok(f[n].dev)
ReadPatch(f, n) ==
  IF ~Holds(f, n) THEN Err("no-file")
  ELSE IF f[n].k # "patch" THEN Err("no-patch")
  ELSE Ok(f[n].m)
ReadConfig(f, o) ==
  IF o = None THEN Ok(<<>>)
  ELSE IF ExtOf(o[1]) \notin {"yml", "yaml", "YAML", "json", "JSON"} THEN Err("unknown-format")
  ELSE IF ~Holds(f, o[1]) THEN Err("no-file")
  ELSE IF f[o[1]].k # "cfg" THEN Err("no-config")
  ELSE IF ~Readable(f[o[1]].fmt, IF ExtOf(o[1]) \in {"json", "JSON"} THEN "json" ELSE "yaml") THEN Err("no-config")
  ELSE Ok(f[o[1]].m)
Document(fmt, d) == [k |-> "dev", fmt |-> fmt, dev |-> NormDev(d)]

-----------------------------------------------------------------------------
(* The commands.  Each gives the files afterwards and what is printed.      *)
Leaves(f, say) == [f |-> f, say |-> say]
Convert(f, x) ==
  Bind(FormatFor(x.inf, x.in), LAMBDA from :
  Bind(IF x.ign /\ from = "svd" /\ Holds(f, x.in) /\ f[x.in].k = "dev"
       THEN ReadDev([f EXCEPT ![x.in].dev = NoEnumDev(f[x.in].dev)], x.in, from, FALSE)
       ELSE ReadDev(f, x.in, from, FALSE), LAMBDA d1 :
  LET d2 == IF x.xp THEN PropDev(d1) ELSE d1
  IN Bind(IF x.ex THEN ExpDev(d2) ELSE Ok(d2), LAMBDA d3 :
     Bind(FormatFor(x.outf, x.out), LAMBDA to :
     Bind(ReadConfig(f, x.cfg), LAMBDA cfg :
     Bind(Put(f, x.out, Document(to, d3)), LAMBDA g : Ok(Leaves(g, "")))))))) 
Patch(f, x) ==
  Bind(ReadPatch(f, x.in), LAMBDA m :
  Bind(OptStr(m, "_svd"), LAMBDA ref :
  IF ref = None THEN Err("no-svd")
  ELSE LET src == Seen(x.in, ref[1])
           out == IF x.out = "" THEN WithExt(src, "svd.patched") ELSE x.out
           others == {n \in DOMAIN f : f[n].k = "dev" /\ f[n].fmt = "svd" /\ VDev(f[n].dev, FALSE)}
           files == [k \in 1..Cardinality(others) |->
                       LET n == SetToSeq(others)[k] IN [n |-> n, pers |-> f[n].dev.pers]]
       IN Bind(IF Holds(f, src) THEN Ok(0) ELSE Err("no-file"), LAMBDA z :
          Bind(ReadConfig(f, x.cfg), LAMBDA cfg :
          Bind(ReadDev(f, src, "svd", TRUE), LAMBDA d :
          Bind(Patched(d, m, files, x.ed), LAMBDA e :
          Bind(IF x.pv /\ ~VDev(e, TRUE) THEN Err("invalid") ELSE Ok(0), LAMBDA y :
          Bind(Put(f, out, Document("svd", e)), LAMBDA g : Ok(Leaves(g, ""))))))))))
Expand(f, x) ==
  Bind(ReadPatch(f, x.in), LAMBDA m :
  IF x.out = "" THEN Ok(Leaves(f, "patch"))
  ELSE Bind(Put(f, x.out, [k |-> "patch", m |-> m]), LAMBDA g : Ok(Leaves(g, ""))))
Makedeps(f, x) ==
  Bind(ReadPatch(f, x.in), LAMBDA m :
  Bind(Put(f, x.out, [k |-> "deps", l |-> <<>>]), LAMBDA g : Ok(Leaves(g, ""))))
Info(f, x) ==
  IF x.req # "device-name" THEN Err("unknown-request")
  ELSE Bind(FormatFor(x.inf, x.in), LAMBDA from :
       Bind(ReadDev(f, x.in, from, FALSE), LAMBDA d : Ok(Leaves(f, d.n))))
\* interrupts looks at names and numbers only
Show(f, x) == Bind(ReadDev(f, x.in, "svd", x.c = "interrupts"), LAMBDA d : Ok(Leaves(f, "text")))
Outcome(f, x) ==
  CASE x.c = "convert" -> Convert(f, x)
    [] x.c = "patch" -> Patch(f, x)
    [] x.c = "expand-patch" -> Expand(f, x)
    [] x.c = "makedeps" -> Makedeps(f, x)
    [] x.c = "info" -> Info(f, x)
    [] OTHER -> Show(f, x)
\* the one file a command may write
Target(x) == IF x.c = "patch" /\ x.out = "" THEN {"*.svd.patched"} ELSE IF x.c \in {"info", "interrupts", "mmap"} THEN {} ELSE {x.out}

-----------------------------------------------------------------------------
FsOf(l) == [n \in {l[k].n : k \in 1..Len(l)} |-> l[MinOf({k \in 1..Len(l) : l[k].n = n})].v]
Cmd == Cases[c].cmds[i]
\* the files found after the command
After ==
  LET ch == Cmd.saw.changed
      lost == {ch[k].n : k \in {k \in 1..Len(ch) : ch[k].v.k = "gone"}}
      new == {ch[k].n : k \in 1..Len(ch)} \ lost
  IN [n \in ((DOMAIN fs) \ lost) \cup new |->
        IF n \in new THEN ch[MinOf({k \in 1..Len(ch) : ch[k].n = n})].v ELSE fs[n]]

Init == /\ c \in 1..Len(Cases) /\ i = 1 /\ fs = FsOf(Cases[c].fs) /\ st = "run"
Differ(f, g) == {n \in DOMAIN f \cup DOMAIN g : IF Holds(f, n) /\ Holds(g, n) THEN f[n] # g[n] ELSE TRUE}
Report(spec, want) ==
  /\ PrintT("MISMATCH " \o ToJson([id |-> Cases[c].id, at |-> i, cmd |-> Cmd.c, spec |-> spec, saw |-> Cmd.saw.out,
                                   files |-> SetToSeq(Differ(want.f, After)), say |-> want.say, said |-> Cmd.saw.say]))
  /\ PrintT("DONE " \o ToJson([id |-> Cases[c].id, st |-> "bad"]))
  /\ st' = "bad" /\ UNCHANGED <<c, i, fs>>
Step1 == st = "run" /\ i <= Len(Cases[c].cmds)
Res == Outcome(fs, Cmd)
OutOfRange == Step1 /\ Res.e = "MODEL-RANGE" /\ st' = "range" /\ UNCHANGED <<c, i, fs>>
         /\ PrintT("RANGE " \o ToJson([id |-> Cases[c].id]))
\* the command works: its output is complete and nothing else changed
Works ==
  /\ Step1 /\ IsOk(Res) /\ (Cmd.lim = 0 \/ Cmd.saw.out = "ok")
  /\ IF Cmd.saw.out = "ok" /\ After = Res.v.f /\ Cmd.saw.say = Res.v.say
     THEN fs' = Res.v.f /\ i' = i + 1 /\ UNCHANGED <<c, st>>
     ELSE Report("ok", Res.v)
\* the device ran full while the output was written: this is not success, and everything else stays
RunsFull ==
  /\ Step1 /\ IsOk(Res) /\ Cmd.lim > 0 /\ Cmd.saw.out # "ok"
  /\ IF Cmd.saw.out = "err" /\ \A n \in Differ(fs, After) : Cmd.c = "patch" \/ n \in Target(Cmd)
     THEN fs' = After /\ i' = i + 1 /\ UNCHANGED <<c, st>>
     ELSE Report("err", Leaves(fs, ""))
\* the command fails: nothing changes
Fails ==
  /\ Step1 /\ ~IsOk(Res) /\ Res.e # "MODEL-RANGE"
  /\ IF (Cmd.saw.out = "err" \/ (Cmd.saw.out = "panic" /\ Cmd.c \in {"interrupts", "mmap"})) /\ After = fs
     THEN fs' = fs /\ i' = i + 1 /\ UNCHANGED <<c, st>>
     ELSE Report(Res.e, Leaves(fs, ""))
Done == st = "run" /\ i > Len(Cases[c].cmds) /\ st' = "ok" /\ UNCHANGED <<c, i, fs>>
        /\ PrintT("DONE " \o ToJson([id |-> Cases[c].id, st |-> "ok", commands |-> i - 1, files |-> Cardinality(DOMAIN fs)]))
Next == OutOfRange \/ Works \/ RunsFull \/ Fails \/ Done
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What a user relies on                                                    *)
Moved == i' = i + 1
\* a command that fails leaves all files alone, one that works changes at most its output
FailureChangesNothing == [][Moved /\ Cmd.lim = 0 /\ Cmd.saw.out # "ok" => fs' = fs]_vars
OnlyOutput == [][Moved => LET D == Differ(fs, fs') IN
                   Cardinality(D) <= 1 /\ \A n \in D : n \in Target(Cmd) \/ (Cmd.c = "patch" /\ EndsWith(n, ".svd.patched"))]_vars
NothingRemoved == [][Moved => DOMAIN fs \subseteq DOMAIN fs']_vars
\* a plain conversion keeps the device; one after the other they are like one
RoundTrip == [][(Moved /\ Cmd.c = "convert" /\ Cmd.saw.out = "ok" /\ ~(Cmd.ex \/ Cmd.xp \/ Cmd.ign)) =>
                   fs'[Cmd.out].k = "dev" /\ fs'[Cmd.out].dev = NormDev(fs[Cmd.in].dev)]_vars
\* what a checked patch writes is valid, and reading it checks it again
Checked == [][(Moved /\ Cmd.c = "patch" /\ Cmd.pv /\ Cmd.saw.out = "ok") =>
                \A n \in Differ(fs, fs') : fs'[n].k = "dev" /\ VDev(fs'[n].dev, TRUE) /\ VDev(fs'[n].dev, FALSE)]_vars
ShowsKeep == [][Moved /\ Cmd.c \in {"info", "interrupts", "mmap"} => fs' = fs]_vars
=============================================================================
