-------------------------------- MODULE Yaml -------------------------------
(***************************************************************************)
(* YAML values of patch files and their typed access.                      *)
(*   [t|->"s", s|->str] [t|->"i", i|->word] [t|->"b", b|->bool]            *)
(*   [t|->"r", s|->text of a floating point number]                        *)
(*   [t|->"n"] [t|->"a", a|->seq of node] [t|->"m", m|->seq of <<key,node>>]*)
(* Results: [e|->"", v|->value] or [e|->reason, v|-> <<>>].                *)
(***************************************************************************)
EXTENDS W64

Ok(v)  == [e |-> "", v |-> v, w |-> <<>>]
Err(m) == [e |-> m, v |-> <<>>, w |-> <<>>]
\* where it went wrong: names from the outside in
In(n, r) == IF r.e = "" THEN r ELSE [r EXCEPT !.w = <<n>> \o @]
IsOk(r) == r.e = ""
Bind(r, F(_)) == IF r.e # "" THEN r ELSE F(r.v)
FoldR(F(_, _), init, seq) ==
  FoldLeft(LAMBDA acc, x : IF acc.e # "" THEN acc ELSE F(acc.v, x), Ok(init), seq)
FoldS(F(_, _), init, rseq) == IF rseq.e # "" THEN rseq ELSE FoldR(F, init, rseq.v)
\* all results must be fine, then the value
Need(rs, v) ==
  IF \E i \in 1..Len(rs) : rs[i].e # ""
  THEN Err(rs[MinOf({i \in 1..Len(rs) : rs[i].e # ""})].e)
  ELSE Ok(v)
MapR(F(_), seq) == FoldR(LAMBDA a, x : Bind(F(x), LAMBDA y : Ok(Append(a, y))), <<>>, seq)

None == <<>>
Some(x) == <<x>>
IsSome(o) == o # <<>>
OrElse(o, d) == IF o = <<>> THEN d ELSE o[1]
Upd(old, new) == IF new = <<>> THEN old ELSE new      \* set when given
E2N(o) == IF o = <<"">> THEN <<>> ELSE o              \* empty string to none

Keys(m) == {m[i][1] : i \in 1..Len(m)}
Has(m, k) == \E i \in 1..Len(m) : m[i][1] = k
Get(m, k) == IF Has(m, k) THEN <<m[MinOf({i \in 1..Len(m) : m[i][1] = k})][2]>> ELSE <<>>
EmptyMap == <<>>
NKeys(m, S) == SelectSeq(m, LAMBDA kv : kv[1] \notin S)
YStr(s) == [t |-> "s", s |-> s]
YMap(m) == [t |-> "m", m |-> m]
YArr(a) == [t |-> "a", a |-> a]

\* scalar readings
ParseInt(y) ==
  IF y.t = "i" THEN Some(y.i)
  ELSE IF y.t # "s" THEN None
  ELSE LET s == SubstAll(y.s, "_", "")
           w == IF StartsWith(s, "0x") \/ StartsWith(s, "0X") THEN WParseI(Drop(s, 2), 16)
                ELSE IF StartsWith(s, "#") THEN WParseI(SubstAll(ToLower(Drop(s, 1)), "x", "0"), 2)
                ELSE IF StartsWith(s, "0b") THEN WParseI(SubstAll(Drop(s, 2), "x", "0"), 2)
                ELSE WParseI(s, 10)
       IN IF w = <<>> THEN None ELSE Some(w)
ParseBool(y) ==
  IF y.t = "b" THEN Some(y.b)
  ELSE IF y.t = "i" THEN (IF y.i = W0 THEN Some(FALSE) ELSE IF y.i = <<0,0,0,1>> THEN Some(TRUE) ELSE None)
  ELSE IF y.t = "s" THEN (IF y.s \in {"true", "True"} THEN Some(TRUE)
                          ELSE IF y.s \in {"false", "False"} THEN Some(FALSE) ELSE None)
  ELSE None

AsInt(y)  == LET r == ParseInt(y) IN IF r = None THEN Err("not-int") ELSE Ok(r[1])
AsBool(y) == LET r == ParseBool(y) IN IF r = None THEN Err("not-bool") ELSE Ok(r[1])
AsStr(y)  == IF y.t = "s" THEN Ok(y.s) ELSE Err("not-str")
AsMap(y)  == IF y.t = "m" THEN Ok(y.m) ELSE Err("not-map")
AsArr(y)  == IF y.t = "a" THEN Ok(y.a) ELSE Err("not-array")
\* low 32 bits of an integer, as a small natural
Small(w) == IF w[1] # 0 \/ w[2] # 0 THEN Err("not-u32") ELSE IF WLow32(w) < 0 THEN Err("MODEL-RANGE") ELSE Ok(WLow32(w))
AsU32(y) == Bind(AsInt(y), Small)

OptOf(m, k, F(_)) ==
  LET y == Get(m, k) IN IF y = <<>> THEN Ok(None) ELSE Bind(F(y[1]), LAMBDA v : Ok(Some(v)))
OptInt(m, k)  == OptOf(m, k, AsInt)
OptU32(m, k)  == OptOf(m, k, AsU32)
OptBool(m, k) == OptOf(m, k, AsBool)
OptStr(m, k)  == OptOf(m, k, AsStr)
OptMap(m, k)  == OptOf(m, k, AsMap)
OptArr(m, k)  == OptOf(m, k, AsArr)
\* a string or a list of strings
StrVec(m, k) ==
  LET y == Get(m, k) IN
  IF y = <<>> THEN Ok(<<>>)
  ELSE IF y[1].t = "s" THEN Ok(<<y[1].s>>)
  ELSE IF y[1].t = "a" /\ \A i \in 1..Len(y[1].a) : y[1].a[i].t = "s"
       THEN Ok([i \in 1..Len(y[1].a) |-> y[1].a[i].s])
  ELSE Err("not-str-list")
\* the entries of a map under k, which may be left empty
Section(m, k) ==
  LET y == Get(m, k) IN IF y = <<>> \/ y[1].t = "n" THEN Ok(<<>>) ELSE IF y[1].t # "m" THEN Err("not-map") ELSE Ok(y[1].m)
\* those of a section that is known to be fine
MapEntries(m, k) ==
  LET y == Get(m, k) IN IF y = <<>> \/ y[1].t # "m" THEN <<>> ELSE y[1].m

(* Structural equality that never compares values of different types.      *)
RECURSIVE YEq(_, _)
YEq(x, y) ==
  /\ x.t = y.t
  /\ CASE x.t \in {"s", "r"} -> x.s = y.s
       [] x.t = "i" -> x.i = y.i
       [] x.t = "b" -> x.b = y.b
       [] x.t = "n" -> TRUE
       [] x.t = "a" -> /\ Len(x.a) = Len(y.a)
                       /\ \A i \in 1..Len(x.a) : YEq(x.a[i], y.a[i])
       [] x.t = "m" -> /\ Len(x.m) = Len(y.m)
                       /\ \A i \in 1..Len(x.m) : x.m[i][1] = y.m[i][1] /\ YEq(x.m[i][2], y.m[i][2])
=============================================================================
