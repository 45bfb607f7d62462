------------------------------- MODULE Written ------------------------------
(***************************************************************************)
(* The SVD document a command writes under a format configuration,          *)
(* compared part by part: what stands before the peripherals, each          *)
(* peripheral in its order, and the end.                                    *)
(* case == [id, dev, cfg: sequence of <<option, value>>, nota, out, toks]   *)
(***************************************************************************)
EXTENDS Encode, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, at, pos, st
vars == <<c, at, pos, st>>
Case == Cases[c]
Cfg == Case.cfg
Init == c \in 1..Len(Cases) /\ at = 0 /\ pos = 0 /\ st = "run"

Order == OrderPers(Case.dev.pers, Cfg)
Parts0 == Len(Order) + 2
Part(k) ==
  IF k = 1 THEN <<"<device">> \o EncHead(Case.dev, Cfg) \o <<"<peripherals">>
  ELSE IF k = Parts0 THEN <<">peripherals", ">device">>
  ELSE EncPer(Order[k - 1], Cfg, Case.nota)
Verdict(v) == PrintT("DONE " \o ToJson([id |-> Case.id, st |-> v, tokens |-> pos, peripherals |-> Len(Order)]))
Bad(part, want, saw) ==
  /\ PrintT("MISMATCH " \o ToJson([id |-> Case.id, part |-> part, want |-> want, saw |-> saw]))
  /\ Verdict("bad") /\ st' = "bad" /\ UNCHANGED <<c, at, pos>>
Write ==
  /\ st = "run" /\ Case.out = "ok" /\ ConfigFine(Cfg) /\ at < Parts0
  /\ LET p == Part(at + 1)
         s == SubSeq(Case.toks, pos + 1, IF pos + Len(p) > Len(Case.toks) THEN Len(Case.toks) ELSE pos + Len(p))
     IN IF p = s THEN at' = at + 1 /\ pos' = pos + Len(p) /\ UNCHANGED <<c, st>>
        ELSE LET i == MinOf({i \in 1..Len(p) : IF i > Len(s) THEN TRUE ELSE p[i] # s[i]})
             IN Bad(at + 1, SubSeq(p, i, i), IF i > Len(s) THEN <<>> ELSE SubSeq(s, i, i))
Finish ==
  /\ st = "run" /\ Case.out = "ok" /\ at = Parts0
  /\ IF pos = Len(Case.toks) THEN Verdict("ok") /\ st' = "ok" /\ UNCHANGED <<c, at, pos>>
     ELSE Bad(at, <<>>, SubSeq(Case.toks, pos + 1, pos + 1))
\* a configuration with a value that means nothing is refused, and then nothing is written
Refused ==
  /\ st = "run" /\ at = 0 /\ Case.out # "ok"
  /\ IF Case.out = "err" /\ ~ConfigFine(Cfg) /\ ~Case.wrote THEN Verdict("ok") /\ st' = "ok" /\ UNCHANGED <<c, at, pos>>
     ELSE Bad(0, <<IF ConfigFine(Cfg) THEN "ok" ELSE "err">>, <<Case.out>>)
Taken == st = "run" /\ at = 0 /\ Case.out = "ok" /\ ~ConfigFine(Cfg) /\ Bad(0, <<"err">>, <<"ok">>)
Next == Taken \/ Write \/ Finish \/ Refused
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What a user relies on                                                    *)
\* every number, written in any format, is read as the same number
RECURSIVE WordsOfKid(_)
WordsOfProps(p) == ToSet(p.rv) \cup ToSet(p.rm)
WordsOfKid(x) ==
  {WOf(x.off)} \cup WordsOfProps(x.p)
    \cup (IF IsReg(x) THEN {} ELSE UNION {WordsOfKid(x.ch[i]) : i \in 1..Len(x.ch)})
WordsOfPer(p) == {p.base} \cup WordsOfProps(p.p) \cup UNION {WordsOfKid(KidsOfPer(p)[i]) : i \in 1..Len(KidsOfPer(p))}
NumbersRead ==
  (st = "run" /\ at > 0 /\ at <= Len(Order)) =>
     \A w \in WordsOfPer(Order[at]) : \A f \in NumberFormats : ReadNumber(Number(w, f)) = w
\* sorting neither loses nor repeats anything
RECURSIVE Permuted(_)
Permuted(xs) ==
  /\ SameElements(OrderKids(xs, Cfg), xs)
  /\ \A i \in 1..Len(xs) : IF IsReg(xs[i]) THEN SameElements(OrderFields(FieldsOf(xs[i]), Cfg), FieldsOf(xs[i])) ELSE Permuted(xs[i].ch)
NothingLost ==
  /\ (st = "run" /\ at = 0) => SameElements(Order, Case.dev.pers)
  /\ (st = "run" /\ at > 0 /\ at <= Len(Order)) => Permuted(KidsOfPer(Order[at]))
\* the parts come one after the other
Forward == [][pos' >= pos /\ at' \in {at, at + 1}]_vars
=============================================================================
