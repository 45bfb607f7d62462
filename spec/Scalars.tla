------------------------------- MODULE Scalars ------------------------------
(***************************************************************************)
(* What a scalar written in a patch means.  The states are texts, growing   *)
(* letter by letter; each is given its readings, which are then compared    *)
(* with what the tool makes of it.                                          *)
(***************************************************************************)
EXTENDS Yaml, Json, IOUtils

CONSTANTS Letters, MaxLen, Words
VARIABLES text, room
vars == <<text, room>>

\* YAML 1.2 as the library reads it: plain scalars
DigitSet == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
AllIn(s, S) == \A i \in 1..Len(s) : Ch(s, i) \in S
Unsign(s) == IF s # "" /\ Ch(s, 1) \in {"+", "-"} THEN Drop(s, 1) ELSE s
SplitAt(s, S) == \* first place of a letter of S, or one past the end
  LET P == {i \in 1..Len(s) : Ch(s, i) \in S} IN IF P = {} THEN Len(s) + 1 ELSE MinOf(P)
IsFloat(s) ==
  LET u == Unsign(s)
      e == SplitAt(u, {"e", "E"})
      mant == Take(u, e - 1)
      ex == Drop(u, e)
      dot == SplitAt(mant, {"."})
      whole == Take(mant, dot - 1)
      frac == Drop(mant, dot)
  IN /\ AllIn(whole, DigitSet) /\ AllIn(frac, DigitSet) /\ whole \o frac # ""
     /\ e > Len(u) \/ (Unsign(ex) # "" /\ AllIn(Unsign(ex), DigitSet))
Special == {".inf", ".Inf", ".INF", "+.inf", "+.Inf", "+.INF", "-.inf", "-.Inf", "-.INF", ".nan", ".NaN", ".NAN"}
YI(w) == [t |-> "i", i |-> w]
Resolve(s) ==
  LET radix == IF StartsWith(s, "0x") THEN WParseI(Drop(s, 2), 16)
               ELSE IF StartsWith(s, "0o") THEN WParseI(Drop(s, 2), 8)
               ELSE IF StartsWith(s, "+") THEN WParseI(Drop(s, 1), 10) ELSE None
  IN IF radix # None THEN YI(radix)
     ELSE IF s \in {"", "~", "null"} THEN [t |-> "n"]
     ELSE IF s \in {"true", "True", "TRUE"} THEN [t |-> "b", b |-> TRUE]
     ELSE IF s \in {"false", "False", "FALSE"} THEN [t |-> "b", b |-> FALSE]
     ELSE IF WParseI(s, 10) # None THEN YI(WParseI(s, 10))
     ELSE IF s \in Special \/ IsFloat(s) THEN [t |-> "r", s |-> s]
     ELSE YStr(s)
\* texts that can be written without quotes
CanBePlain(s) == s # "-" /\ (IF s = "" THEN TRUE ELSE Ch(s, 1) # "#")

-----------------------------------------------------------------------------
Out(r, F(_)) == IF IsOk(r) THEN F(r.v) ELSE "error"
U32(y) == Bind(AsInt(y), LAMBDA w : IF w[1] # 0 \/ w[2] # 0 THEN Err("not-u32") ELSE Ok(w))
Readings(y) ==
  [u32 |-> Out(U32(y), LAMBDA w : WDec(w)), u64 |-> Out(AsInt(y), LAMBDA w : WDec(w)),
   bool |-> Out(AsBool(y), LAMBDA b : IF b THEN "true" ELSE "false"), str |-> Out(AsStr(y), LAMBDA s : "=" \o s)]
Emit(s) ==
  PrintT("SCALAR " \o ToJson([text |-> s, plain |-> IF CanBePlain(s) THEN <<Readings(Resolve(s))>> ELSE <<>>,
                              quoted |-> Readings(YStr(s))]))
Init == \E w \in Words \cup {""} : text = w /\ room = (IF w = "" THEN MaxLen ELSE 1) /\ Emit(w)
Next == room > 0 /\ \E l \in Letters : text' = text \o l /\ room' = room - 1 /\ Emit(text')
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What a user relies on                                                    *)
\* quotes make no difference to a number (except for octal ones and two signs, which only YAML knows)
QuotesAlike == (CanBePlain(text) /\ ~StartsWith(text, "0o") /\ ~StartsWith(text, "+-") /\ ~StartsWith(text, "++")) =>
                 AsInt(Resolve(text)).v = AsInt(YStr(text)).v
\* an unsigned decimal number is what it says
DecimalsExact == (text # "" /\ Len(text) < 19 /\ AllIn(text, DigitSet)) => AsInt(Resolve(text)) = Ok(WParseU(text, 10))
\* underscores only separate
UnderscoresIgnored == AsInt(YStr(text)).v = AsInt(YStr(SubstAll(text, "_", ""))).v
\* what is a truth value is no other one when written as a number
BoolsAlike == LET y == YStr(text) IN (IsOk(AsBool(y)) /\ CanBePlain(text)) => AsBool(Resolve(text)) = AsBool(y)
\* a number with the sign changed is the negative number
Signed == (text # "" /\ AllIn(text, DigitSet) /\ Len(text) < 19) => AsInt(YStr("-" \o text)).v = WMinus(AsInt(YStr(text)).v)
=============================================================================
