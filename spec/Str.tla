-------------------------------- MODULE Str --------------------------------
(***************************************************************************)
(* Strings, glob patterns and name specifications of svdtools patch files. *)
(* Strings are TLA+ strings; TLC supports Len, SubSeq and \o on them.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Ch(s, i)      == SubSeq(s, i, i)
Explode(s)    == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Take(s, n)    == IF n <= 0 THEN "" ELSE SubSeq(s, 1, IF n > Len(s) THEN Len(s) ELSE n)
Drop(s, n)    == IF n >= Len(s) THEN "" ELSE SubSeq(s, n + 1, Len(s))
Concat(ss)    == FoldLeft(LAMBDA a, b : a \o b, "", ss)
StartsWith(s, p) == Len(p) <= Len(s) /\ Take(s, Len(p)) = p
EndsWith(s, p)   == Len(p) <= Len(s) /\ Drop(s, Len(s) - Len(p)) = p
OccursAt(s, x, i) == i + Len(x) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(x) - 1) = x
Occurrences(s, x) == {i \in 1..(Len(s) - Len(x) + 1) : SubSeq(s, i, i + Len(x) - 1) = x}
HasSub(s, x)    == Len(x) <= Len(s) /\ Occurrences(s, x) # {}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

\* Replace every (non-overlapping, left to right) occurrence of x by y.
RECURSIVE SubstAll(_, _, _)
SubstAll(s, x, y) ==
  IF ~HasSub(s, x) THEN s
  ELSE LET i == MinOf(Occurrences(s, x))
       IN Take(s, i - 1) \o y \o SubstAll(Drop(s, i - 1 + Len(x)), x, y)
SubstFirst(s, x, y) ==
  IF ~HasSub(s, x) THEN s
  ELSE LET i == MinOf(Occurrences(s, x))
       IN Take(s, i - 1) \o y \o Drop(s, i - 1 + Len(x))

RECURSIVE Split(_, _)
Split(s, sep) ==
  IF ~HasSub(s, sep) THEN <<s>>
  ELSE LET i == MinOf(Occurrences(s, sep))
       IN <<Take(s, i - 1)>> \o Split(Drop(s, i - 1 + Len(sep)), sep)

Join(ss, sep) ==
  IF ss = <<>> THEN ""
  ELSE FoldLeft(LAMBDA a, b : a \o sep \o b, ss[1], Tail(ss))

DigitSeq == <<"0","1","2","3","4","5","6","7","8","9">>
LowerSeq == <<"a","b","c","d","e","f","g","h","i","j","k","l","m",
              "n","o","p","q","r","s","t","u","v","w","x","y","z">>
UpperSeq == <<"A","B","C","D","E","F","G","H","I","J","K","L","M",
              "N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Digits == ToSet(DigitSeq)
Lower  == ToSet(LowerSeq)
Upper  == ToSet(UpperSeq)
Alpha  == Lower \cup Upper
\* ASCII order of the printable characters (used for character ranges and sorting)
AsciiSeq == <<" ","!","\"","#","$","%","&","'","(",")","*","+",",","-",".","/">>
            \o DigitSeq \o <<":",";","<","=",">","?","@">> \o UpperSeq
            \o <<"[","\\","]","^","_","`">> \o LowerSeq \o <<"{","|","}","~">>
OrdF == [c \in ToSet(AsciiSeq) |-> CHOOSE i \in 1..Len(AsciiSeq) : AsciiSeq[i] = c]
Ord(c) == OrdF[c]
ChOf(o) == AsciiSeq[o]
LowerOf == [c \in ToSet(AsciiSeq) |->
              IF c \in Upper THEN LowerSeq[CHOOSE i \in 1..26 : UpperSeq[i] = c] ELSE c]
UpperOf == [c \in ToSet(AsciiSeq) |->
              IF c \in Lower THEN UpperSeq[CHOOSE i \in 1..26 : LowerSeq[i] = c] ELSE c]
ToLower(s) == Concat([i \in 1..Len(s) |-> LowerOf[Ch(s, i)]])
ToUpper(s) == Concat([i \in 1..Len(s) |-> UpperOf[Ch(s, i)]])

IsWordCh(c) == c \in Alpha \/ c \in Digits \/ c = "_"
AllCh(s, S) == \A i \in 1..Len(s) : Ch(s, i) \in S
DigitVal == [c \in Digits |-> (CHOOSE i \in 1..10 : DigitSeq[i] = c) - 1]
\* Decimal text of a natural number and back (callers check AllCh(s, Digits))
NatStr(n) == ToString(n)
RECURSIVE StrNat(_)
StrNat(s) == IF Len(s) = 0 THEN 0
             ELSE StrNat(Take(s, Len(s) - 1)) * 10 + DigitVal[Ch(s, Len(s))]
IsNat(s) == Len(s) > 0 /\ Len(s) <= 9 /\ AllCh(s, Digits)
\* Byte-wise lexicographic order
RECURSIVE StrLess(_, _)
StrLess(a, b) ==
  IF Len(b) = 0 THEN FALSE
  ELSE IF Len(a) = 0 THEN TRUE
  ELSE IF Ch(a, 1) = Ch(b, 1) THEN StrLess(Drop(a, 1), Drop(b, 1))
  ELSE Ord(Ch(a, 1)) < Ord(Ch(b, 1))
RECURSIVE CommonPrefix2(_, _)
CommonPrefix2(a, b) ==
  IF Len(a) = 0 \/ Len(b) = 0 \/ Ch(a, 1) # Ch(b, 1) THEN ""
  ELSE Ch(a, 1) \o CommonPrefix2(Drop(a, 1), Drop(b, 1))
CommonPrefix(ss) == IF ss = <<>> THEN "" ELSE FoldLeft(CommonPrefix2, ss[1], Tail(ss))

-----------------------------------------------------------------------------
(* Glob patterns: ? * [abc] [a-c] [!abc] {x,y} and \c.                      *)

\* Expand the {a,b} alternatives of a pattern (outside of [...] and \c).
\* Position of the matching close of the bracket opened at position i
RECURSIVE SkipClass(_, _)
SkipClass(p, i) == IF i > Len(p) THEN i ELSE IF Ch(p, i) = "]" THEN i ELSE SkipClass(p, i + 1)
ClassEnd(p, i) == \* p[i] = "["
  LET j == IF i + 1 <= Len(p) /\ Ch(p, i + 1) \in {"!", "^"} THEN i + 2 ELSE i + 1
      k == IF j <= Len(p) /\ Ch(p, j) = "]" THEN j + 1 ELSE j
  IN SkipClass(p, k)
\* First unescaped position >= i with depth 0 holding a character of S
RECURSIVE FindTop(_, _, _, _)
FindTop(p, i, d, S) ==
  IF i > Len(p) THEN 0
  ELSE LET c == Ch(p, i) IN
       IF d = 0 /\ c \in S THEN i
       ELSE IF c = "\\" THEN FindTop(p, i + 2, d, S)
       ELSE IF c = "[" THEN FindTop(p, ClassEnd(p, i) + 1, d, S)
       ELSE IF c = "{" THEN FindTop(p, i + 1, d + 1, S)
       ELSE IF c = "}" THEN FindTop(p, i + 1, d - 1, S)
       ELSE FindTop(p, i + 1, d, S)
RECURSIVE SplitTop(_)
SplitTop(p) == LET i == FindTop(p, 1, 0, {","})
               IN IF i = 0 THEN <<p>> ELSE <<Take(p, i - 1)>> \o SplitTop(Drop(p, i))
RECURSIVE BraceExpand(_)
BraceExpand(p) ==
  LET i == FindTop(p, 1, 0, {"{"}) IN
  IF i = 0 THEN {p}
  ELSE LET j == FindTop(p, i + 1, 0, {"}"}) IN
       IF j = 0 THEN {p}
       ELSE LET alts == SplitTop(SubSeq(p, i + 1, j - 1))
                \* an empty alternative is no alternative: {,x} is {x}
                full == {k \in 1..Len(alts) : BraceExpand(alts[k]) # {""}}
                heads == IF full = {} THEN {""} ELSE UNION {BraceExpand(alts[k]) : k \in full}
                tails == BraceExpand(Drop(p, j))
            IN {Take(p, i - 1) \o h \o t : h \in heads, t \in tails}

\* Tokens of a brace-free pattern
RECURSIVE ClassSet(_)
ClassSet(b) ==
  IF Len(b) = 0 THEN {}
  ELSE IF Len(b) >= 3 /\ Ch(b, 2) = "-"
       THEN {ChOf(o) : o \in Ord(Ch(b, 1))..Ord(Ch(b, 3))} \cup ClassSet(Drop(b, 3))
       ELSE {Ch(b, 1)} \cup ClassSet(Drop(b, 1))
RECURSIVE GlobTokens(_)
GlobTokens(p) ==
  IF Len(p) = 0 THEN <<>>
  ELSE LET c == Ch(p, 1) IN
       IF c = "*" THEN <<[k |-> "star", s |-> {}, neg |-> FALSE]>> \o GlobTokens(Drop(p, 1))
       ELSE IF c = "?" THEN <<[k |-> "one", s |-> {}, neg |-> TRUE]>> \o GlobTokens(Drop(p, 1))
       ELSE IF c = "\\" /\ Len(p) > 1
            THEN <<[k |-> "one", s |-> {Ch(p, 2)}, neg |-> FALSE]>> \o GlobTokens(Drop(p, 2))
       ELSE IF c = "["
            THEN LET e == ClassEnd(p, 1)
                     neg == Ch(p, 2) \in {"!", "^"}
                     b == SubSeq(p, IF neg THEN 3 ELSE 2, e - 1)
                 IN <<[k |-> "one", s |-> ClassSet(b), neg |-> neg]>> \o GlobTokens(Drop(p, e))
       ELSE <<[k |-> "one", s |-> {c}, neg |-> FALSE]>> \o GlobTokens(Drop(p, 1))

\* Positions 0..Len(s) reachable after consuming all tokens from position 0
GlobRun(toks, s) ==
  FoldLeft(LAMBDA S, t :
     IF S = {} THEN {}
     ELSE IF t.k = "star" THEN MinOf(S)..Len(s)
     ELSE {j + 1 : j \in {x \in S : x < Len(s) /\ ((Ch(s, x + 1) \in t.s) # t.neg)}},
     {0}, toks)
GlobMatch1(p, s) == Len(s) \in GlobRun(GlobTokens(p), s)
GlobMatch(p, s) == \E q \in BraceExpand(p) : GlobMatch1(q, s)
\* Lengths of the prefixes of s matched by the pattern
GlobPrefixLens(p, s) == UNION {GlobRun(GlobTokens(q), s) : q \in BraceExpand(p)}

\* `?~SPEC`: optional specification
IsOptional(spec) == StartsWith(spec, "?~")
SpecOf(spec) == IF IsOptional(spec) THEN Drop(spec, 2) ELSE spec

(* A name specification: a comma separated list of globs, or - as soon as   *)
(* it uses braces - a single glob.                                          *)
SubSpecs(spec) == IF HasSub(spec, "{") THEN <<spec>> ELSE Split(spec, ",")
Matches(name, spec) ==
  LET ss == SubSpecs(SpecOf(spec)) IN \E i \in 1..Len(ss) : GlobMatch(ss[i], name)
\* The first alternative of the specification that matches (callers know one does)
MatchSub(name, spec) ==
  LET ss == SubSpecs(spec)
  IN ss[MinOf({i \in 1..Len(ss) : GlobMatch(ss[i], name)})]

-----------------------------------------------------------------------------
(* Index token of a specification: FOO[1-3]_BAR, FOO?, FOO* ...             *)
(* Result <<li, ri>>: number of characters before and after the token,      *)
(* or <<>> when there is not exactly one token.                             *)
WordPct(c) == IsWordCh(c) \/ c = "%"
\* end position (last char) of a bracket token [..] starting at i, 0 if malformed
BracketTok(s, i) ==
  LET e == SkipClass(s, i + 1) IN
  IF e > Len(s) THEN 0
  ELSE LET b == SubSeq(s, i + 1, e - 1)
           parts == Split(b, "-")
           ok == /\ Len(parts) \in {1, 2}
                 /\ \/ \A k \in 1..Len(parts) : Len(parts[k]) > 0 /\ AllCh(parts[k], Digits)
                    \/ \A k \in 1..Len(parts) : Len(parts[k]) > 0 /\ AllCh(parts[k], Alpha)
       IN IF ok THEN e ELSE 0
RECURSIVE TokRun(_, _)
TokRun(s, i) == \* last position of the maximal run of tokens starting at i (i-1 when none)
  IF i > Len(s) THEN i - 1
  ELSE IF Ch(s, i) \in {"?", "*"} THEN TokRun(s, i + 1)
  ELSE IF Ch(s, i) = "["
       THEN LET e == BracketTok(s, i) IN IF e = 0 THEN i - 1 ELSE TokRun(s, e + 1)
  ELSE i - 1
SpecInd(spec0) ==
  LET spec == Split(spec0, ",")[1]
      starts == {i \in 1..Len(spec) : ~WordPct(Ch(spec, i))}
  IN IF starts = {} THEN <<>>
     ELSE LET li == MinOf(starts) - 1
              e == TokRun(spec, li + 1)
          IN IF e <= li THEN <<>>
             ELSE IF \A i \in (e + 1)..Len(spec) : WordPct(Ch(spec, i))
                  THEN <<li, Len(spec) - e>>
                  ELSE <<>>

\* Correct name of an element that may be an array
IsIdent(s) == Len(s) > 0 /\ ~(Ch(s, 1) \in Digits) /\ \A i \in 1..Len(s) : IsWordCh(Ch(s, i))
IsIdTail(s) == \A i \in 1..Len(s) : IsWordCh(Ch(s, i))
DimableName(s) ==
  \/ s = "%s"
  \/ StartsWith(s, "%s") /\ IsIdent(Drop(s, 2))
  \/ IsIdent(s)
  \/ EndsWith(s, "[%s]") /\ IsIdent(Take(s, Len(s) - 4))
  \/ \E i \in 2..(Len(s) - 1) : OccursAt(s, "%s", i) /\ IsIdent(Take(s, i - 1)) /\ IsIdTail(Drop(s, i + 1))
=============================================================================
