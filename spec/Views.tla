-------------------------------- MODULE Views -------------------------------
(***************************************************************************)
(* Elements of a device as the tools show them: instances of arrays, their  *)
(* names, descriptions and places, and texts of descriptions.               *)
(***************************************************************************)
EXTENDS SvdData

\* texts with every run of white space made one space
IsSpace(c) == c \in {" ", "\t", "\n", "\r", "\f"}
Words(s) ==
  LET n == Len(s)
      starts == {i \in 1..n : ~IsSpace(Ch(s, i)) /\ (IF i = 1 THEN TRUE ELSE IsSpace(Ch(s, i - 1)))}
      ends == {i \in 1..n : ~IsSpace(Ch(s, i)) /\ (IF i = n THEN TRUE ELSE IsSpace(Ch(s, i + 1)))}
      order == SetToSortSeq(starts, LAMBDA a, b : a < b)
  IN [k \in 1..Len(order) |-> SubSeq(s, order[k], MinOf({e \in ends : e >= order[k]}))]
Squeeze(o) == IF o = None THEN "" ELSE Join(Words(o[1]), " ")

-----------------------------------------------------------------------------
(* Instances of an array: index texts, names, descriptions, display names    *)
Subst(s, i) == SubstAll(SubstAll(s, "[%s]", i), "%s", i)
Named(dim, i) == \* the enumerated value of the index, if there is one
  IF dim.ai = None THEN {}
  ELSE {k \in 1..Len(dim.ai[1].vals) : LET v == dim.ai[1].vals[k].v IN IF v = None THEN FALSE ELSE WDec(v[1]) = i}
InstName(x, i) ==
  LET d == x.dim[1] K == Named(d, i) IN IF K = {} THEN Subst(x.n, i) ELSE d.ai[1].vals[MinOf(K)].n
InstDesc(x, i) ==
  LET d == x.dim[1] K == Named(d, i)
      own == IF x.d = None THEN None ELSE Some(Subst(x.d[1], i))
  IN IF K = {} THEN own
     ELSE IF d.ai[1].vals[MinOf(K)].d # None THEN d.ai[1].vals[MinOf(K)].d ELSE own
InstDisp(x, i) == IF x.dn = None THEN None ELSE Some(Subst(x.dn[1], i))
NamesOf(x) == IF x.dim = None THEN <<x.n>> ELSE [k \in 1..Len(Indexes(x.dim[1])) |-> InstName(x, Indexes(x.dim[1])[k])]
\* only as many as both the indexes and the number of elements give
CountOf(x) == IF x.dim = None THEN 1 ELSE IF Len(Indexes(x.dim[1])) < x.dim[1].n THEN Len(Indexes(x.dim[1])) ELSE x.dim[1].n
IncOf(x) == IF x.dim = None THEN 0 ELSE x.dim[1].inc
\* the k-th instance (from 1) of a register, cluster or field
Inst(x, k) ==
  IF x.dim = None THEN x
  ELSE LET i == Indexes(x.dim[1])[k]
           y == [x EXCEPT !.n = InstName(x, i), !.d = InstDesc(x, i), !.dim = None, !.off = x.off + (k - 1) * IncOf(x)]
       IN IF "dn" \in DOMAIN x THEN [y EXCEPT !.dn = InstDisp(x, i)] ELSE y
InstPer(p, k) ==
  IF p.dim = None THEN p
  ELSE LET i == Indexes(p.dim[1])[k]
       IN [p EXCEPT !.n = InstName(p, i), !.d = InstDesc(p, i), !.dim = None, !.dn = InstDisp(p, i),
                    !.base = WAdd(p.base, WOf((k - 1) * IncOf(p)))]
Insts(x) == [k \in 1..CountOf(x) |-> Inst(x, k)]
InstPers(p) == [k \in 1..CountOf(p) |-> InstPer(p, k)]
KidsOfPer(p) == IF p.regs = None THEN <<>> ELSE p.regs[1]
FieldsOf(r) == IF r.fs = None THEN <<>> ELSE r.fs[1]
Flat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)

Count3(S, P(_)) == Cardinality({i \in 1..Len(S) : P(S[i])})
\* the sequences hold the same elements equally often
SameElements(s, t) ==
  /\ Len(s) = Len(t)
  /\ LET el == ToSet(s) IN
     /\ el = ToSet(t)
     /\ (Cardinality(el) = Len(s) \/
         \A x \in el : Count3(s, LAMBDA y : y = x) = Count3(t, LAMBDA y : y = x))
SortedTexts(s) == \A i \in 1..(Len(s) - 1) : s[i] = s[i + 1] \/ StrLess(s[i], s[i + 1])
=============================================================================
