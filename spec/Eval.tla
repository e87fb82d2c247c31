-------------------------------- MODULE Eval --------------------------------
(***************************************************************************)
(* The meaning of paths and filter expressions over documents.             *)
(*                                                                         *)
(* A document node is a record with an identity "id" and                   *)
(*   k = "null" | "bool" (b) | "num" (int, neg, ds, e) | "str" (s)         *)
(*   k = "arr" with elements vs                                            *)
(*   k = "obj" with members vs[i] named ks[i], in the order of the model   *)
(*                                                                         *)
(* Nodes(root, path) is the sequence of nodes a path selects, in the order *)
(* they are reported; .b says that the selection depends on something this *)
(* specification leaves open.                                              *)
(*                                                                         *)
(* Expression values are scalars, [k |-> "node", n] for a path that        *)
(* selects exactly one node, [k |-> "list", vs, lit] for array literals    *)
(* and other paths, Bad and Err (call of an unknown function).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Num, Lexer, Parser

NullV == [k |-> "null"]
BoolV(x) == [k |-> "bool", b |-> x]
ErrV == [k |-> "err"]
NodeV(n) == [k |-> "node", n |-> n]
NaNV == [k |-> "nan"]
\* truth of 0, 1, or 2 (open)
TriV(t) == IF t = 2 THEN Bad ELSE BoolV(t = 1)

Containers == {"obj", "arr"}
Kids(n) == IF n.k \in Containers THEN n.vs ELSE <<>>

\* scalar nodes stand for their value
GetVal(v) == IF v.k = "node" /\ v.n.k \notin Containers THEN v.n ELSE v

---------------------------------------------------------------------------
(* Numeric strings *)

InSet(w, S) == \A i \in 1..Len(w) : w[i] \in S
Upper(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
\* letters that occur in no number syntax: G H J K L M Q R S U V W Z
NeverNum == {71, 72, 74, 75, 76, 77, 81, 82, 83, 85, 86, 87, 90}

RECURSIVE SpanDigits(_, _)
SpanDigits(w, i) == IF i <= Len(w) /\ IsDigit(w[i]) THEN SpanDigits(w, i + 1) ELSE i

\* position after digits[.digits][e[sign]digits] starting at i, or 0
StrictNum(w, i) ==
  LET a == SpanDigits(w, i)
      b == IF At(w, a) = DOT THEN SpanDigits(w, a + 1) ELSE a
      k == IF At(w, b) \in {69, 101}
           THEN IF At(w, b + 1) \in {PLUS, MINUS} THEN b + 2 ELSE b + 1
           ELSE 0
      d == IF k = 0 \/ k > Len(w) THEN 0 ELSE SpanDigits(w, k)
  IN IF a = i \/ (b # a /\ b = a + 1) THEN 0
     ELSE IF k = 0 THEN b
     ELSE IF d = 0 \/ d = k THEN 0 ELSE d

NumericString(w) ==
  LET neg == w[1] = MINUS
      i == IF w[1] \in {MINUS, PLUS} THEN 2 ELSE 1
      body == SubSeq(w, i, Len(w))
      n == DecOf(body)
  IN IF w = <<>> THEN NaNV
     ELSE IF \E j \in 1..Len(w) :
               \/ ~(IsDigit(w[j]) \/ IsAlpha(w[j]) \/ w[j] \in {PLUS, MINUS, DOT, USC})
               \/ Upper(w[j]) \in NeverNum
          THEN NaNV
     ELSE IF body # <<>> /\ StrictNum(w, i) = Len(w) + 1
          THEN IF w[1] = PLUS THEN Bad
               ELSE IF AllDigits(body) /\ ~FitsInt(neg, StripLead(DigitVals(body)))
                    THEN Canon(FALSE, neg, DigitVals(body), 0)
               ELSE IF AllDigits(body) THEN Canon(TRUE, neg, DigitVals(body), 0)
               ELSE IF neg THEN Neg(n) ELSE n
     ELSE IF body # <<>> /\ IsAlpha(body[1]) /\ Upper(body[1]) \notin {73, 78} THEN NaNV
     ELSE IF body = <<>> THEN NaNV
     ELSE Bad

\* the number an operand stands for; NaNV if none
ToNum(v0) ==
  LET v == GetVal(v0) IN
  CASE v.k \in {"bad", "err", "num"} -> v
    [] v.k = "bool" -> IF v.b THEN IntNum(1) ELSE IntNum(0)
    [] v.k = "str" -> NumericString(v.s)
    [] OTHER -> NaNV

---------------------------------------------------------------------------
(* Truth, equality, order *)

Truth(v0) ==
  LET v == GetVal(v0) IN
  CASE v.k = "bad" -> 2
    [] v.k = "err" -> 0
    [] v.k = "bool" -> IF v.b THEN 1 ELSE 0
    [] v.k = "num" -> IF IsZero(v) THEN 0 ELSE IF Mag(v) < -300 THEN 2 ELSE 1
    [] v.k = "str" -> IF v.s = <<>> THEN 0 ELSE 1
    [] v.k = "null" -> IF v0.k = "node" THEN 1 ELSE 0
    [] v.k = "node" -> 1
    [] v.k = "list" -> IF v.vs # <<>> THEN 1 ELSE IF v.lit THEN 2 ELSE 0

EqT(l0, r0) ==
  LET l == GetVal(l0)
      r == GetVal(r0)
  IN IF l.k = "bad" \/ r.k = "bad" THEN 2
     ELSE IF l.k # r.k THEN 0
     ELSE CASE l.k = "null" -> 1
            [] l.k = "bool" -> IF l.b = r.b THEN 1 ELSE 0
            [] l.k = "str" -> IF l.s = r.s THEN 1 ELSE 0
            [] l.k = "num" -> LET c == NumCmp(l, r)
                              IN IF c = 2 THEN 2 ELSE IF c = 0 THEN 1 ELSE 0
            [] OTHER -> 0

\* -1, 0, 1; 2 open; 3 not comparable
OrdT(l0, r0) ==
  LET l == GetVal(l0)
      r == GetVal(r0)
      ln == ToNum(l)
      rn == ToNum(r)
  IN IF l.k = "bad" \/ r.k = "bad" THEN 2
     ELSE IF l.k \in {"node", "list"} \/ r.k \in {"node", "list"} THEN 3
     ELSE IF l.k = "null" \/ r.k = "null"
          THEN IF l.k = r.k THEN 0 ELSE IF l.k = "null" THEN -1 ELSE 1
     ELSE IF l.k = "str" /\ r.k = "str" THEN SeqCmp(l.s, r.s)
     ELSE IF ln.k = "nan" \/ rn.k = "nan" THEN 3
     ELSE IF ln.k = "bad" \/ rn.k = "bad" THEN 2
     ELSE NumCmp(ln, rn)

RelT(op, l, r) ==
  LET c == OrdT(l, r) IN
  IF c = 2 THEN 2
  ELSE IF c = 3 THEN 0
  ELSE IF CASE op = "<" -> c < 0
            [] op = "<=" -> c <= 0
            [] op = ">" -> c > 0
            [] op = ">=" -> c >= 0
       THEN 1 ELSE 0

RECURSIVE AnyEq(_, _, _, _)
AnyEq(l, ms, i, open) ==
  IF i > Len(ms) THEN IF open THEN 2 ELSE 0
  ELSE LET t == EqT(l, ms[i])
       IN IF t = 1 THEN 1 ELSE AnyEq(l, ms, i + 1, open \/ t = 2)

Members(r0) ==
  LET r == GetVal(r0) IN
  CASE r.k = "null" -> <<>>
    [] r.k = "list" -> r.vs
    [] r.k = "node" /\ r.n.k = "arr" -> Map(NodeV, r.n.vs)
    [] OTHER -> <<r>>

InT(l, r) == IF l.k = "bad" \/ GetVal(r).k = "bad" THEN 2
             ELSE AnyEq(l, Members(r), 1, FALSE)

Arith(op, l, r) ==
  LET a == ToNum(l)
      b == ToNum(r)
  IN IF a.k = "bad" \/ b.k = "bad" THEN Bad
     ELSE IF a.k = "nan" \/ b.k = "nan" THEN NullV
     ELSE CASE op = "+" -> NumAdd(a, b)
            [] op = "-" -> NumSub(a, b)
            [] op = "*" -> NumMul(a, b)
            [] op = "**" -> NumPow(a, b)
            [] op = "/" -> IF IsZero(b) THEN NullV ELSE NumDiv(a, b)
            [] op = "%" -> IF IsZero(b) THEN NullV ELSE NumMod(a, b)

LengthV(v) ==
  CASE v.k \in {"bad", "err"} -> v
    [] v.k = "node" /\ v.n.k = "arr" -> IntNum(Len(v.n.vs))
    [] v.k = "list" -> IntNum(Len(v.vs))
    [] OTHER -> IntNum(0)

LENGTH == <<108, 101, 110, 103, 116, 104>>

---------------------------------------------------------------------------
(* Slices: the positions (from 1) that Python's a[s:e:st] selects in an    *)
(* array of n elements.  Bounds are <<integer>>, or <<>> if missing.        *)

PySlice(n, s, e, st) ==
  LET step == IF st = <<>> THEN 1 ELSE st[1]
      low == IF step < 0 THEN -1 ELSE 0
      high == IF step < 0 THEN n - 1 ELSE n
      lim(x, dflt) == IF x = <<>> THEN dflt
                      ELSE LET y == IF x[1] < 0 THEN x[1] + n ELSE x[1]
                           IN IF y < low THEN low ELSE IF y > high THEN high ELSE y
      from == lim(s, IF step < 0 THEN high ELSE low)
      to == lim(e, IF step < 0 THEN low ELSE high)
      cnt == IF step > 0 THEN IF from < to THEN (to - from - 1) \div step + 1 ELSE 0
             ELSE IF to < from THEN (from - to - 1) \div (-step) + 1 ELSE 0
  IN IF step = 0 THEN <<>> ELSE MapN(LAMBDA i : from + (i - 1) * step + 1, cnt)

---------------------------------------------------------------------------
(* Paths *)

Sel(b, s) == [b |-> b, s |-> s]
Iota(n) == MapN(LAMBDA i : i, n)
SeqSet(s) == {s[i] : i \in 1..Len(s)}

Catenate(x, y) == [b |-> x.b \/ y.b, r |-> x.r \o y.r]
CatAll(b, ws) == [b |-> b \/ \E i \in 1..Len(ws) : ws[i].b,
                  r |-> FoldLeft(LAMBDA a, w : a \o w.r, <<>>, ws)]
NoItems == [b |-> FALSE, r |-> <<>>]
Kid(it, j) == [n |-> it.n.vs[j], p |-> Append(it.p, j)]

RECURSIVE Ev(_, _, _), EvSeq(_, _, _, _, _), FilterPos(_, _, _),
          PartPos(_, _, _), StepPos(_, _, _), Walk(_, _, _, _), Descend(_, _, _, _)

\* R: document root, C: current node
Ev(e, R, C) ==
  CASE e.x = "lit" -> e.v
    [] e.x = "path" ->
         LET w == Walk(R, [n |-> IF e.abs THEN R ELSE C, p |-> <<>>], e.steps, 1)
         IN IF w.b THEN Bad
            ELSE IF Len(w.r) = 1 THEN NodeV(w.r[1].n)
            ELSE [k |-> "list", lit |-> FALSE, vs |-> Map(LAMBDA x : NodeV(x.n), w.r)]
    [] e.x = "arr" -> EvSeq(e.es, R, C, 1, <<>>)
    [] e.x = "un" ->
         LET v == Ev(e.e, R, C)
             n == ToNum(v)
         IN IF v.k \in {"bad", "err"} THEN v
            ELSE IF e.op = "!" THEN LET t == Truth(v) IN TriV(IF t = 2 THEN 2 ELSE 1 - t)
            ELSE IF n.k = "nan" THEN NullV
            ELSE IF n.k = "bad" THEN Bad
            ELSE IF e.op # "-" THEN n
            ELSE IF n.int /\ ~FitsInt(~n.neg, IntDigits(n)) THEN Bad ELSE Neg(n)
    [] e.x = "call" ->
         IF e.nm # LENGTH THEN ErrV
         ELSE IF Len(e.args) # 1 THEN Bad ELSE LengthV(Ev(e.args[1], R, C))
    [] e.x = "mcall" ->
         IF e.nm # LENGTH THEN ErrV
         ELSE IF Len(e.args) # 0 THEN Bad ELSE LengthV(Ev(e.recv, R, C))
    [] e.x = "bin" /\ e.op = "&&" ->
         LET l == Ev(e.l, R, C)
             t == Truth(l)
             r == Ev(e.r, R, C)
         IN IF l.k = "err" THEN l
            ELSE IF t = 2 THEN Bad
            ELSE IF t = 0 THEN BoolV(FALSE)
            ELSE IF r.k = "err" THEN r ELSE TriV(Truth(r))
    [] e.x = "bin" /\ e.op = "||" ->
         LET l == Ev(e.l, R, C)
             t == Truth(l)
             r == Ev(e.r, R, C)
         IN IF l.k = "err" THEN Bad
            ELSE IF t = 2 THEN Bad
            ELSE IF t = 1 THEN BoolV(TRUE)
            ELSE IF r.k = "err" THEN r ELSE TriV(Truth(r))
    [] e.x = "bin" ->
         LET l == Ev(e.l, R, C)
             r == Ev(e.r, R, C)
             t == EqT(l, r)
         IN IF l.k = "err" \/ r.k = "err" THEN ErrV
            ELSE CASE e.op \in {"==", "==="} -> TriV(t)
                   [] e.op \in {"!=", "!=="} -> TriV(IF t = 2 THEN 2 ELSE 1 - t)
                   [] e.op \in {"<", "<=", ">", ">="} -> TriV(RelT(e.op, l, r))
                   [] e.op = "in" -> TriV(InT(l, r))
                   [] OTHER -> Arith(e.op, l, r)
    [] OTHER -> Bad

EvSeq(es, R, C, i, acc) ==
  IF i > Len(es) THEN [k |-> "list", lit |-> TRUE, vs |-> acc]
  ELSE LET v == Ev(es[i], R, C)
       IN IF v.k = "err" THEN v ELSE EvSeq(es, R, C, i + 1, Append(acc, v))

\* The filter with the subexpressions that do not depend on @ replaced by
\* their values: x means the same for every child as Fixed(x, R)
RECURSIVE Relative(_)
Relative(e) ==
  CASE e.x = "lit" -> FALSE
    [] e.x = "path" -> ~e.abs
    [] e.x = "un" -> Relative(e.e)
    [] e.x = "bin" -> Relative(e.l) \/ Relative(e.r)
    [] e.x = "arr" -> \E i \in 1..Len(e.es) : Relative(e.es[i])
    [] e.x = "call" -> \E i \in 1..Len(e.args) : Relative(e.args[i])
    [] e.x = "mcall" -> Relative(e.recv) \/ \E i \in 1..Len(e.args) : Relative(e.args[i])
    [] OTHER -> FALSE
RECURSIVE Fixed(_, _)
Fixed(e, R) ==
  IF e.x = "lit" THEN e
  ELSE IF ~Relative(e) THEN Lit(Ev(e, R, R))
  ELSE IF e.x = "un" THEN [e EXCEPT !.e = Fixed(@, R)]
  ELSE IF e.x = "bin" THEN [e EXCEPT !.l = Fixed(@, R), !.r = Fixed(@, R)]
  ELSE e

\* the children of n for which the filter x is true
FilterPos(x, R, n) ==
  LET t == Map(LAMBDA c : Truth(Ev(x, R, c)), Kids(n))
      js == Iota(Len(Kids(n)))
  IN Sel(\E j \in 1..Len(t) : t[j] = 2, SelectSeq(js, LAMBDA j : t[j] # 0))

\* the children of n that a part selects, as positions, in its order
PartPos(p, R, n) ==
  CASE p.p = "wild" -> Sel(FALSE, Iota(Len(Kids(n))))
    [] p.p = "key" /\ n.k = "obj" ->
         LET js == {j \in 1..Len(n.ks) : n.ks[j] = p.nm}
         IN Sel(FALSE, IF js = {} THEN <<>> ELSE <<CHOOSE j \in js : TRUE>>)
    [] p.p = "key" /\ n.k = "arr" ->
         IF p.ix.k = "none" THEN Sel(FALSE, <<>>)
         ELSE IF p.ix.k = "bad" THEN Sel(TRUE, <<>>)
         ELSE LET i == Clamp(p.ix)
                  j == IF i < 0 THEN i + Len(n.vs) ELSE i
              IN Sel(FALSE, IF j >= 0 /\ j < Len(n.vs) THEN <<j + 1>> ELSE <<>>)
    [] p.p = "slice" /\ n.k = "arr" ->
         LET val(x) == IF x.x = "none" THEN x ELSE ToNum(Ev(x, R, n))
             a == val(p.a)
             b == val(p.b)
             c == val(p.c)
             no(v) == "k" \in DOMAIN v /\ v.k \in {"nan", "err"}   \* not a number
             okb(v) == IF "x" \in DOMAIN v THEN TRUE ELSE v.k = "num" /\ Integral(v)
             int(v) == IF "x" \in DOMAIN v THEN <<>> ELSE <<Clamp(v)>>
         IN IF no(a) \/ no(b) \/ no(c) THEN Sel(FALSE, <<>>)
            ELSE IF ~okb(a) \/ ~okb(b) \/ ~okb(c) THEN Sel(TRUE, <<>>)
            ELSE Sel(FALSE, PySlice(Len(n.vs), int(a), int(b), int(c)))
    [] p.p = "filter" -> FilterPos(IF Len(Kids(n)) > 1 THEN Fixed(p.x, R) ELSE p.x, R, n)
    [] OTHER -> Sel(FALSE, <<>>)

StepPos(st, R, n) ==
  IF Len(st.parts) = 1 THEN PartPos(st.parts[1], R, n)
  ELSE \* the union of the parts, in document order
       LET x == Map(LAMBDA p : PartPos(p, R, n), st.parts)
           all == UNION {SeqSet(x[i].s) : i \in 1..Len(x)}
       IN Sel(\E i \in 1..Len(x) : x[i].b,
              SelectSeq(Iota(Len(Kids(n))), LAMBDA j : j \in all))

\* the nodes selected by steps i, i+1, ... from the item it
Walk(R, it, steps, i) ==
  IF i > Len(steps) THEN [b |-> FALSE, r |-> <<it>>]
  ELSE IF steps[i].rec THEN Descend(R, it, steps, i)
  ELSE LET x == StepPos(steps[i], R, it.n)
           ws == Map(LAMBDA j : Walk(R, Kid(it, j), steps, i + 1), x.s)
       IN IF i = Len(steps) THEN [b |-> x.b, r |-> Map(LAMBDA j : Kid(it, j), x.s)]
          ELSE CatAll(x.b, ws)

\* every descendant that the step selects from its own parent
Descend(R, it, steps, i) ==
  LET x == StepPos(steps[i], R, it.n)
      pos == SeqSet(x.s)
      ws == MapN(LAMBDA j :
               LET k == Kid(it, j)
                   here == IF j \in pos THEN Walk(R, k, steps, i + 1) ELSE NoItems
               IN Catenate(here, Descend(R, k, steps, i)), Len(Kids(it.n)))
  IN CatAll(x.b, ws)

Select(R, path) == Walk(R, [n |-> R, p |-> <<>>], path.steps, 1)
Ids(w) == Map(LAMBDA x : x.n.id, w.r)
Paths(w) == Map(LAMBDA x : x.p, w.r)
============================================================================
