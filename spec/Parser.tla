------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* From texts to the abstract syntax of the supported path language.       *)
(*                                                                         *)
(* A path is [abs, steps].  A step is [rec, parts]; rec says that the step *)
(* follows '..'.  A part is one of                                         *)
(*   [p |-> "wild"]                                                        *)
(*   [p |-> "key", nm, ix]    member name, and the array position if any:  *)
(*                            a number, "none", or "bad" (not specified)   *)
(*   [p |-> "slice", a, b, c] expressions or None                          *)
(*   [p |-> "filter", x]      an expression                                *)
(* Expressions are [x |-> "lit", v], "path", "arr", "un", "bin", "call",   *)
(* "mcall" and "bit".                                                      *)
(*                                                                         *)
(* ParsePath(text).st is                                                   *)
(*   "ok"     the text is a supported path, .path is its syntax            *)
(*   "rej"    Parse must return an error                                   *)
(*   "unspec" the text is in the published grammar but outside the         *)
(*            documented language, or not known here                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, Num, Lexer, Grammar

None == [x |-> "none"]
NoIx == [k |-> "none"]

Fail == [ok |-> FALSE]
Res(i, v) == [ok |-> TRUE, i |-> i, v |-> v]

Lit(v) == [x |-> "lit", v |-> v]
KeyPart(nm, ix) == [p |-> "key", nm |-> nm, ix |-> ix]
WildPart == [p |-> "wild"]
Step(rec, parts) == [rec |-> rec, parts |-> parts]

StrVal(s) == IF StrKnown(s) THEN [k |-> "str", s |-> s] ELSE Bad

---------------------------------------------------------------------------
(* Keys *)

AllDigits(w) == w # <<>> /\ \A i \in 1..Len(w) : IsDigit(w[i])

\* The array position denoted by the text of a name: decimal integers only
PosOfText(w) ==
  IF w = <<>> THEN NoIx
  ELSE LET neg == w[1] = MINUS
           d == IF w[1] \in {MINUS, PLUS} THEN Tail(w) ELSE w
       IN IF ~AllDigits(d) THEN NoIx
          ELSE IF w[1] = PLUS \/ (Len(d) > 1 /\ d[1] = 48) \/ w = <<MINUS, 48>> THEN Bad
          ELSE LET n == StripLead(DigitVals(d))
               IN IF FitsInt(neg, n) THEN Canon(TRUE, neg, n, 0) ELSE NoIx

NameTypes == {"id", "str", "null", "bool"} \cup NumTypes
IsName(c, i) == TT(c.ty, i) \in NameTypes

TextOf(c, i) == SubSeq(c.s, c.tk[i].i, c.tk[i].j)

PosOfNum(n) == IF n.k = "bad" THEN Bad
               ELSE IF n.int THEN n
               ELSE IF ~Integral(n) THEN NoIx
               ELSE IF Mag(n) > 18 THEN NoIx ELSE Bad

\* the part denoted by the name or number at i, with a sign or <<>>
NamePart(c, i, sign) ==
  LET t == c.tk[i]
      w == TextOf(c, i)
  IN IF t.t = "str"
     THEN LET x == StrOf(c.s, t)
          IN IF StrKnown(x) THEN KeyPart(x, PosOfText(x)) ELSE [p |-> "bad"]
     ELSE IF t.t \in NumTypes
     THEN LET n == NumOf(c.s, t)
              m == PosOfNum(n)
          IN KeyPart(sign \o w,
                     IF m.k = "num" /\ sign = <<MINUS>> THEN Neg(m) ELSE m)
     ELSE KeyPart(w, NoIx)

---------------------------------------------------------------------------
(* Token positions: c is [s, tk, ty] *)

Skip(c, i) == IF TT(c.ty, i) = "sp" THEN i + 1 ELSE i

BinLevel(t) ==
  CASE t = "**" -> 12
    [] t \in {"*", "/", "%"} -> 11
    [] t \in {"+", "-"} -> 10
    [] t \in {"<", ">", "<=", ">="} -> 9
    [] t = "in" -> 8
    [] t \in {"==", "!=", "===", "!=="} -> 7
    [] t = "&" -> 6
    [] t = "^" -> 5
    [] t = "|" -> 4
    [] t = "&&" -> 3
    [] t = "||" -> 2
    [] OTHER -> 0

MkBin(op, l, r) == IF op \in {"&", "^", "|"} THEN [x |-> "bit", l |-> l, r |-> r]
                   ELSE [x |-> "bin", op |-> op, l |-> l, r |-> r]

RECURSIVE PExpr(_, _, _), PBinLoop(_, _, _, _), PUnary(_, _), PPrimary(_, _),
          PSteps(_, _, _, _), PBracket(_, _, _), PPart(_, _), PSlice(_, _, _),
          PBound(_, _), PArgs(_, _, _), PElems(_, _, _), PLitCall(_, _, _)

\* an expression whose operators are at least as tight as level
PExpr(c, i, level) ==
  LET l == PUnary(c, i)
  IN IF ~l.ok THEN Fail ELSE PBinLoop(c, l.i, level, l.v)

PBinLoop(c, i, level, left) ==
  LET j == Skip(c, i)
      t == TT(c.ty, j)
      n == BinLevel(t)
  IN IF n = 0 \/ n < level THEN Res(i, left)
     ELSE LET r == PExpr(c, Skip(c, j + 1), IF t = "**" THEN n ELSE n + 1)
          IN IF ~r.ok THEN Fail ELSE PBinLoop(c, r.i, level, MkBin(t, left, r.v))

PUnary(c, i) ==
  LET t == TT(c.ty, i)
  IN IF t \in PrefixOps
     THEN LET r == PUnary(c, Skip(c, i + 1))
          IN IF ~r.ok THEN Fail
             ELSE Res(r.i, IF t = "~" THEN [x |-> "bit", l |-> r.v, r |-> r.v]
                           ELSE [x |-> "un", op |-> t, e |-> r.v])
     ELSE PPrimary(c, i)

\* receiver.name(args) for receivers that are not paths
PLitCall(c, i, e) ==
  LET j == Skip(c, i)
      k == Skip(c, j + 1)
  IN IF TT(c.ty, j) # "." /\ TT(c.ty, i) # "(" THEN Res(i, e)
     ELSE IF TT(c.ty, j) = "." /\ TT(c.ty, k) = "id" /\ TT(c.ty, k + 1) = "("
     THEN LET a == PArgs(c, k + 2, <<>>)
          IN IF ~a.ok THEN Fail
             ELSE IF TT(c.ty, Skip(c, a.i)) \in {".", "..", "[", "("} THEN Fail
             ELSE Res(a.i, [x |-> "mcall", recv |-> e, nm |-> TextOf(c, k), args |-> a.v])
     ELSE Fail

\* after '(' or an argument's ','
PArgs(c, i, acc) ==
  IF TT(c.ty, i) = ")" THEN (IF acc = <<>> THEN Res(i + 1, acc) ELSE Fail)
  ELSE LET r == PExpr(c, i, 1)
       IN IF ~r.ok THEN Fail
          ELSE IF TT(c.ty, r.i) = ")" THEN Res(r.i + 1, Append(acc, r.v))
          ELSE IF TT(c.ty, r.i) = "," THEN PArgs(c, r.i + 1, Append(acc, r.v))
          ELSE Fail

\* after '[' or ',' and blanks
PElems(c, i, acc) ==
  IF TT(c.ty, i) = "]" THEN (IF acc = <<>> THEN Res(i + 1, acc) ELSE Fail)
  ELSE LET r == PExpr(c, i, 1)
           j == Skip(c, r.i)
       IN IF ~r.ok THEN Fail
          ELSE IF TT(c.ty, j) = "]" THEN Res(j + 1, Append(acc, r.v))
          ELSE IF TT(c.ty, j) = "," THEN PElems(c, Skip(c, j + 1), Append(acc, r.v))
          ELSE Fail

\* nothing that would continue a path or call
Ended(c, i) == /\ TT(c.ty, Skip(c, i)) \notin {".", "..", "["}
               /\ TT(c.ty, i) # "("

PPrimary(c, i) ==
  LET t == TT(c.ty, i) IN
  CASE t = "null" -> PLitCall(c, i + 1, Lit([k |-> "null"]))
    [] t = "bool" -> PLitCall(c, i + 1, Lit([k |-> "bool", b |-> TextOf(c, i)[1] = 116]))
    [] t = "str" -> PLitCall(c, i + 1, Lit(StrVal(StrOf(c.s, c.tk[i]))))
    [] t \in NumTypes -> PLitCall(c, i + 1, Lit(NumOf(c.s, c.tk[i])))
    [] t = "[" -> LET r == PElems(c, Skip(c, i + 1), <<>>)
                  IN IF r.ok THEN PLitCall(c, r.i, [x |-> "arr", es |-> r.v]) ELSE Fail
    [] t = "(" -> LET r == PExpr(c, i + 1, 1)
                  IN IF r.ok /\ TT(c.ty, r.i) = ")" THEN PLitCall(c, r.i + 1, r.v) ELSE Fail
    [] t = "id" -> IF TT(c.ty, i + 1) = "("
                   THEN LET a == PArgs(c, i + 2, <<>>)
                        IN IF a.ok /\ Ended(c, a.i)
                           THEN Res(a.i, [x |-> "call", nm |-> TextOf(c, i), args |-> a.v])
                           ELSE Fail
                   ELSE Fail
    [] t \in {"$", "@"} ->
         LET r == PSteps(c, i + 1, <<>>, FALSE)
         IN IF ~r.ok THEN Fail
            ELSE IF r.i > 0 /\ TT(c.ty, r.i) = "("
            THEN \* method call on the path without its last step
                 LET n == Len(r.v.steps)
                     a == PArgs(c, r.i + 1, <<>>)
                 IN IF r.v.meth /\ a.ok /\ Ended(c, a.i)
                    THEN Res(a.i, [x |-> "mcall",
                                   recv |-> [x |-> "path", abs |-> t = "$",
                                             steps |-> SubSeq(r.v.steps, 1, n - 1)],
                                   nm |-> r.v.steps[n].parts[1].nm, args |-> a.v])
                    ELSE Fail
            ELSE Res(r.i, [x |-> "path", abs |-> t = "$", steps |-> r.v.steps])
    [] OTHER -> Fail

\* the steps of a path from i; meth: the last step may be a method name
PSteps(c, i, acc, meth) ==
  LET j == Skip(c, i)
      t == TT(c.ty, j)
      k == Skip(c, j + 1)
      done == Res(i, [steps |-> acc, meth |-> meth])
      rec == t = ".."
      name(m, sign, signed) ==
        \* a step that is the name at m
        LET p == NamePart(c, m, sign)
        IN IF p.p = "bad" THEN Fail
           ELSE IF signed /\ ~Ended(c, m + 1) THEN Fail
           ELSE PSteps(c, m + 1, Append(acc, Step(rec, <<p>>)),
                       ~rec /\ c.ty[m] = "id")
  IN CASE t \in {".", ".."} /\ IsName(c, k) -> name(k, <<>>, FALSE)
       [] t \in {".", ".."} /\ TT(c.ty, k) = "*" ->
            PSteps(c, k + 1, Append(acc, Step(rec, <<WildPart>>)), FALSE)
       [] t \in {".", ".."} /\ TT(c.ty, k) \in {"-", "+"} /\ TT(c.ty, k + 1) \in NumTypes ->
            IF k = j + 1 THEN name(k + 1, IF c.ty[k] = "-" THEN <<MINUS>> ELSE <<PLUS>>, TRUE)
            ELSE Fail
       [] t = ".." /\ TT(c.ty, k) = "[" ->
            LET b == PBracket(c, Skip(c, k + 1), <<>>)
            IN IF b.ok THEN PSteps(c, b.i, Append(acc, Step(TRUE, b.v)), FALSE) ELSE Fail
       [] t = ".." /\ TT(c.ty, k) \in {"eof", "]", ")", ",", ":", "==", "!=", "<", ">", "&&", "||"} ->
            Res(j + 1, [steps |-> Append(acc, Step(TRUE, <<WildPart>>)), meth |-> FALSE])
       [] t \in {".", ".."} -> Fail
       [] t = "[" ->
            LET b == PBracket(c, Skip(c, j + 1), <<>>)
            IN IF b.ok THEN PSteps(c, b.i, Append(acc, Step(FALSE, b.v)), FALSE) ELSE Fail
       [] OTHER -> done

\* the parts of a bracket from i, after '[' or ',' and blanks
PBracket(c, i, acc) ==
  LET p == PPart(c, i)
      j == Skip(c, p.i)
  IN IF ~p.ok THEN Fail
     ELSE IF TT(c.ty, j) = "]" THEN Res(j + 1, Append(acc, p.v))
     ELSE IF TT(c.ty, j) = "," THEN PBracket(c, Skip(c, j + 1), Append(acc, p.v))
     ELSE Fail

PPart(c, i) ==
  LET t == TT(c.ty, i)
      sgn == t \in {"-", "+"}
      m == IF sgn THEN Skip(c, i + 1) ELSE i
  IN CASE t = "*" -> Res(i + 1, WildPart)
       [] t = "?(" -> LET r == PExpr(c, i + 1, 1)
                      IN IF r.ok /\ TT(c.ty, r.i) = ")"
                         THEN Res(r.i + 1, [p |-> "filter", x |-> r.v]) ELSE Fail
       [] t = ":" -> PSlice(c, i, None)
       [] (IF sgn THEN TT(c.ty, m) \in NumTypes ELSE IsName(c, i)) /\ TT(c.ty, m + 1) \in {",", "]", "sp"} ->
            LET p == NamePart(c, m, IF t = "-" THEN <<MINUS>> ELSE IF t = "+" THEN <<PLUS>> ELSE <<>>)
            IN IF p.p = "bad" THEN Fail ELSE Res(m + 1, p)
       [] OTHER -> LET b == PBound(c, i)
                   IN IF b.ok /\ TT(c.ty, b.i) = ":" THEN PSlice(c, b.i, b.v) ELSE Fail

\* i is at the first ':' of a slice that starts with a
PSlice(c, i, a) ==
  LET none(j) == TT(c.ty, j) \in {":", "]", ",", "sp"}
      b == IF none(i + 1) THEN Res(i + 1, None) ELSE PBound(c, i + 1)
  IN IF ~b.ok THEN Fail
     ELSE IF TT(c.ty, b.i) # ":" THEN Res(b.i, [p |-> "slice", a |-> a, b |-> b.v, c |-> None])
     ELSE LET s == IF none(b.i + 1) THEN Res(b.i + 1, None) ELSE PBound(c, b.i + 1)
          IN IF ~s.ok THEN Fail
             ELSE Res(s.i, [p |-> "slice", a |-> a, b |-> b.v, c |-> s.v])

\* a slice bound: an integer, a path, a call, or an expression in parentheses
PBound(c, i) ==
  LET t == TT(c.ty, i)
      m == IF t \in {"-", "+"} THEN Skip(c, i + 1) ELSE i
      r == IF TT(c.ty, m) \in NumTypes
           THEN LET n == Lit(NumOf(c.s, c.tk[m]))
                IN Res(m + 1, IF t \in {"-", "+"} THEN [x |-> "un", op |-> t, e |-> n] ELSE n)
           ELSE IF t \in {"@", "$", "(", "id"} THEN PPrimary(c, i)
           ELSE Fail
  IN IF r.ok /\ TT(c.ty, r.i) \in {":", "]", ",", "sp"} THEN r ELSE Fail

---------------------------------------------------------------------------
(* Expressions that use operators the library does not implement *)

RECURSIVE HasBit(_), StepsHaveBit(_)
HasBit(e) ==
  CASE e.x = "bit" -> TRUE
    [] e.x = "un" -> HasBit(e.e)
    [] e.x = "bin" -> HasBit(e.l) \/ HasBit(e.r)
    [] e.x = "arr" -> \E i \in 1..Len(e.es) : HasBit(e.es[i])
    [] e.x = "call" -> \E i \in 1..Len(e.args) : HasBit(e.args[i])
    [] e.x = "mcall" -> HasBit(e.recv) \/ \E i \in 1..Len(e.args) : HasBit(e.args[i])
    [] e.x = "path" -> StepsHaveBit(e.steps)
    [] OTHER -> FALSE
StepsHaveBit(ss) ==
  \E i \in 1..Len(ss) : \E j \in 1..Len(ss[i].parts) :
    LET p == ss[i].parts[j] IN
    \/ p.p = "filter" /\ HasBit(p.x)
    \/ p.p = "slice" /\ (HasBit(p.a) \/ HasBit(p.b) \/ HasBit(p.c))

---------------------------------------------------------------------------
(* Simple paths: '/' name '/' name ... *)

RECURSIVE PSimple(_, _, _)
PSimple(c, i, acc) ==       \* i: where a component starts
  LET p == IF TT(c.ty, i) = "*" THEN WildPart
           ELSE IF IsName(c, i) THEN NamePart(c, i, <<>>) ELSE [p |-> "bad"]
      j == Skip(c, i + 1)
      st == Append(acc, Step(FALSE, <<p>>))
  IN IF p.p = "bad" THEN Fail
     ELSE IF TT(c.ty, j) = "eof" THEN Res(j, st)
     ELSE IF TT(c.ty, j) = "/" THEN PSimple(c, Skip(c, j + 1), st)
     ELSE Fail

---------------------------------------------------------------------------

POk(abs, steps) == [st |-> "ok", path |-> [abs |-> abs, steps |-> steps]]
PRej == [st |-> "rej"]
PUnspec == [st |-> "unspec"]

\* operators of the grammar that the library does not implement
NotImplemented == {"&", "^", "|", "~"}
\* the outcome for a text that is not in the supported language.  Signs are
\* left out: '$.-1[~2]' has a step that starts with a sign, which the library
\* takes as the text of a name
Beyond(in, ty) ==
  LET has(S) == \E i \in 1..Len(ty) : ty[i] \in S
  IN IF in /\ (~has(NotImplemented) \/ has({"+", "-"})) THEN PUnspec ELSE PRej

ParsePath(s) ==
  LET lx == Lex(s)
      ty == Map(LAMBDA t : t.t, lx.toks)
      c == [s |-> s, tk |-> lx.toks, ty |-> ty]
  IN IF lx.st = "rej" THEN PRej
     ELSE IF lx.st = "unspec" THEN PUnspec
     ELSE IF s = <<SLASH>> THEN POk(TRUE, <<>>)
     ELSE IF ty = <<>> THEN PRej
     ELSE IF ty[1] = "/"
     THEN LET r == PSimple(c, 2, <<>>)
          IN IF r.ok THEN POk(TRUE, r.v) ELSE Beyond(InSimplePath(ty), ty)
     ELSE IF ty[1] \notin {"$", "@"} THEN Beyond(InPath(ty), ty)
     ELSE LET r == PSteps(c, 2, <<>>, FALSE)
          IN IF ~r.ok \/ TT(ty, Skip(c, r.i)) # "eof" THEN Beyond(InPath(ty), ty)
             ELSE IF StepsHaveBit(r.v.steps) THEN PRej
             ELSE POk(ty[1] = "$", r.v.steps)
============================================================================
