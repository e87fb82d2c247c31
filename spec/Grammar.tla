------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* The published grammar (Jsonpath.g4) as a recogniser: which sequences of *)
(* token types are in the language, with blanks ("sp") only where the      *)
(* grammar has them.  The table Tab[i] gives, for every position i, the    *)
(* set of positions just after the expressions that start at i; it is      *)
(* computed from the end of the text.                                      *)
(*                                                                         *)
(* The grammar's left recursive "expression" rule derives                  *)
(*     prefix* primary postfix* [infix expression]                         *)
(* whatever the precedences are.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Num

PrefixOps == {"+", "-", "~", "!"}
InfixOps == {".", "..", "**", "*", "/", "%", "+", "-", "<", ">", "<=", ">=",
             "in", "==", "!=", "===", "!==", "&", "^", "|", "&&", "||"}
Primaries == {"null", "bool", "dec", "hex", "oct", "bin", "str", "id", "$", "@", "*"}

TT(ty, i) == IF i <= Len(ty) THEN ty[i] ELSE "eof"
Sp(ty, i) == IF TT(ty, i) = "sp" THEN {i, i + 1} ELSE {i}
SpS(ty, S) == UNION {Sp(ty, i) : i \in S}
Eat(ty, t, S) == {i + 1 : i \in {j \in S : TT(ty, j) = t}}
\* T is the table: T[i] for i above the current position, up to Len(ty)+1
Exprs(T, S) == UNION {T[i] : i \in S}

\* (expression)? ':' (expression)? ((':')? (expression)?)
SliceEnds(ty, T, i) ==
  LET s0 == {i} \cup T[i]
      s1 == Eat(ty, ":", s0)
      s2 == s1 \cup Exprs(T, s1)
      s3 == s2 \cup Eat(ty, ":", s2)
  IN s3 \cup Exprs(T, s3)
IndexEnds(ty, T, S) == UNION {SliceEnds(ty, T, i) \cup T[i] : i \in S}

RECURSIVE IndexListR(_, _, _)
IndexListR(ty, T, S) ==     \* S: positions after an index expression
  IF S = {} THEN {}
  ELSE Eat(ty, "]", SpS(ty, S))
       \cup IndexListR(ty, T, IndexEnds(ty, T, SpS(ty, Eat(ty, ",", SpS(ty, S)))))
\* i is the position after '['
BracketEnds(ty, T, i) == IndexListR(ty, T, IndexEnds(ty, T, Sp(ty, i)))

RECURSIVE CommasR(_, _)
CommasR(ty, S) == LET n == Eat(ty, ",", S) IN IF n = {} THEN {} ELSE n \cup CommasR(ty, n)
Commas1(ty, S) == CommasR(ty, S)
Commas0(ty, S) == S \cup CommasR(ty, S)

RECURSIVE ElemsR(_, _, _)
ElemsR(ty, T, S) ==
  IF S = {} THEN {}
  ELSE S \cup ElemsR(ty, T, Exprs(T, SpS(ty, Commas1(ty, SpS(ty, S)))))
\* i is the position after '['
ArrayEnds(ty, T, i) ==
  LET a == SpS(ty, Commas0(ty, Sp(ty, i)))
      b == ElemsR(ty, T, a \cup Exprs(T, a))
  IN Eat(ty, "]", SpS(ty, Commas0(ty, b)))

RECURSIVE ArgsR(_, _, _)
ArgsR(ty, T, S) ==          \* S: positions after an argument
  IF S = {} THEN {}
  ELSE LET c == Eat(ty, ",", S)
       IN Eat(ty, ")", S) \cup Eat(ty, ")", c) \cup ArgsR(ty, T, Exprs(T, c))
\* i is the position after '('
ArgEnds(ty, T, i) == Eat(ty, ")", {i}) \cup ArgsR(ty, T, T[i])

PrimaryEnds(ty, T, i) ==
  LET t == TT(ty, i) IN
  CASE t \in Primaries -> {i + 1}
    [] t \in {"(", "?("} -> Eat(ty, ")", T[i + 1])
    [] t = "[" -> ArrayEnds(ty, T, i + 1)
    [] OTHER -> {}

PostfixEnds(ty, T, i) ==
  LET b == Sp(ty, i)
      d == Eat(ty, "..", b)
  IN (IF TT(ty, i) = "(" THEN ArgEnds(ty, T, i + 1) ELSE {})
     \cup UNION {BracketEnds(ty, T, j) : j \in Eat(ty, "[", b \cup SpS(ty, d))}
     \cup d

RECURSIVE PostfixClosure(_, _, _)
PostfixClosure(ty, T, S) ==
  IF S = {} THEN {}
  ELSE S \cup PostfixClosure(ty, T, UNION {PostfixEnds(ty, T, i) : i \in S})

InfixEnds(ty, T, S) ==
  LET o == {i + 1 : i \in {j \in SpS(ty, S) : TT(ty, j) \in InfixOps}}
  IN Exprs(T, SpS(ty, o))

ExprEnds(ty, T, i) ==
  IF TT(ty, i) \in PrefixOps THEN Exprs(T, Sp(ty, i + 1))
  ELSE LET p == PostfixClosure(ty, T, PrimaryEnds(ty, T, i))
       IN p \cup InfixEnds(ty, T, p)

Tab(ty) ==
  LET step(T, k) == LET i == Len(ty) + 1 - k IN [T EXCEPT ![i] = ExprEnds(ty, T, i)]
  IN FoldLeftDomain(step, MapN(LAMBDA i : {}, Len(ty) + 2), ty)

\* path: expression (SP)? EOF
InPath(ty) == ty # <<>> /\ (Len(ty) + 1) \in SpS(ty, Tab(ty)[1])

\* simplePath: '/' simplePathExpr (SP)? EOF
SimpleNames == {"null", "bool", "dec", "hex", "oct", "bin", "str", "id", "*"}
RECURSIVE SimpleR(_, _)
SimpleR(ty, S) ==           \* S: positions where a component may start
  LET e == {i + 1 : i \in {j \in S : TT(ty, j) \in SimpleNames}}
  IN IF e = {} THEN {}
     ELSE e \cup SimpleR(ty, SpS(ty, Eat(ty, "/", SpS(ty, e))))
InSimplePath(ty) == Len(ty) > 1 /\ ty[1] = "/"
                    /\ (Len(ty) + 1) \in SpS(ty, SimpleR(ty, {2}))
============================================================================
