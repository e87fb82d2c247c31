------------------------------ MODULE Operands ------------------------------
(***************************************************************************)
(* Trees of operators (for MCGroup and MCParens): operands that tell       *)
(* groupings apart, the texts of trees, and what they evaluate to.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Render

Ops == {"**", "*", "/", "%", "+", "-", "<", "<=", ">", ">=", "in", "==", "!=", "===", "!==", "&&", "||"}
\* one of each level, for the longest sequences
FewOps == {"**", "/", "-", "<", "in", "==", "&&", "||"}
X(i) == [x |-> "operand", i |-> i]

\* values that groupings turn into different results
Pools == << <<"2", "3", "2", "3">>, <<"7", "2", "0", "1">>, <<"1", "0", "5", "0">>, <<"0", "1", "1", "1">>, <<"true", "false", "true", "true">>,
            <<"3", "3", "1", "2">>, <<"false", "true", "1", "0">>, <<"[1]", "[true]", "[0]", "1">>, <<"1", "[2,1]", "true", "[true]">>,
            <<"2", "1", "[true,1]", "[false]">>, <<"-1", "2", "2", "1.5">>, <<"5", "2", "true", "1">>, <<"null", "1", "null", "true">>, <<"2", "3", "8", "64">> >>

RECURSIVE Fill(_, _)
\* the tree with expressions for operands
Fill(t, es) == CASE t.x = "operand" -> es[t.i]
                 [] t.x = "un" -> Un(t.op, Fill(t.e, es))
                 [] t.x = "bin" -> Bin(t.op, Fill(t.l, es), Fill(t.r, es))
ExprOf(w) == ParsePath(T("$[?(") \o w \o T(")]")).path.steps[1].parts[1].x
RECURSIVE Parens(_, _)
Parens(t, ws) == CASE t.x = "operand" -> ws[t.i]
                   [] t.x = "un" -> T("(") \o T(t.op) \o Parens(t.e, ws) \o T(")")
                   [] t.x = "bin" -> T("(") \o Parens(t.l, ws) \o T(" ") \o T(t.op) \o T(" ") \o Parens(t.r, ws) \o T(")")
InFilter(w) == T("$[?(") \o w \o T(")]")
Parsed(w) == LET p == ParsePath(InFilter(w)) IN IF p.st = "ok" THEN p.path.steps[1].parts[1].x ELSE None

Exprs0 == Map(LAMBDA p : Map(LAMBDA w : ExprOf(T(w)), p), Pools)
Texts0 == Map(LAMBDA p : Map(T, p), Pools)

---------------------------------------------------------------------------
One == Numbered(Arr(<<NulV>>))
Result(e) == Ev(e, One, One.vs[1])
Writable(v) == v.k \in {"null", "bool"} \/ (v.k = "num" /\ ~v.neg)
Case(w, want) == [d |-> One, t |-> InFilter(w), p |-> IF want = 1 THEN <<<<1>>>> ELSE <<>>]
\* for a tree: its text, with and without more parentheses
Behaviours(tree, plain, full, k) ==
  LET e == Fill(tree, Exprs0[k])
      v == Result(e)
      t == Truth(v)
  IN IF t = 2 \/ v.k = "bad" THEN <<>>
     ELSE <<Case(plain, t), Case(full, t)>>
          \o (IF v.k = "num" /\ Writable(v) THEN <<Case(LitText(v) \o T(" == (") \o plain \o T(")"), 1)>> ELSE <<>>)
=============================================================================
