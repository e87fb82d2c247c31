------------------------------ MODULE MCParens ------------------------------
(***************************************************************************)
(* Parentheses: every tree of a few operators is written with the fewest   *)
(* parentheses that the table of precedences allows.                       *)
(*   Enough   ParsePath gives the tree to that text, and to the text with  *)
(*            all parentheses                                              *)
(*   Needed   without them it gives another tree                           *)
(* The behaviours evaluate both texts.                                     *)
(***************************************************************************)
EXTENDS Operands

Big == IOEnv.SIZE # "1"
Three == IOEnv.DEPTH = "3"

VARIABLES tree
vars == <<tree>>

B(o, l, r) == MkBin(o, l, r)
\* a prefix before the j-th operator's tree
Pfx(j, p, t) == IF p[1] = j THEN Un(p[2], t) ELSE t
Trees2(o, p) == {Pfx(2, p, B(o[2], Pfx(1, p, B(o[1], X(1), X(2))), X(3))), Pfx(1, p, B(o[1], X(1), Pfx(2, p, B(o[2], X(2), X(3)))))}
Trees3(o, p) ==
  {B(o[3], Pfx(2, p, B(o[2], Pfx(1, p, B(o[1], X(1), X(2))), X(3))), X(4)),
   B(o[3], Pfx(1, p, B(o[1], X(1), Pfx(2, p, B(o[2], X(2), X(3))))), X(4)),
   B(o[2], Pfx(1, p, B(o[1], X(1), X(2))), Pfx(3, p, B(o[3], X(3), X(4)))),
   B(o[1], X(1), Pfx(3, p, B(o[3], Pfx(2, p, B(o[2], X(2), X(3))), X(4)))),
   B(o[1], X(1), Pfx(2, p, B(o[2], X(2), Pfx(3, p, B(o[3], X(3), X(4))))))}
Pres == {<<0, "">>} \cup (IF Three /\ ~Big THEN {} ELSE {1, 2, 3} \X {"!", "-"})
Ops3 == IF Big THEN {"**", "*", "/", "%", "+", "-", "<", "in", "==", "&&", "||"} ELSE {"**", "/", "-", "+", "<", "==", "&&", "||"}

\* (in steps, so that TLC's workers share the work)
Init == tree \in [x : {"first"}, op : IF Three THEN Ops3 ELSE Ops]
Next == /\ tree.x = "first"
        /\ IF Three
           THEN \E o \in Ops3 : \E q \in Ops3 : \E p \in Pres : tree' \in Trees3(<<tree.op, o, q>>, p)
           ELSE \E o \in Ops : \E p \in Pres : tree' \in Trees2(<<tree.op, o>>, p)
Spec == Init /\ [][Next]_vars
Done == tree.x # "first"

In(b, w) == IF b THEN T("(") \o w \o T(")") ELSE w
\* whether c needs parentheses as an operand of o
Needs(c, o, right) ==
  c.x = "bin" /\ (BinLevel(c.op) < BinLevel(o)
                 \/ (BinLevel(c.op) = BinLevel(o) /\ (right # (o = "**"))))
RECURSIVE Least(_, _, _)
Least(t, ws, bare) ==
  CASE t.x = "operand" -> ws[t.i]
    [] t.x = "un" -> T(t.op) \o In(~bare, Least(t.e, ws, bare))
    [] t.x = "bin" -> In(~bare /\ Needs(t.l, t.op, FALSE), Least(t.l, ws, bare)) \o T(" ") \o T(t.op) \o T(" ")
                      \o In(~bare /\ Needs(t.r, t.op, TRUE), Least(t.r, ws, bare))
RECURSIVE HasParens(_)
HasParens(t) == CASE t.x = "operand" -> FALSE [] t.x = "un" -> TRUE
                  [] t.x = "bin" -> Needs(t.l, t.op, FALSE) \/ Needs(t.r, t.op, TRUE) \/ HasParens(t.l) \/ HasParens(t.r)

Enough == Done => /\ Parsed(Least(tree, Texts0[1], FALSE)) = Fill(tree, Exprs0[1])
                  /\ Parsed(Parens(tree, Texts0[1])) = Fill(tree, Exprs0[1])
Needed == Done /\ HasParens(tree) => Parsed(Least(tree, Texts0[1], TRUE)) # Fill(tree, Exprs0[1])
Printed == Done => \A k \in 1..Len(Pools) :
  LET bs == Behaviours(tree, Least(tree, Texts0[k], FALSE), Parens(tree, Texts0[k]), k) IN \A i \in 1..Len(bs) : PrintT(ToJson(bs[i]))
=============================================================================
